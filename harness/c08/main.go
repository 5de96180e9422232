// C08: frames of concurrent senders are never mixed on a connection.
package main

import (
	"context"
	"fmt"

	"github.com/nanobus/iota/go/handler"
	"github.com/nanobus/iota/go/transport/rsocket"
	"github.com/nanobus/iota/go/zzverif/mc"
	"github.com/nanobus/iota/go/zzverif/nconn"
	"github.com/nanobus/iota/go/zzverif/vsched"
	"github.com/nanobus/iota/go/zzverif/wire"
)

// one is a frame to send.
type one struct {
	f     wire.Frame
	flush bool
	err   error
	done  bool
}

var sizes = []int{0, 1, 8192 - 9, 8192 - 8, 20000}

func newOne(c *mc.Ctx, sender, i, nsizes int) *one {
	return &one{f: wire.Frame{Kind: wire.Payload, ID: uint32(2*sender + 1), Next: true, Data: wire.Bytes(mc.Pick(c, sizes[:nsizes]), byte(16*sender+i))}, flush: c.Bool()}
}

func split(b []byte) (fs []wire.Frame, rest int) {
	for len(b) >= 3 {
		n := int(b[0])<<16 | int(b[1])<<8 | int(b[2])
		if n > len(b)-3 {
			break
		}
		f, ok := wire.Decode(b[3 : 3+n])
		if !ok {
			vsched.Fail("bytes on the connection are no frame: %x", b[3:3+min(n, 20)])
		}
		fs = append(fs, f)
		b = b[3+n:]
	}
	return fs, len(b)
}

// judge checks what is on the connection; whole tells that nothing failed.
func judge(lists [][]*one, wrote []byte, whole bool) {
	got, rest := split(wrote)
	if rest > 0 && whole {
		vsched.Fail("%d bytes after the last frame", rest)
	}
	pos := make([]int, len(lists))
	for _, f := range got {
		ok := false
		for l := range lists {
			if pos[l] < len(lists[l]) && wire.Same(f, lists[l][pos[l]].f) {
				pos[l]++
				ok = true
				break
			}
		}
		if !ok {
			vsched.Fail("%v on the connection is not the next frame of any sender", f)
		}
	}
	for l := range lists {
		for i, o := range lists[l] {
			if !o.done {
				vsched.Fail("Send does not return")
			}
			if whole && o.err != nil {
				vsched.Fail("Send returns %v", o.err)
			}
			if whole && i >= pos[l] {
				vsched.Fail("frame %d of sender %d is not on the connection", i, l)
			}
			if o.err == nil && o.flush && i >= pos[l] {
				vsched.Fail("frame %d of sender %d was sent without an error but is not on the connection", i, l)
			}
		}
	}
}

func main() {
	p2 := mc.Bound(2, 3)
	pass := false // each sender lets the others go on after every frame
	run := func(c *mc.Ctx, pre int, lists [][]*one, extra func(*rsocket.Transport, *nconn.Conn), whole bool) {
		vsched.Run(c, vsched.Options{Preemptions: pre, Fine: true, MaxSteps: 200000}, func() {
			a, b := nconn.Pipe("a", "b")
			h := handler.New(context.Background(), handler.ClientMode)
			t := rsocket.NewTCPClientTransport(a, h)
			for l := range lists {
				l := l
				vsched.GoNamed(fmt.Sprintf("sender %d", l), func() {
					for _, o := range lists[l] {
						vsched.Logf("send %v", o.f)
						o.err = t.Send(wire.ToImpl(o.f), o.flush)
						o.done = true
						if pass {
							vsched.Gosched()
						}
						if o.err == nil && o.flush {
							got, _ := split(a.Wrote)
							there := false
							for _, f := range got {
								there = there || wire.Same(f, o.f)
							}
							if !there {
								vsched.Fail("Send returns, but its frame is not on the connection")
							}
						}
					}
				})
			}
			if extra != nil {
				extra(t, b)
			}
			vsched.Quiesce()
			if whole {
				if err := t.Flush(); err != nil {
					vsched.Fail("Flush: %v", err)
				}
			}
			judge(lists, a.Wrote, whole)
			c.State(len(a.Wrote), a.Closes)
		})
	}
	mc.Main(mc.Config{
		ID:     "C08",
		Rule:   "all combinations of frames around the size of the write buffer and of flushing, all interleavings of their senders, and an end of the connection at any point",
		Bounds: fmt.Sprintf("2 senders x 1-2 frames or 3 senders x 1 frame, %d sizes, <=%d preemptions at statement granularity; up to 40 senders and 120 frames of a sender, %d in all, without preemptions", len(sizes), p2, mc.Bound(240, 800)),
		Scenarios: []mc.Scenario{
			{Name: "two senders", Body: func(c *mc.Ctx) {
				n := 1 + c.Choose(2)
				ls := [][]*one{{newOne(c, 0, 0, 5)}, {newOne(c, 1, 0, 5)}}
				if n == 2 {
					ls[0] = append(ls[0], newOne(c, 0, 1, 2))
				}
				run(c, p2, ls, nil, true)
			}},
			{Name: "three senders", Body: func(c *mc.Ctx) {
				run(c, p2, [][]*one{{newOne(c, 0, 0, 5)}, {newOne(c, 1, 0, 5)}, {newOne(c, 2, 0, 2)}}, nil, true)
			}},
			{Name: "two senders and a flush", Body: func(c *mc.Ctx) {
				run(c, p2, [][]*one{{newOne(c, 0, 0, 5)}, {newOne(c, 1, 0, 5)}}, func(t *rsocket.Transport, _ *nconn.Conn) {
					vsched.GoNamed("flush", func() {
						if err := t.Flush(); err != nil {
							vsched.Fail("Flush: %v", err)
						}
					})
				}, true)
			}},
			{Name: "many senders", Body: func(c *mc.Ctx) {
				senders := mc.Pick(c, []int{2, 9, 40})
				frames := mc.Pick(c, []int{1, 3, 20, 120})
				if senders*frames > mc.Bound(240, 800) {
					c.Skip()
				}
				from, flushes, turns := c.Choose(4), c.Choose(3), c.Choose(2)
				ls := make([][]*one, senders)
				for l := range ls {
					for i := 0; i < frames; i++ {
						size := []int{0, 9, 700, 8192 - 9}[(from+i+l)%4]
						if from == 3 {
							size = 40 + i + l
						}
						ls[l] = append(ls[l], &one{
							f:     wire.Frame{Kind: wire.Payload, ID: uint32(2*l + 1), Next: true, Data: wire.Bytes(size, byte(16*l+i))},
							flush: flushes == 0 || flushes == 1 && (i+l)%5 == 0,
						})
					}
				}
				pass = turns == 1
				run(c, 0, ls, nil, true)
				pass = false
			}},
			{Name: "an end meanwhile", Body: func(c *mc.Ctx) {
				how := c.Choose(3)
				ls := [][]*one{{newOne(c, 0, 0, 5), newOne(c, 0, 1, 1)}, {newOne(c, 1, 0, 5)}}
				run(c, p2, ls, func(t *rsocket.Transport, b *nconn.Conn) {
					vsched.GoNamed("end", func() {
						switch how {
						case 0:
							t.Close()
							t.Close()
							if b.Peer.Closes != 1 {
								vsched.Fail("the connection was closed %d times", b.Peer.Closes)
							}
						case 1:
							b.Close()
						case 2:
							b.Peer.Mute = true
						}
						f := wire.Frame{Kind: wire.Cancel, ID: 99}
						if err := t.Send(wire.ToImpl(f), true); err == nil {
							vsched.Fail("Send reports no error after the end of the connection")
						}
					})
				}, false)
			}},
		},
		Assumptions: []string{"a single write of the connection is not interleaved with others, as the net package guarantees"},
	})
}
