// C23: a host instance and the buffers it shares with its guest.
package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"

	"github.com/tetratelabs/wazero"
	"github.com/tetratelabs/wazero/api"

	"github.com/nanobus/iota/go/operations"
	"github.com/nanobus/iota/go/transport/wasmrs/host"
	"github.com/nanobus/iota/go/zzverif/mc"
	"github.com/nanobus/iota/go/zzverif/neutral"
	"github.com/nanobus/iota/go/zzverif/peer"
	"github.com/nanobus/iota/go/zzverif/vsched"
	"github.com/nanobus/iota/go/zzverif/wire"
	"github.com/nanobus/iota/go/zzverif/wmod"
)

const (
	sendPtr = 0x1000
	recvPtr = 0x100000
	operPtr = 0x200000
)

var route = []byte{0, 0, 0, 0, 0, 0, 0, 0}

// rig is a host instance on a guest that the harness plays.
type rig struct {
	*wmod.Mod
	i       *host.Instance
	err     error
	send    *wmod.Region
	recv    *wmod.Region
	ops     []byte
	opsAt   uint64
	missing string
	trapIn  string
	noBufs  bool
	ctx     context.Context
	got     []wire.Frame
	batches []int
	onFrame func(f wire.Frame)
	onCall  func() error // at the end of a call
	running bool
}

var errTrap = errors.New("wasm error: unreachable")

// last is the rig of the current execution.
var last *rig

func (r *rig) start() *rig {
	last = r
	r.send, r.recv = &wmod.Region{Ptr: sendPtr}, &wmod.Region{Ptr: recvPtr}
	if r.ops == nil {
		r.ops = operations.Table{}.ToBytes()
	}
	op := &wmod.Region{Ptr: operPtr, Size: uint32(len(r.ops))}
	copy(op.Bytes(), r.ops)
	call := func(name string, f wmod.Func) wmod.Func {
		return func(c context.Context, a ...uint64) error {
			if r.running {
				vsched.Fail("the host calls the guest while it is running")
			}
			r.running, r.ctx = true, c
			err := f(c, a...)
			if r.trapIn == name {
				err = errTrap
			}
			r.running = false
			return err
		}
	}
	r.Mod = &wmod.Mod{NoMem: r.NoMem(), Regions: []*wmod.Region{r.send, r.recv, op}, Exports: map[string]wmod.Func{}}
	for name, f := range map[string]wmod.Func{
		"__wasmrs_init": func(c context.Context, a ...uint64) error {
			r.send.Size, r.recv.Size = uint32(a[0]), uint32(a[1])
			if r.noBufs {
				r.Call(c, "__init_buffers", sendPtr+16, recvPtr)
				return nil
			}
			r.Call(c, "__init_buffers", sendPtr, recvPtr)
			return nil
		},
		"__wasmrs_op_list_request": func(c context.Context, a ...uint64) error {
			at := r.opsAt
			if at == 0 {
				at = operPtr
			}
			r.Call(c, "__op_list", at, uint64(len(r.ops)))
			return nil
		},
		"__wasmrs_send": func(c context.Context, a ...uint64) error {
			n := int(a[0])
			if n > int(r.send.Size) {
				vsched.Fail("the host wrote %d bytes into a buffer of %d", n, r.send.Size)
			}
			b := append([]byte(nil), r.send.Bytes()[:n]...)
			r.send.Move(64)
			var fs []wire.Frame
			for len(b) > 0 {
				if len(b) < 3 {
					vsched.Fail("%d bytes after the last frame", len(b))
				}
				k := int(b[0])<<16 | int(b[1])<<8 | int(b[2])
				if k > len(b)-3 {
					vsched.Fail("a frame of %d bytes in %d", k, len(b)-3)
				}
				f, ok := wire.Decode(b[3 : 3+k])
				if !ok {
					vsched.Fail("the guest got bytes that are no frame: %x", b[3:min(3+k, 40)])
				}
				b = b[3+k:]
				fs = append(fs, f)
			}
			r.batches = append(r.batches, len(fs))
			for _, f := range fs {
				vsched.Logf("guest gets %v", f)
				r.got = append(r.got, f)
				if r.onFrame != nil {
					r.onFrame(f)
				}
			}
			if r.onCall != nil {
				return r.onCall()
			}
			return nil
		},
	} {
		if name != r.missing {
			r.Exports[name] = call(name, f)
		}
	}
	wazero.ZZInstantiate = func(_ context.Context, _ []byte, h map[string]wazero.ZZHostFunc) (api.Module, error) {
		r.Host = h
		return r.Mod, nil
	}
	bg := context.Background()
	h, err := host.New(bg)
	if err != nil {
		vsched.Fail("host.New: %v", err)
	}
	mod, err := h.Compile(bg, []byte("guest"))
	if err != nil {
		vsched.Fail("Compile: %v", err)
	}
	r.i, r.err = mod.Instantiate(bg)
	return r
}

// NoMem is set through a wrong pointer of the table.
func (r *rig) NoMem() bool { return r.opsAt == 1 }

func up() *rig {
	r := (&rig{}).start()
	if r.err != nil {
		vsched.Fail("Instantiate: %v", r.err)
	}
	return r
}

// answer sends raw frames of the guest in one batch; it is called by the guest.
func (r *rig) raw(b []byte) {
	copy(r.recv.Bytes(), b)
	r.Call(r.ctx, "__send", uint64(len(b)))
	r.recv.Move(len(b))
}

func packed(fs ...wire.Frame) (b []byte) {
	for _, f := range fs {
		e := wire.Encode(f)
		b = append(append(b, wire.U24(len(e))...), e...)
	}
	return b
}

func (r *rig) answer(fs ...wire.Frame) { r.raw(packed(fs...)) }

func (r *rig) caller() neutral.Caller { return peer.Caller{C: r.i} }

func req(data []byte) neutral.Payload {
	return neutral.Payload{Meta: string(route), Data: string(data)}
}

// outcome of a call.
type outcome struct {
	vals []string
	term string
	n    int // terminals
	sub  neutral.Control
}

func (o *outcome) end(kind string) {
	vsched.Logf("%s", kind)
	o.n++
	o.term = kind
	if o.n > 1 {
		vsched.Fail("a second outcome: %s", kind)
	}
}

func (r *rig) rr(p neutral.Payload) *outcome {
	o := &outcome{}
	r.caller().RequestResponse(p).Subscribe(func(p neutral.Payload) {
		o.vals = append(o.vals, p.Data)
		o.end("success")
	}, func(e string) { o.end("error " + e) }, nil)
	return o
}

func (o *outcome) watch(f neutral.Flux) *outcome {
	f.Subscribe(neutral.Sub{OnNext: func(p neutral.Payload) { o.vals = append(o.vals, p.Data) },
		OnComplete: func() { o.end("complete") }, OnError: func(e string) { o.end("error " + e) }})
	return o
}

// kinds of sends in the size scenarios
const (
	kFNF = iota
	kRR
	kRS
	kRC
)

var frameKind = map[int]wire.Kind{kFNF: wire.RequestFNF, kRR: wire.RequestResponse, kRS: wire.RequestStream, kRC: wire.RequestChannel}

func overhead(k int) int {
	return 3 + len(wire.Encode(wire.Frame{Kind: frameKind[k], ID: 2, N: 1, Metadata: route}))
}

const limit = 16384

// size picks how much a frame takes of the buffer.
var classes = []int{40, limit / 2, limit/2 + 1, limit - 40, limit, limit + 1, 3 * limit, 1<<24 + 64}

type sent struct {
	kind, size int
	data       []byte
	o          *outcome
}

func (r *rig) make(s *sent) {
	p := req(s.data)
	switch s.kind {
	case kFNF:
		r.caller().FireAndForget(p)
	case kRR:
		s.o = r.rr(p)
	case kRS:
		s.o = (&outcome{}).watch(r.caller().RequestStream(p))
	case kRC:
		s.o = (&outcome{}).watch(r.caller().RequestChannel(p, neutral.Source{Create: func(k neutral.Sink) { k.OnSubscribe(func(int) {}, func() {}) }}))
	}
}

func newSent(kind, size int, id byte) *sent {
	return &sent{kind: kind, size: size, data: wire.Bytes(size-overhead(kind), id)}
}

// judge checks what arrived of what was sent by several goroutines. Requests of
// streams are sent by goroutines of their own.
func (r *rig) judge(from ...[]*sent) {
	var lists [][]*sent
	for _, l := range from {
		var own []*sent
		for _, s := range l {
			if s.kind == kRS || s.kind == kRC {
				lists = append(lists, []*sent{s})
			} else {
				own = append(own, s)
			}
		}
		lists = append(lists, own)
	}
	pos := make([]int, len(lists))
	for l := range lists {
		var fit []*sent
		for _, s := range lists[l] {
			if s.size <= limit {
				fit = append(fit, s)
				if s.o != nil && s.o.n > 0 {
					vsched.Fail("a request of %d bytes ended with %s", s.size, s.o.term)
				}
			} else if s.o != nil && (s.o.n != 1 || s.o.term[:5] != "error") {
				vsched.Fail("a request of %d bytes, too many for the buffer, ended with %q", s.size, s.o.term)
			}
		}
		lists[l] = fit
	}
	for _, f := range r.got {
		ok := false
		for l := range lists {
			if pos[l] < len(lists[l]) {
				if s := lists[l][pos[l]]; frameKind[s.kind] == f.Kind && bytes.Equal(s.data, f.Data) && bytes.Equal(f.Metadata, route) {
					pos[l]++
					ok = true
					break
				}
			}
		}
		if !ok {
			vsched.Fail("the guest got %v, which is not the next frame of any sender", f)
		}
	}
	for l := range lists {
		if pos[l] != len(lists[l]) {
			vsched.Fail("%d of %d frames reached the guest", pos[l], len(lists[l]))
		}
	}
}

func pick(c *mc.Ctx, xs ...int) int { return mc.Pick(c, xs) }

// values answers a stream request of the host.
func compositions(c *mc.Ctx, n int) (out []int) {
	for n > 0 {
		k := 1 + c.Choose(n)
		out = append(out, k)
		n -= k
	}
	return out
}

func handlersOf(r *rig, h *neutral.Handlers) {
	f := func() *neutral.Handlers { return h }
	r.i.SetRequestResponseHandler(0, peer.RR(f))
	r.i.SetFireAndForgetHandler(0, peer.FNF(f))
	r.i.SetRequestStreamHandler(0, peer.RS(f))
	r.i.SetRequestChannelHandler(0, peer.RC(f))
}

// kick makes the guest run f.
func (r *rig) kick(f func()) {
	old := r.onFrame
	r.onFrame = func(fr wire.Frame) {
		if fr.Kind == wire.RequestFNF {
			f()
		} else if old != nil {
			old(fr)
		}
	}
	r.caller().FireAndForget(req([]byte("kick")))
}

func table() operations.Table {
	return operations.Table{{Index: 0, Type: operations.RequestResponse, Direction: operations.Export, Namespace: "ns", Operation: "op"},
		{Index: 7, Type: operations.RequestChannel, Direction: operations.Import, Namespace: "", Operation: "o"}}
}

func run(c *mc.Ctx, pre int, f func()) {
	vsched.Run(c, vsched.Options{Preemptions: pre, Fine: true, MaxSteps: 200000}, func() {
		f()
		sum := ""
		for _, fr := range last.got {
			sum += fmt.Sprintf("%v#%d %d;", fr.Kind, fr.ID, len(fr.Data))
		}
		c.State(last.batches, sum)
	})
}

func main() {
	p0, p1, p2 := mc.Bound(0, 1), mc.Bound(1, 2), mc.Bound(2, 3)
	mc.Main(mc.Config{
		ID:     "C23",
		Rule:   "all sequences of sends with sizes around the capacity of the buffers, all ways for the guest to batch what it sends, all points at which the instance is closed or the guest fails, and all interleavings of the goroutines of the host",
		Bounds: fmt.Sprintf("sequences of <=%d sends x 8 sizes x 4 kinds; two senders x 2 sends with <=%d preemptions; <=%d values of the guest in every batching with broken frames between them; close, twice, with 7 kinds of pending work, <=%d preemptions; a failure in each of the first 3 calls of the guest; every truncation and corruption of an operation table", mc.Bound(3, 4), p1, mc.Bound(4, 5), p2),
		Scenarios: []mc.Scenario{
			{Name: "sizes", Body: func(c *mc.Ctx) {
				n := 1 + c.Choose(mc.Bound(3, 4))
				var list []*sent
				for i := 0; i < n; i++ {
					size := classes[c.Choose(len(classes)-1)]
					list = append(list, newSent(pick(c, kFNF, kRR, kRS, kRC), size, byte(i)))
				}
				run(c, 0, func() {
					r := up()
					for _, s := range list {
						r.make(s)
					}
					vsched.Quiesce()
					r.judge(list)
				})
			}},
			{Name: "huge", Body: func(c *mc.Ctx) {
				s := newSent(c.Choose(4), classes[len(classes)-1], 0)
				run(c, 0, func() {
					r := up()
					r.make(s)
					small := newSent(kRR, 40, 1)
					r.make(small)
					vsched.Quiesce()
					r.judge([]*sent{s, small})
				})
			}},
			{Name: "two senders", Body: func(c *mc.Ctx) {
				var lists [2][]*sent
				for l := range lists {
					for i := 0; i < 2; i++ {
						lists[l] = append(lists[l], newSent(pick(c, kFNF, kRR), pick(c, 40, limit/2, limit, limit+1), byte(2*l+i)))
					}
				}
				run(c, p1, func() {
					r := up()
					vsched.GoNamed("sender", func() {
						for _, s := range lists[1] {
							r.make(s)
						}
					})
					for _, s := range lists[0] {
						r.make(s)
					}
					vsched.Quiesce()
					r.judge(lists[0], lists[1])
				})
			}},
			{Name: "many", Body: func(c *mc.Ctx) { // more than any queue holds
				n, size := pick(c, 99, 100, 101, 250), pick(c, 40, 4000)
				answer := c.Bool()
				run(c, 0, func() {
					r := up()
					if answer {
						r.onFrame = func(f wire.Frame) {
							r.answer(wire.Frame{Kind: wire.Payload, ID: f.ID, Data: f.Data, Next: true, Complete: true})
						}
					}
					var list []*sent
					for i := 0; i < n; i++ {
						s := newSent(kRR, size, byte(i))
						list = append(list, s)
						r.make(s)
					}
					vsched.Quiesce()
					if answer {
						for i, s := range list {
							if s.o.term != "success" || s.o.vals[0] != string(s.data) {
								vsched.Fail("request %d ended with %q", i, s.o.term)
							}
							s.o = nil
						}
					}
					r.judge(list)
				})
			}},
			{Name: "requests of the guest", Body: func(c *mc.Ctx) { // more than any queue holds, in one call
				n, perBatch := pick(c, 99, 100, 101, 250), pick(c, 1, 5, 250)
				bad := c.Bool()
				run(c, 0, func() {
					r := up()
					handlersOf(r, &neutral.Handlers{RR: func(p neutral.Payload) neutral.Answer { return neutral.Answer{Just: &p} }})
					replies := map[uint32]string{}
					r.onFrame = func(f wire.Frame) {
						if _, ok := replies[f.ID]; ok {
							vsched.Fail("a second reply %v", f)
						}
						replies[f.ID] = f.Kind.String()
					}
					r.kick(func() {
						for i := 0; i < n; i += perBatch {
							var fs []wire.Frame
							for j := i; j < n && j < i+perBatch; j++ {
								f := wire.Frame{Kind: wire.RequestResponse, ID: uint32(2*j + 1), Metadata: route}
								if bad {
									f.Metadata = route[:4]
								}
								fs = append(fs, f)
							}
							r.answer(fs...)
						}
					})
					vsched.Quiesce()
					want := "PAYLOAD"
					if bad {
						want = "ERROR"
					}
					for j := 0; j < n; j++ {
						if replies[uint32(2*j+1)] != want {
							vsched.Fail("request %d was answered with %q", j, replies[uint32(2*j+1)])
						}
					}
				})
			}},
			{Name: "handlers set meanwhile", Body: func(c *mc.Ctx) {
				k, k2 := c.Choose(4), c.Choose(4)
				idx, again := uint32(c.Choose(2)), c.Bool()
				if !again && k2 > 0 {
					c.Skip()
				}
				pre := p1
				if !again { // one to begin the request, another one to serve it
					pre = p2
				}
				run(c, pre, func() { settingHandlers(k, k2, idx, again) })
			}},
			{Name: "batches of the guest", Body: func(c *mc.Ctx) {
				n := mc.Bound(4, 5)
				split := compositions(c, n)
				broken := c.Choose(5)
				at := 0
				if broken > 0 {
					at = c.Choose(n)
				}
				big := c.Bool()
				run(c, p0, func() {
					r := up()
					var want []string
					r.onFrame = func(f wire.Frame) {
						if f.Kind != wire.RequestStream {
							return
						}
						i := 0
						for _, k := range split {
							var b []byte
							for ; k > 0; k-- {
								size := 5 + i
								if big && len(split) == n {
									size = limit - 3 - 6 - i
								}
								p := wire.Frame{Kind: wire.Payload, ID: f.ID, Data: wire.Bytes(size, byte(i)), Next: true, Complete: i == n-1}
								want = append(want, string(p.Data))
								if broken > 0 && broken < 4 && at == i && !big {
									switch broken {
									case 1: // too short to be a frame
										b = append(b, 0, 0, 3, 1, 2, 3)
									case 2: // nothing at all
										b = append(b, 0, 0, 0)
									case 3: // of no kind, for a stream nobody knows
										b = append(b, 0, 0, 8, 0, 0, 0, 77, 0x28, 0, 1, 2)
									}
								}
								b = append(b, packed(p)...)
								i++
							}
							if broken == 4 && !big { // the last one of the batch is cut
								b = append(b, 0, 0, 9, 0, 0, 0)
							}
							r.raw(b)
						}
					}
					o := (&outcome{}).watch(r.caller().RequestStream(req(nil)))
					vsched.Quiesce()
					if fmt.Sprint(o.vals) != fmt.Sprint(want) || o.term != "complete" {
						vsched.Fail("got %d values of %d, %q", len(o.vals), len(want), o.term)
					}
				})
			}},
			{Name: "kept payloads", Body: func(c *mc.Ctx) { // of requests, while the guest reuses its buffer
				kinds := []wire.Kind{mc.Pick(c, wire.Kinds[:4]), mc.Pick(c, wire.Kinds[:4])}
				split := c.Bool()
				run(c, p1, func() {
					r := up()
					var kept []neutral.Payload
					got := map[string]int{}
					keep := func(p neutral.Payload) { kept = append(kept, p); got[p.Data]++ }
					handlersOf(r, &neutral.Handlers{
						RR:  func(p neutral.Payload) neutral.Answer { keep(p); return neutral.Answer{Fail: "x"} },
						FNF: keep,
						RS:  func(p neutral.Payload) neutral.Source { keep(p); return neutral.Source{Fail: "x"} },
						RC: func(p neutral.Payload, _ neutral.Flux) neutral.Source {
							keep(p)
							return neutral.Source{Fail: "x"}
						},
					})
					r.kick(func() {
						a := wire.Frame{Kind: kinds[0], ID: 1, N: 1, Metadata: route, Data: []byte("first one")}
						b := wire.Frame{Kind: kinds[1], ID: 3, N: 1, Metadata: route, Data: []byte("second")}
						if split {
							r.answer(a)
							r.answer(b)
						} else {
							r.answer(a, b)
						}
					})
					vsched.Quiesce()
					if len(kept) != 2 || got["first one"] != 1 || got["second"] != 1 {
						vsched.Fail("the handlers got %q", kept)
					}
				})
			}},
			{Name: "answers that do not fit", Body: func(c *mc.Ctx) {
				kind := mc.Pick(c, []wire.Kind{wire.RequestResponse, wire.RequestStream, wire.RequestChannel})
				sizes := []int{pick(c, 10, limit-9, limit-8, limit*2), pick(c, 10, limit*2)}
				long := c.Bool() // the error is too long instead
				run(c, p0, func() {
					r := up()
					cancelled := 0
					src := func() neutral.Source {
						return neutral.Source{Create: func(k neutral.Sink) {
							i := 0
							k.OnSubscribe(func(n int) {
								for ; n > 0 && i < 2 && cancelled == 0; n-- {
									s := wire.Bytes(sizes[i], byte(i))
									i++
									if long && len(s) > limit-9 {
										k.Error(string(s))
										return
									}
									k.Next(neutral.Payload{Data: string(s)})
								}
								if i == 2 && cancelled == 0 {
									k.Complete()
								}
							}, func() { cancelled++ })
						}}
					}
					handlersOf(r, &neutral.Handlers{
						RR: func(p neutral.Payload) neutral.Answer {
							d := wire.Bytes(sizes[0], 0)
							if long && sizes[0] > limit-9 {
								return neutral.Answer{Fail: string(d)}
							}
							return neutral.Answer{Just: &neutral.Payload{Data: string(d)}}
						},
						RS: func(p neutral.Payload) neutral.Source { return src() },
						RC: func(p neutral.Payload, in neutral.Flux) neutral.Source { return src() },
					})
					var fs []wire.Frame
					r.onFrame = func(f wire.Frame) { fs = append(fs, f) }
					r.kick(func() {
						r.answer(wire.Frame{Kind: kind, ID: 1, N: 10, Metadata: route})
					})
					vsched.Quiesce()
					want := []string{}
					failed := false
					for i, s := range sizes {
						if kind == wire.RequestResponse && i == 1 {
							break
						}
						// six bytes of header and three of length
						if s+9 > limit {
							want = append(want, "ERROR")
							failed = true
							break
						}
						want = append(want, fmt.Sprint("PAYLOAD ", s))
					}
					if kind != wire.RequestResponse && !failed {
						want = append(want, "COMPLETE")
					}
					got := []string{}
					for i, f := range fs {
						switch {
						case f.Kind == wire.Payload && f.Next:
							if i < 2 && !bytes.Equal(f.Data, wire.Bytes(sizes[i], byte(i))) {
								vsched.Fail("value %d has the wrong bytes", i)
							}
							got = append(got, fmt.Sprint("PAYLOAD ", len(f.Data)))
						case f.Kind == wire.Payload:
							got = append(got, "COMPLETE")
						default:
							got = append(got, f.Kind.String())
						}
					}
					if fmt.Sprint(got) != fmt.Sprint(want) {
						vsched.Fail("the guest got %v instead of %v", got, want)
					}
					if failed && !long && kind != wire.RequestResponse && cancelled != 1 {
						vsched.Fail("the source was cancelled %d times", cancelled)
					}
				})
			}},
			{Name: "input that does not fit", Body: func(c *mc.Ctx) {
				size := pick(c, 10, limit-9, limit-8, limit*2)
				long := c.Bool()
				run(c, p0, func() {
					r := up()
					var fs []wire.Frame
					r.onFrame = func(f wire.Frame) {
						if f.Kind == wire.RequestChannel {
							r.answer(wire.Frame{Kind: wire.RequestN, ID: f.ID, N: 3})
							return
						}
						fs = append(fs, f)
						if f.Kind == wire.Error || f.Kind == wire.Payload && !f.Next {
							r.answer(wire.Frame{Kind: wire.Payload, ID: f.ID, Complete: true})
						}
					}
					cancelled := 0
					o := (&outcome{}).watch(r.caller().RequestChannel(req(nil), neutral.Source{Create: func(k neutral.Sink) {
						done := false
						k.OnSubscribe(func(n int) {
							if done {
								return
							}
							done = true
							s := wire.Bytes(size, 1)
							if long {
								k.Error(string(s))
								return
							}
							k.Next(neutral.Payload{Data: string(s)})
							if cancelled == 0 {
								k.Complete()
							}
						}, func() { cancelled++ })
					}}))
					vsched.Quiesce()
					got := ""
					for _, f := range fs {
						got += fmt.Sprintf("%v %v %v;", f.Kind, f.Next, f.Complete)
					}
					want := "ERROR false false;"
					if !long && size+9 <= limit {
						want = "PAYLOAD true false;PAYLOAD false true;"
					}
					if got != want || cancelled > 1 {
						vsched.Fail("the guest got %v instead of %v; cancelled %d times", got, want, cancelled)
					}
					if o.n != 1 {
						vsched.Fail("the channel ended %d times: %q", o.n, o.term)
					}
				})
			}},
			{Name: "close", Body: func(c *mc.Ctx) {
				pending := c.Choose(7)
				closers := 1 + c.Choose(2)
				answers := c.Bool()
				run(c, p2, func() { closing(pending, closers, answers) })
			}},
			{Name: "close a stuck guest", Body: func(c *mc.Ctx) {
				n := pick(c, 1, 100, 101, 102, 103, 201, 202, 203, 250)
				kind := pick(c, kFNF, kRR)
				run(c, 0, func() {
					r := up()
					stuck := true
					r.onCall = func() error {
						vsched.Wait("stuck", func() bool { return !stuck })
						return nil
					}
					done := false
					var list []*sent
					vsched.GoNamed("sender", func() {
						for i := 0; i < n; i++ {
							s := newSent(kind, 40, byte(i))
							list = append(list, s)
							r.make(s)
						}
						done = true
					})
					vsched.Quiesce()
					closed := false
					vsched.GoNamed("closer", func() { r.i.Close(); closed = true })
					vsched.Quiesce()
					if !closed || !done {
						vsched.Fail("Close returned: %v; senders go on: %v", closed, done)
					}
					for _, s := range list {
						if s.o != nil && s.o.n != 1 {
							vsched.Fail("a pending request has no outcome")
						}
					}
					stuck = false
					vsched.Quiesce()
					if b := vsched.Blocked(); len(b) > 0 {
						vsched.Fail("goroutines are left: %v", b)
					}
				})
			}},
			{Name: "failing guest", Body: func(c *mc.Ctx) {
				at := c.Choose(3)
				kinds := []int{c.Choose(4), c.Choose(4), c.Choose(4)}
				run(c, p0, func() {
					r := up()
					calls := 0
					bad := map[uint32]bool{}
					r.onCall = func() error {
						calls++
						var last []wire.Frame
						k := len(r.got) - r.batches[len(r.batches)-1]
						last = r.got[k:]
						if calls-1 == at {
							for _, f := range last {
								bad[f.ID] = true
							}
							return errTrap
						}
						return nil
					}
					var list []*sent
					for i, k := range kinds {
						s := newSent(k, 40, byte(i))
						list = append(list, s)
						r.make(s)
						if calls <= at || i == 1 {
							vsched.Quiesce()
						}
					}
					vsched.Quiesce()
					for i, s := range list {
						failed := s.o != nil && s.o.n == 1 && s.o.term[:5] == "error"
						if s.o != nil && s.o.n > 0 && !failed {
							vsched.Fail("call %d: %s", i, s.o.term)
						}
						for _, f := range r.got {
							if bytes.Equal(f.Data, s.data) && bad[f.ID] && s.o != nil && !failed {
								vsched.Fail("call %d, which the guest failed on, has no outcome", i)
							}
						}
					}
					if at < calls { // it goes on
						r.onCall = nil
						r.onFrame = func(f wire.Frame) {
							r.answer(wire.Frame{Kind: wire.Payload, ID: f.ID, Data: f.Data, Next: true, Complete: true})
						}
						o := r.rr(req([]byte("again")))
						vsched.Quiesce()
						if o.term != "success" {
							vsched.Fail("a call after the failure: %q", o.term)
						}
					}
				})
			}},
			{Name: "modules", Body: func(c *mc.Ctx) {
				r := &rig{ops: table().ToBytes()}
				good := false
				what := c.Choose(7)
				names := []string{"__wasmrs_init", "__wasmrs_op_list_request", "__wasmrs_send"}
				switch what {
				case 0:
					good = true
				case 1:
					r.missing = mc.Pick(c, names)
				case 2:
					r.trapIn = mc.Pick(c, names[:2])
				case 3: // a cut table
					r.ops = r.ops[:c.Choose(len(r.ops))]
				case 4: // a table with one byte changed
					i := c.Choose(len(r.ops))
					r.ops = append([]byte(nil), r.ops...)
					r.ops[i] ^= mc.Pick(c, []byte{1, 0x80, 0xff})
				case 5: // a table outside of the memory, or no memory
					r.opsAt = mc.Pick(c, []uint64{1, operPtr + 1, 0xffffffff})
				case 6:
					r.noBufs = true
				}
				run(c, 0, func() {
					r.start()
					if what == 4 {
						// what the table says then is up to C19
						want, err := operations.FromBytes(r.ops)
						good = err == nil
						if good && fmt.Sprint(r.i.Operations()) != fmt.Sprint(want) {
							vsched.Fail("operations %v instead of %v", r.i.Operations(), want)
						}
					}
					if (r.err == nil) != good {
						vsched.Fail("Instantiate returned %v", r.err)
					}
					if what == 0 && fmt.Sprint(r.i.Operations()) != fmt.Sprint(table()) {
						vsched.Fail("operations %v", r.i.Operations())
					}
				})
			}},
		},
		Assumptions: []string{"the WebAssembly engine is replaced; its memory moves at every call of the guest", "frames are not fragmented, as the code never does it"},
	})
}

// closing checks what is left when the instance is closed at any time.
func closing(pending, closers int, answers bool) {
	r := up()
	vsched.Logf("pending %d, %d closers, answers %v", pending, closers, answers)
	cancelled, created, inTerm := 0, 0, ""
	src := neutral.Source{Create: func(k neutral.Sink) {
		created++
		k.OnSubscribe(func(int) {}, func() { cancelled++ })
	}}
	handlersOf(r, &neutral.Handlers{
		RR: func(p neutral.Payload) neutral.Answer {
			created++
			return neutral.Answer{Create: func(func(neutral.Payload), func(string)) {}}
		},
		RS: func(p neutral.Payload) neutral.Source { return src },
		RC: func(p neutral.Payload, in neutral.Flux) neutral.Source {
			in.Subscribe(neutral.Sub{OnError: func(e string) { inTerm += "error" }, OnComplete: func() { inTerm += "complete" }})
			return src
		},
	})
	if answers {
		r.onFrame = func(f wire.Frame) {
			if f.Kind.IsRequest() && f.Kind != wire.RequestFNF {
				r.answer(wire.Frame{Kind: wire.Payload, ID: f.ID, Data: []byte("a"), Next: true, Complete: true})
			}
		}
	}
	done := 0
	for i := 0; i < closers; i++ {
		vsched.GoNamed("closer", func() { r.i.Close(); vsched.Logf("closed"); done++ })
	}
	var o *outcome
	switch pending {
	case 0:
		r.make(&sent{kind: kFNF})
	case 1:
		o = r.rr(req(nil))
	case 2:
		o = (&outcome{}).watch(r.caller().RequestStream(req(nil)))
	case 3:
		o = (&outcome{}).watch(r.caller().RequestChannel(req(nil), src))
	case 4, 5, 6:
		kind := []wire.Kind{wire.RequestResponse, wire.RequestStream, wire.RequestChannel}[pending-4]
		r.kick(func() {
			r.answer(wire.Frame{Kind: kind, ID: 1, N: 3, Metadata: route})
		})
	}
	vsched.Quiesce()
	if done != closers {
		vsched.Fail("Close did not return")
	}
	if o != nil && o.n != 1 {
		vsched.Fail("a request has no outcome after Close")
	}
	if o != nil && o.term[:5] != "error" && !answers {
		vsched.Fail("a request ended with %s after Close", o.term)
	}
	if pending >= 3 && pending != 4 && created > 0 && cancelled != 1 {
		vsched.Fail("the source was cancelled %d times after Close", cancelled)
	}
	if pending == 6 && created > 0 && inTerm != "error" {
		vsched.Fail("the input ended with %q after Close", inTerm)
	}
	if b := vsched.Blocked(); len(b) > 0 {
		vsched.Fail("goroutines are left after Close: %v", b)
	}
	late := r.rr(req(nil))
	var lateS *outcome
	lateS = (&outcome{}).watch(r.caller().RequestStream(req(nil)))
	r.make(&sent{kind: kFNF})
	vsched.Quiesce()
	if late.n != 1 || late.term[:5] != "error" || lateS.n != 1 || lateS.term[:5] != "error" {
		vsched.Fail("requests after Close: %q %q", late.term, lateS.term)
	}
}

// settingHandlers has the guest make a request of kind k while its handler, or
// that of another index, is set, and another one once that has been done.
func settingHandlers(k, k2 int, idx uint32, again bool) {
	r := up()
	got := map[uint32]string{}
	served := map[string]string{}
	r.onFrame = func(f wire.Frame) {
		if f.Kind == wire.Error {
			got[f.ID] = string(f.Data)
		} else {
			got[f.ID] += f.Kind.String() + " " + string(f.Data)
		}
	}
	set := func(kind int, idx uint32, name string) {
		hear := func(p neutral.Payload) neutral.Payload {
			served[p.Data] += name
			return neutral.Payload{Data: name}
		}
		h := func() *neutral.Handlers {
			return &neutral.Handlers{
				RR:  func(p neutral.Payload) neutral.Answer { p = hear(p); return neutral.Answer{Just: &p} },
				FNF: func(p neutral.Payload) { hear(p) },
				RS:  func(p neutral.Payload) neutral.Source { return neutral.Source{Slice: []neutral.Payload{hear(p)}} },
				RC: func(p neutral.Payload, _ neutral.Flux) neutral.Source {
					return neutral.Source{Slice: []neutral.Payload{hear(p)}}
				},
			}
		}
		switch kind {
		case 0:
			r.i.SetRequestResponseHandler(idx, peer.RR(h))
		case 1:
			r.i.SetFireAndForgetHandler(idx, peer.FNF(h))
		case 2:
			r.i.SetRequestStreamHandler(idx, peer.RS(h))
		case 3:
			r.i.SetRequestChannelHandler(idx, peer.RC(h))
		}
	}
	kinds := []wire.Kind{wire.RequestResponse, wire.RequestFNF, wire.RequestStream, wire.RequestChannel}
	ask := func(id uint32, kind int, idx uint32, name string) wire.Frame {
		md := append(binary.BigEndian.AppendUint32(nil, idx), 0, 0, 0, 0)
		return wire.Frame{Kind: kinds[kind], ID: id, N: 5, Metadata: md, Data: []byte(name)}
	}
	if again {
		set(k, 0, "A")
		set(k2, 0, "A")
	}
	setter := func() {
		set(k, idx, "B")
		if again {
			set(k2, idx, "B")
		}
	}
	first := []wire.Frame{ask(1, k, 0, "q1")}
	if again {
		first = append(first, ask(3, k2, 0, "q3"))
	}
	r.kick(func() {
		vsched.GoNamed("setter", setter)
		r.answer(first...)
	})
	vsched.Quiesce()
	r.kick(func() { r.answer(ask(5, k, idx, "q5"), ask(7, k, idx+1, "q7")) })
	vsched.Quiesce()
	may := func(id uint32, kind int, names ...string) {
		q := fmt.Sprintf("q%d", id)
		for _, n := range names {
			want := n
			if n == "" && kind != 1 {
				want = "not_found"
			} else if kind == 0 {
				want = "PAYLOAD " + n
			} else if kind == 1 {
				want = ""
			} else {
				want = "PAYLOAD " + n + "PAYLOAD "
			}
			if served[q] == n && got[id] == want {
				return
			}
		}
		vsched.Fail("request %d was served by %q and answered %q, with handlers %q", id, served[q], got[id], names)
	}
	old := ""
	if again {
		old = "A"
	}
	if idx == 0 {
		may(1, k, old, "B")
		may(7, k, "")
	} else {
		may(1, k, old)
		may(7, k, "")
	}
	if again && idx == 0 {
		may(3, k2, old, "B")
	} else if again {
		may(3, k2, old)
	}
	may(5, k, "B")
}
