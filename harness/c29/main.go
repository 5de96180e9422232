// C29: when a connection ends, everything on it ends.
package main

import (
	"context"
	"errors"
	"fmt"
	"io"

	"github.com/nanobus/iota/go/handler"
	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/transport/rsocket"
	"github.com/nanobus/iota/go/zzverif/mc"
	"github.com/nanobus/iota/go/zzverif/nconn"
	"github.com/nanobus/iota/go/zzverif/neutral"
	"github.com/nanobus/iota/go/zzverif/peer"
	"github.com/nanobus/iota/go/zzverif/vsched"
	"github.com/nanobus/iota/go/zzverif/wire"
)

var cur *world

func init() {
	peer.Export(func() *neutral.Handlers { return cur.handlers() })
}

// side is one end.
type side struct {
	neutral.Caller
	t      *rsocket.Transport
	h      *handler.Handler
	c      *nconn.Conn
	cancel context.CancelFunc
	done   bool
	err    error
}

// source counts what happens to it.
type source struct{ asked, cancelled, ended int }

func (s *source) flux(end bool) neutral.Source {
	return neutral.Source{Create: func(k neutral.Sink) {
		k.OnSubscribe(func(n int) {
			s.asked++
			if s.asked == 1 {
				k.Next(neutral.Payload{Data: "v"})
				if end {
					s.ended++
					k.Complete()
				}
			}
		}, func() { s.cancelled++ })
	}}
}

// call is one request and what both sides hear of it.
type call struct {
	kind     wire.Kind
	answered bool // the handler answers it
	by       int
	vals     []string
	term     string
	terms    int
	in, out  source
	served   int
	inTerms  int
	inTerm   string
	inVals   int
}

type world struct {
	ends  [2]*side
	calls []*call
}

func (w *world) find(p neutral.Payload) *call {
	var n int
	fmt.Sscanf(p.Data, "call %d", &n)
	if n >= len(w.calls) || p.Data != fmt.Sprintf("call %d", n) {
		vsched.Fail("a handler got %q", p.Data)
	}
	c := w.calls[n]
	if c.served++; c.served > 1 {
		vsched.Fail("call %d was served twice", n)
	}
	return c
}

func (w *world) handlers() *neutral.Handlers {
	return &neutral.Handlers{
		RR: func(p neutral.Payload) neutral.Answer {
			c := w.find(p)
			return neutral.Answer{Create: func(ok func(neutral.Payload), _ func(string)) {
				if c.answered {
					ok(neutral.Payload{Data: "v"})
				}
			}}
		},
		FNF: func(p neutral.Payload) { w.find(p) },
		RS: func(p neutral.Payload) neutral.Source {
			c := w.find(p)
			return c.out.flux(c.answered)
		},
		RC: func(p neutral.Payload, in neutral.Flux) neutral.Source {
			c := w.find(p)
			in.Subscribe(neutral.Sub{
				OnNext:     func(neutral.Payload) { c.inVals++ },
				OnComplete: func() { c.inTerms++; c.inTerm = "complete" },
				OnError:    func(e string) { c.inTerms++; c.inTerm = "error" },
			})
			return c.out.flux(c.answered)
		},
	}
}

func newWorld(late bool) *world {
	w := &world{}
	cur = w
	a, b := nconn.Pipe("client", "server")
	a.Late, b.Late = late, late
	for i, conn := range []*nconn.Conn{a, b} {
		ctx, cancel := context.WithCancel(context.Background())
		s := &side{c: conn, cancel: cancel}
		s.h = handler.New(ctx, []handler.Mode{handler.ClientMode, handler.ServerMode}[i])
		s.t = rsocket.NewTCPClientTransport(conn, s.h)
		s.h.SetFrameSender(func(f frames.Frame) error { return s.t.Send(f, true) })
		s.Caller = peer.Caller{C: s.h}
		w.ends[i] = s
		vsched.GoNamed(conn.Name+" Start", func() {
			s.err = s.t.Start(ctx)
			s.done = true
			vsched.Logf("Start of the %s returned %v", s.c.Name, s.err)
		})
	}
	return w
}

func (c *call) end(t string) {
	c.terms++
	c.term = t
	vsched.Logf("the request ended: %s", t)
	if c.terms > 1 {
		vsched.Fail("a second outcome of a request: %s", t)
	}
}

// make makes a request.
func (w *world) make(c *call) {
	p := neutral.Payload{Meta: "\x00\x00\x00\x00\x00\x00\x00\x00", Data: fmt.Sprintf("call %d", len(w.calls))}
	w.calls = append(w.calls, c)
	by := w.ends[c.by]
	sub := neutral.Sub{OnNext: func(p neutral.Payload) { c.vals = append(c.vals, p.Data) }, OnComplete: func() { c.end("complete") }, OnError: func(string) { c.end("error") }}
	switch c.kind {
	case wire.RequestResponse:
		by.RequestResponse(p).Subscribe(func(p neutral.Payload) { c.vals = append(c.vals, p.Data); c.end("complete") }, func(string) { c.end("error") }, nil)
	case wire.RequestFNF:
		by.FireAndForget(p)
	case wire.RequestStream:
		by.RequestStream(p).Subscribe(sub)
	case wire.RequestChannel:
		by.RequestChannel(p, c.in.flux(c.answered)).Subscribe(sub)
	}
}

func (c *call) judge(n int) {
	if c.kind == wire.RequestFNF {
		return
	}
	if c.terms != 1 {
		vsched.Fail("call %d, a %v, has no outcome", n, c.kind)
	}
	full := len(c.vals) == 1
	if c.term == "complete" && (!c.answered || c.served == 0 || !full) || len(c.vals) > 1 || len(c.vals) == 1 && c.vals[0] != "v" {
		vsched.Fail("call %d, a %v, got %q and then %s", n, c.kind, c.vals, c.term)
	}
	if c.kind == wire.RequestResponse {
		return
	}
	for _, s := range []*source{&c.out, &c.in} {
		name := "the handler's source"
		if s == &c.in {
			name = "the requester's source"
		}
		if s.cancelled > 1 || s.ended == 0 && s.asked > 0 && s.cancelled != 1 {
			vsched.Fail("%s of call %d was cancelled %d times", name, n, s.cancelled)
		}
	}
	if c.kind == wire.RequestChannel && c.served > 0 && (c.inTerms != 1 || c.inTerm == "complete" && !(c.answered && c.inVals == 1)) {
		vsched.Fail("the input of call %d got %d values and ended %d times: %q", n, c.inVals, c.inTerms, c.inTerm)
	}
}

var ends = []string{"client closes", "server closes", "client's context", "server's context", "broken", "garbage to the server", "garbage to the client"}

func (w *world) finish(how int) {
	vsched.Logf("%s", ends[how])
	a, b := w.ends[0], w.ends[1]
	switch how {
	case 0:
		a.t.Close()
	case 1:
		b.t.Close()
	case 2:
		a.cancel()
	case 3:
		b.cancel()
	case 4:
		a.c.Broken, b.c.Broken = true, true
	case 5:
		b.c.Inject([]byte{0, 0, 6, 0, 0, 0, 1, 0xfc, 0})
	case 6:
		a.c.Inject([]byte{0, 0, 1, 0})
	}
}

func (w *world) judge() {
	for i, s := range w.ends {
		if !s.done {
			vsched.Fail("Start of the %s does not return", s.c.Name)
		}
		if s.c.Closes == 0 {
			vsched.Fail("the %s's connection was not closed", s.c.Name)
		}
		_ = i
	}
	for n, c := range w.calls {
		c.judge(n)
	}
	if b := vsched.Blocked(); len(b) > 0 {
		vsched.Fail("goroutines are left: %v", b)
	}
}

func pick(c *mc.Ctx, xs ...int) int { return mc.Pick(c, xs) }

var kinds = []wire.Kind{wire.RequestResponse, wire.RequestStream, wire.RequestChannel, wire.RequestFNF}

// recorder is a handler of frames that records them.
type recorder struct {
	got    []wire.Frame
	failAt int
	stall  bool
	closed int
}

var errHandler = errors.New("handler failed")

func (r *recorder) SetFrameSender(rsocket.FrameHandler) {}
func (r *recorder) HandleFrame(f frames.Frame) error {
	vsched.Point()
	r.got = append(r.got, wire.FromImpl(f))
	if len(r.got) == r.failAt {
		return errHandler
	}
	if r.stall {
		vsched.Wait("a slow handler", func() bool { return !r.stall })
	}
	return nil
}

func main() {
	p1 := mc.Bound(1, 2)
	mc.Main(mc.Config{
		ID:     "C29",
		Rule:   "all kinds of requests from either side, answered or not, with every way for the connection to end at every point of every interleaving; all sequences of frames with every point of failure of the handler",
		Bounds: fmt.Sprintf("1-2 requests, %d ways to end, <=%d preemptions at statement granularity; <=%d requests pending at the end of the connection, without preemptions; <=%d frames", len(ends), p1, mc.Bound(140, 300), 5),
		Scenarios: []mc.Scenario{
			{Name: "an end at any time", Body: func(c *mc.Ctx) {
				how := c.Choose(len(ends))
				cl := &call{kind: mc.Pick(c, kinds), by: c.Choose(2), answered: c.Bool()}
				late := c.Bool()
				vsched.Run(c, vsched.Options{Preemptions: p1, Fine: true}, func() {
					w := newWorld(late)
					vsched.GoNamed("end", func() { w.finish(how) })
					w.make(cl)
					vsched.Quiesce()
					w.judge()
					c.State(cl.term, len(cl.vals), cl.served, cl.in, cl.out)
				})
			}},
			{Name: "an end of what is pending", Body: func(c *mc.Ctx) {
				how := c.Choose(len(ends))
				c1 := &call{kind: mc.Pick(c, kinds[:3]), by: c.Choose(2), answered: c.Bool()}
				c2 := &call{kind: mc.Pick(c, kinds[:3]), by: c.Choose(2), answered: c.Bool()}
				c3 := &call{kind: mc.Pick(c, kinds), by: c.Choose(2)}
				late := c.Bool()
				vsched.Run(c, vsched.Options{Preemptions: p1 - 1, Fine: true}, func() {
					w := newWorld(late)
					w.make(c1)
					w.make(c2)
					vsched.Quiesce()
					for n, cl := range w.calls {
						if cl.served != 1 || len(cl.vals) == 0 && (cl.answered || cl.kind != wire.RequestResponse) || cl.terms == 1 != cl.answered {
							vsched.Fail("call %d was served %d times and got %q and then %q", n, cl.served, cl.vals, cl.term)
						}
					}
					w.finish(how)
					vsched.Quiesce()
					w.judge()
					w.make(c3)
					vsched.Quiesce()
					w.judge()
					if c3.term == "complete" || c3.served > 0 {
						vsched.Fail("a request after the end was answered")
					}
					c.State(c1.term, c2.term, c3.term, how)
				})
			}},
			{Name: "an end of much that is pending", Body: func(c *mc.Ctx) {
				how := c.Choose(len(ends))
				n := mc.Pick(c, []int{3, 20, 70, mc.Bound(140, 300)})
				first, mixed := c.Choose(3), c.Bool()
				by := c.Choose(3)
				answered := c.Choose(3)
				late := c.Bool()
				vsched.Run(c, vsched.Options{Preemptions: 0, MaxSteps: 300000}, func() {
					w := newWorld(late)
					for i := 0; i < n; i++ {
						cl := &call{kind: kinds[first], by: by, answered: answered == 1 || answered == 2 && i%3 == 0}
						if mixed {
							cl.kind = kinds[(first+i)%3]
						}
						if by == 2 {
							cl.by = i / 2 % 2
						}
						w.make(cl)
					}
					vsched.Quiesce()
					for i, cl := range w.calls {
						if cl.served != 1 || len(cl.vals) == 0 && (cl.answered || cl.kind != wire.RequestResponse) || cl.terms == 1 != cl.answered {
							vsched.Fail("call %d was served %d times and got %q and then %q", i, cl.served, cl.vals, cl.term)
						}
					}
					w.finish(how)
					vsched.Quiesce()
					w.judge()
					c.State(n, how, first, by, answered)
				})
			}},
			{Name: "writes that fail", Body: func(c *mc.Ctx) {
				who := c.Choose(2)
				cl := &call{kind: mc.Pick(c, kinds), by: c.Choose(2), answered: c.Bool()}
				vsched.Run(c, vsched.Options{Preemptions: p1, Fine: true}, func() {
					w := newWorld(false)
					vsched.GoNamed("mute", func() { w.ends[who].c.Mute = true })
					w.make(cl)
					vsched.Quiesce()
					if cl.by == who && cl.served == 0 && cl.kind != wire.RequestFNF && cl.term != "error" {
						vsched.Fail("a request that could not be sent has the outcome %q", cl.term)
					}
					w.finish(0)
					vsched.Quiesce()
					w.judge()
					c.State(cl.term, len(cl.vals), cl.served)
				})
			}},
			{Name: "the first frame apart", Body: func(c *mc.Ctx) {
				n := c.Choose(4)
				how := c.Choose(4) // the peer leaves, the context has ended, a broken frame, half a frame
				cut := pick(c, 0, 1, 4)
				vsched.Run(c, vsched.Options{Preemptions: mc.Bound(2, 3), Fine: true}, func() {
					conn, far := nconn.Pipe("here", "there")
					conn.Cut = cut
					r := &recorder{}
					t := rsocket.NewTCPClientTransport(conn, r)
					ctx, cancel := context.WithCancel(context.Background())
					defer cancel()
					if how == 1 {
						cancel()
					}
					var first frames.Frame
					var err, end error
					done := false
					vsched.GoNamed("reader", func() {
						if first, err = t.ReadFirst(ctx); err == nil {
							end = t.Start(ctx)
						}
						done = true
					})
					var sent []wire.Frame
					for i := 0; i < n; i++ {
						f := wire.Frame{Kind: wire.Payload, ID: 1, Next: true, Data: wire.Bytes(3, byte(i))}
						sent = append(sent, f)
						e := wire.Encode(f)
						far.Write(append(wire.U24(len(e)), e...))
					}
					switch how {
					case 0:
						far.Close()
					case 2:
						conn.Inject([]byte{0, 0, 6, 0, 0, 0, 1, 0xfc, 0})
					case 3:
						conn.Inject([]byte{0, 0, 6, 0, 0, 0})
						far.Close()
					}
					vsched.Quiesce()
					if !done {
						vsched.Fail("the reader does not return (%s)", vsched.Blocked())
					}
					if conn.Closes != 1 {
						vsched.Fail("the connection was closed %d times", conn.Closes)
					}
					if how == 1 || n == 0 {
						if err == nil || first != nil || how == 1 && !errors.Is(err, context.Canceled) || how == 0 && !errors.Is(err, io.EOF) {
							vsched.Fail("ReadFirst gives %v, %v", first, err)
						}
					} else {
						if err != nil || !wire.Same(wire.FromImpl(first), sent[0]) {
							vsched.Fail("ReadFirst gives %v, %v instead of %v", first, err, sent[0])
						}
						if (how == 0) != (end == nil) {
							vsched.Fail("Start returned %v", end)
						}
						if len(r.got) != n-1 {
							vsched.Fail("%d of %d further frames were handled", len(r.got), n-1)
						}
						for i, f := range r.got {
							if !wire.Same(f, sent[i+1]) {
								vsched.Fail("frame %d handled is %v instead of %v", i+1, f, sent[i+1])
							}
						}
					}
					if b := vsched.Blocked(); len(b) > 0 {
						vsched.Fail("goroutines are left: %v", b)
					}
					c.State(n, how, fmt.Sprint(err, end))
				})
			}},
			{Name: "frames in order", Body: func(c *mc.Ctx) {
				n := c.Choose(6)
				fail := c.Choose(n + 1)
				how := c.Choose(6)
				if how == 5 && fail == 0 { // only the handler ends it
					c.Skip()
				}
				cut := pick(c, 0, 1, 4)
				stall := c.Bool()
				pre := mc.Bound(1, 2)
				if n <= 2 && cut != 1 {
					pre++
				}
				vsched.Run(c, vsched.Options{Preemptions: pre, Fine: true}, func() {
					conn, far := nconn.Pipe("here", "there")
					conn.Cut = cut
					r := &recorder{failAt: fail, stall: stall}
					t := rsocket.NewTCPClientTransport(conn, r)
					ctx, cancel := context.WithCancel(context.Background())
					defer cancel()
					done := false
					var err error
					vsched.GoNamed("Start", func() { err = t.Start(ctx); done = true })
					var sent []wire.Frame
					for i := 0; i < n; i++ {
						f := wire.Frame{Kind: wire.Payload, ID: 1, Next: true, Data: wire.Bytes(3, byte(i))}
						sent = append(sent, f)
						e := wire.Encode(f)
						far.Write(append(wire.U24(len(e)), e...))
					}
					switch how {
					case 0:
						far.Close()
					case 1:
						cancel()
					case 2:
						t.Close()
					case 3:
						conn.Inject([]byte{0, 0, 6, 0, 0, 0, 1, 0xfc, 0})
					case 4:
						conn.Inject([]byte{0, 0, 6, 0, 0, 0})
						far.Close()
					}
					if stall {
						vsched.Quiesce()
						r.stall = false
					}
					vsched.Quiesce()
					if !done {
						vsched.Fail("Start does not return (%s)", vsched.Blocked())
					}
					if len(r.got) > n {
						vsched.Fail("%d frames handled, %d sent", len(r.got), n)
					}
					for i, f := range r.got {
						if !wire.Same(f, sent[i]) {
							vsched.Fail("frame %d handled is %v instead of %v", i, f, sent[i])
						}
					}
					failed := fail > 0 && len(r.got) >= fail
					if !failed && (how == 0 || how == 3 || how == 4) && len(r.got) != n {
						vsched.Fail("%d of %d frames were handled before Start returned", len(r.got), n)
					}
					if !failed && (how == 0) != (err == nil) && how != 2 && how != 1 {
						vsched.Fail("Start returned %v", err)
					}
					if how == 1 && err != context.Canceled && !failed {
						vsched.Fail("Start returned %v although its context ended", err)
					}
					if err != nil && err != context.Canceled && failed && (how < 2 || how == 5) && !errors.Is(err, errHandler) {
						vsched.Fail("Start returned %v although a frame failed", err)
					}
					if how == 5 && (!failed || err == nil) {
						vsched.Fail("Start returned %v when the handler failed", err)
					}
					if conn.Closes != 1 {
						vsched.Fail("the connection was closed %d times", conn.Closes)
					}
					if b := vsched.Blocked(); len(b) > 0 {
						vsched.Fail("goroutines are left: %v", b)
					}
					c.State(len(r.got), fmt.Sprint(err), how)
				})
			}},
		},
		Assumptions: []string{"frames read before the end of the connection are handed over, those still unread when it is closed here need not be"},
	})
}
