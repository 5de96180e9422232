// C33: what is over leaves nothing behind.
package main

import (
	"context"
	"fmt"
	"net"
	"reflect"
	"runtime"
	"time"
	"unsafe"
	"weak"

	"github.com/nanobus/iota/go/handler"
	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/transport/rsocket"
	"github.com/nanobus/iota/go/zzverif/hpair"
	"github.com/nanobus/iota/go/zzverif/mc"
	"github.com/nanobus/iota/go/zzverif/nconn"
	"github.com/nanobus/iota/go/zzverif/neutral"
	"github.com/nanobus/iota/go/zzverif/peer"
	. "github.com/nanobus/iota/go/zzverif/proto"
	"github.com/nanobus/iota/go/zzverif/vsched"
	"github.com/nanobus/iota/go/zzverif/wire"
	"github.com/nanobus/iota/go/zzverif/wpair"
)

func pick(c *mc.Ctx, xs ...int) int { return mc.Pick(c, xs) }

var ends = []string{"complete", "error", "never"}

// object is something of a round, which does not keep it.
type object struct {
	what string
	p    weak.Pointer[byte]
}

type tracker struct{ rounds [][]object }

func (t *tracker) add(what string, v any) {
	var p unsafe.Pointer
	switch r := reflect.ValueOf(v); r.Kind() {
	case reflect.Slice:
		if r.Len() < 16 { // shares its memory with others
			return
		}
		p = r.UnsafePointer()
	case reflect.Pointer:
		if r.Elem().Type().Size() == 0 {
			return
		}
		p = r.UnsafePointer()
	case reflect.Func:
		p = (*[2]unsafe.Pointer)(unsafe.Pointer(&v))[1]
	case reflect.Struct:
		return
	default:
		return
	}
	if p == nil {
		return
	}
	t.rounds[len(t.rounds)-1] = append(t.rounds[len(t.rounds)-1], object{what, weak.Make((*byte)(p))})
}

func (t *tracker) next() { t.rounds = append(t.rounds, nil) }

// check fails if an object of any round but the last two, which are simple
// requests of either side, is still there.
func (t *tracker) check() { t.checkBut(0) }

// checkBut lets as many objects be there all the same.
func (t *tracker) checkBut(kept int) {
	neutral.Track = nil
	vsched.Forget()
	found := ""
	last := map[weak.Pointer[byte]]bool{}
	n := len(t.rounds) - 2
	for _, r := range t.rounds[n:] {
		for _, o := range r {
			last[o.p] = true
		}
	}
	// Goroutines that have just ended can still be on their way out.
	for i := 0; i < 50; i++ {
		if i > 0 {
			time.Sleep(time.Millisecond)
		}
		runtime.GC()
		if found = t.left(last, kept); found == "" {
			return
		}
	}
	vsched.Fail("%s after %d rounds and two simple requests", found, n)
}

func (t *tracker) left(last map[weak.Pointer[byte]]bool, kept int) string {
	for i, r := range t.rounds[:len(t.rounds)-2] {
		for _, o := range r {
			if o.p.Value() == nil || last[o.p] {
				continue
			}
			if kept--; kept < 0 {
				return fmt.Sprintf("a %s of round %d is still there", o.what, i)
			}
		}
	}
	return ""
}

func (t *tracker) call(c *Call) {
	t.add("call", c)
	if c.Out != nil {
		t.add("subscriber or handler of a call", c.Out)
	}
	if c.In != nil {
		t.add("source or handler of a call", c.In)
	}
}

// pairs does the rounds on two handlers.
func pairs(c *mc.Ctx, pre int, fine bool, side int, mk func() *Call) {
	vsched.Run(c, vsched.Options{Preemptions: pre, Fine: fine}, func() {
		t := &tracker{}
		neutral.Track = t.add
		defer func() { neutral.Track = nil }()
		ctx, cancel := context.WithCancel(context.Background())
		m := NewMonitor()
		var ends [2]*hpair.End
		var links [2]*Link
		for i, mode := range []handler.Mode{handler.ClientMode, handler.ServerMode} {
			ends[i] = hpair.NewEndIn(ctx, mode, func(b []byte) { links[i].Send(b) })
		}
		for i := range links {
			links[i] = NewLink(m, i, func(b []byte) { ends[1-i].Deliver(append([]byte(nil), b...)) })
		}
		over := true
		for i := 0; i < rounds && over; i++ {
			t.next()
			over = round(t, hpair.Use, vsched.GoNamed, mk, func(s *Session, k *Call) {
				k.By = ends[1-side]
				k.Make(s, ends[side])
			})
		}
		if over {
			for side := range ends { // Whoever keeps the last request now keeps another.
				t.next()
				round(t, hpair.Use, vsched.GoNamed, simple, func(s *Session, k *Call) { k.Make(s, ends[side]) })
			}
			hpair.Use(nil)
			t.check()
			again(hpair.Use, m.Used(side), func(b []byte) { links[side].Send(b) })
		}
		runtime.KeepAlive(ends)
		runtime.KeepAlive(links)
		runtime.KeepAlive(m)
		cancel()
		c.State(m.Log)
	})
}

const rounds = 2

func simple() *Call { return &Call{Kind: RR, Answer: AJust, Mode: MSub} }

//go:noinline
func round(t *tracker, use func(*Session), run func(string, func()), mk func() *Call, do func(*Session, *Call)) bool {
	s := &Session{Run: run}
	t.add("session", s)
	use(s)
	k := mk()
	s.Add(k)
	for _, k := range s.Calls {
		t.call(k)
	}
	do(s, k)
	vsched.Quiesce()
	over := true
	for _, k := range s.Calls {
		k.Check()
		over = over && k.Over()
	}
	return over
}

// again uses the stream IDs once more.
func again(use func(*Session), ids []uint32, send func([]byte)) {
	s := &Session{Run: vsched.GoNamed}
	use(s)
	for _, id := range ids {
		k := &Call{Kind: RS, Out: &Flow{End: "error", Src: SFail, Sub: UNone}}
		s.Add(k)
		send(wire.Encode(k.Frame(id)))
		vsched.Quiesce()
		if k.Handled() != 1 {
			vsched.Fail("a new request on stream %d reaches its handler %d times", id, k.Handled())
		}
	}
}

// guests does the rounds on a host and its guest.
func guests(c *mc.Ctx, pre int, fine bool, side int, mk func() *Call) {
	vsched.Run(c, vsched.Options{Preemptions: pre, Fine: fine}, func() {
		t := &tracker{}
		var cur *Session
		hs := func() *neutral.Handlers { return cur.Handlers() }
		p := wpair.NewWith(hs, hs)
		neutral.Track = t.add
		defer func() { neutral.Track = nil }()
		use := func(s *Session) {
			cur = s
			s.Blocks = func() bool { return !p.InGuest() }
		}
		do := func(s *Session, k *Call, side int) {
			k.By = p.Caller(1 - side)
			if side == 1 {
				k.Make(s, p.Caller(1))
				return
			}
			p.Kick = func() { k.Make(s, p.Caller(0)) }
			p.Caller(1).FireAndForget(neutral.Payload{Meta: "\x00\x00\x00\x01\x00\x00\x00\x00"})
		}
		over := true
		for i := 0; i < rounds && over; i++ {
			t.next()
			over = round(t, use, p.Run, mk, func(s *Session, k *Call) { do(s, k, side) })
		}
		if over {
			for side := 0; side < 2; side++ {
				t.next()
				round(t, use, p.Run, simple, func(s *Session, k *Call) { do(s, k, side) })
			}
			p.Kick, cur = nil, nil
			t.check()
			again(use, p.M.Used(side), func(b []byte) { p.Sends(side, b) })
		}
		runtime.KeepAlive(p)
		c.State(p.M.Log)
	})
}

// able skips what a guest cannot do.
func able(c *mc.Ctx, guest, blocks bool) {
	if guest && blocks {
		c.Skip()
	}
}

// server is one that stays while clients come and go.
type server struct {
	l      *nconn.Listener
	s      rsocket.ServerTransport
	t      *tracker
	caller neutral.Caller
}

// visit is a connection on which k is made, by the client or the server, and
// which then ends.
//
//go:noinline
func (v *server) visit(k *Call, by, how int) {
	v.t.next()
	s := &Session{Run: vsched.GoNamed}
	v.t.add("session", s)
	hpair.Use(s)
	s.Add(k)
	v.t.call(k)
	conn, err := v.l.Dial("client")
	if err != nil {
		vsched.Fail("Dial: %v", err)
	}
	h := handler.New(context.Background(), handler.ClientMode)
	t := rsocket.NewTCPClientTransport(conn, h)
	h.SetFrameSender(func(f frames.Frame) error { return t.Send(f, true) })
	v.t.add("client", h)
	v.t.add("transport", t)
	v.t.add("connection", conn)
	v.t.add("connection of the server", conn.Peer)
	done := false
	vsched.GoNamed("client", func() {
		t.Start(context.Background())
		done = true
	})
	vsched.WaitAfter("the server's side", func() bool { return v.caller != nil })
	if by == 0 {
		k.Make(s, peer.Caller{C: h})
	} else {
		k.Make(s, v.caller)
	}
	vsched.Quiesce()
	switch how {
	case 0:
		t.Close()
	case 1:
		conn.Broken, conn.Peer.Broken = true, true
	case 2:
		conn.Peer.Inject([]byte{0, 0, 6, 0, 0, 0, 1, 0xfc, 0})
	case 3:
		conn.Inject([]byte{0, 0, 0})
	}
	vsched.Quiesce()
	if !done || !conn.Closed() || !conn.Peer.Closed() {
		vsched.Fail("the connection does not end")
	}
	v.l.All, v.caller = nil, nil
	hpair.Use(nil)
}

func servers(c *mc.Ctx, pre int, by, how int, mk func() *Call) {
	vsched.Run(c, vsched.Options{Preemptions: pre, Fine: true}, func() {
		t := &tracker{}
		neutral.Track = t.add
		defer func() { neutral.Track = nil }()
		v := &server{l: &nconn.Listener{}, t: t}
		v.s = rsocket.NewTCPServerTransport(func(context.Context) (net.Listener, error) { return v.l, nil },
			func(ctx context.Context) (rsocket.DuplexHandler, error) {
				h := handler.New(ctx, handler.ServerMode)
				t.add("handler", h)
				return h, nil
			})
		v.s.Accept(func(ctx context.Context, c invoke.Caller, _ func(*rsocket.Transport)) {
			t.add("context of the acceptor", ctx)
			v.caller = peer.Caller{C: c}
		})
		ctx, cancel := context.WithCancel(context.Background())
		note := make(chan bool, 4)
		vsched.GoNamed("Listen", func() { v.s.Listen(ctx, note) })
		vsched.Quiesce()
		for i := 0; i < rounds; i++ {
			v.visit(mk(), by, how)
		}
		v.visit(simple(), 0, 0)
		v.visit(simple(), 1, 0)
		t.check()
		runtime.KeepAlive(v)
		cancel()
		vsched.Quiesce()
		c.State(by, how)
	})
}

type runner func(c *mc.Ctx, pre int, fine bool, side int, mk func() *Call)

// where picks what runs the rounds and who makes the calls.
func where(c *mc.Ctx) (r runner, side int, guest bool) {
	side = c.Choose(2)
	if c.Bool() {
		return guests, side, side == 0
	}
	return pairs, side, false
}

func main() {
	p1 := mc.Bound(1, 2)
	mc.Main(mc.Config{
		ID:     "C33",
		Rule:   "all ways to answer, to wait for, to end and to cancel requests of every kind, made by either side of a connection or of a host and its guest, and all ways to end connections to a server; each is done twice, simple requests follow, and whatever the first ones brought about must be garbage; all interleavings",
		Bounds: fmt.Sprintf("the programs of C09-C12 with <=2 values, <=%d preemptions, channels and streams of more values without; 6 requests pending at 4 ends of a connection", p1),
		Scenarios: []mc.Scenario{
			{Name: "responses", Body: func(c *mc.Ctx) {
				run, side, guest := where(c)
				op, answer, mode := c.Choose(3), pick(c, AJust, AFail, ASync, ASyncFail, AThread, AThreadFail), c.Choose(4)
				able(c, guest, mode == MBlock)
				run(c, p1, true, side, func() *Call { return &Call{Kind: RR, Op: op, Answer: answer, Mode: mode} })
			}},
			{Name: "fire and forget", Body: func(c *mc.Ctx) {
				run, side, _ := where(c)
				op := c.Choose(3)
				run(c, p1, true, side, func() *Call { return &Call{Kind: FNF, Op: op} })
			}},
			{Name: "streams", Body: func(c *mc.Ctx) {
				run, side, guest := where(c)
				op := c.Choose(3)
				f := Flow{N: c.Choose(4), End: mc.Pick(c, ends), Src: c.Choose(SFail + 1), Sub: c.Choose(UNone + 1), Cancel: c.Choose(4)}
				f.Legal(c)
				able(c, guest, f.Sub == UBlock)
				run(c, 0, false, side, func() *Call { f := f; return &Call{Kind: RS, Op: op, Out: &f} })
			}},
			{Name: "stream schedules", Body: func(c *mc.Ctx) {
				run, side, _ := where(c)
				f := Flow{N: 1, End: mc.Pick(c, ends), Src: pick(c, SSync, SThread), Sub: pick(c, UAuto, UOne), Cancel: pick(c, CNever, CNext, CLater)}
				f.Legal(c)
				run(c, p1, true, side, func() *Call { f := f; return &Call{Kind: RS, Out: &f} })
			}},
			{Name: "channels", Body: func(c *mc.Ctx) {
				run, side, guest := where(c)
				op := c.Choose(3)
				f := Flow{N: mc.Bound(1, 2), End: mc.Pick(c, ends), Src: pick(c, SSync, SThread), Sub: pick(c, UAuto, UOne, UBlock, UAsync), Cancel: pick(c, CNever, CNext, CLater)}
				g := Flow{N: mc.Bound(1, 2), End: mc.Pick(c, ends), Src: pick(c, SSync, SThread), Sub: pick(c, UAuto, UOne, UNone), Cancel: pick(c, CNever, CNext, CLater)}
				f.Legal(c)
				g.Legal(c)
				able(c, guest, f.Sub == UBlock)
				run(c, 0, false, side, func() *Call { f, g := f, g; return &Call{Kind: RC, Op: op, Out: &f, In: &g} })
			}},
			{Name: "echo", Body: func(c *mc.Ctx) {
				run, side, guest := where(c)
				f := Flow{Src: SEcho, Sub: pick(c, UAuto, UOne, UHand, UBlock, UAsync, UPairs), Cancel: c.Choose(4)}
				g := Flow{N: c.Choose(4), End: mc.Pick(c, ends), Src: c.Choose(SFail + 1)}
				f.Legal(c)
				g.Legal(c)
				able(c, guest, f.Sub == UBlock)
				run(c, 0, false, side, func() *Call { f, g := f, g; return &Call{Kind: RC, Out: &f, In: &g} })
			}},
			{Name: "channel schedules", Body: func(c *mc.Ctx) {
				run, side, _ := where(c)
				f := Flow{N: mc.Bound(0, 1), End: mc.Pick(c, ends), Src: SSync, Sub: UAuto, Cancel: pick(c, CNever, CLater)}
				g := Flow{N: mc.Bound(0, 1), End: mc.Pick(c, ends), Src: SSync, Sub: UAuto, Cancel: pick(c, CNever, CLater)}
				run(c, p1, true, side, func() *Call { f, g := f, g; return &Call{Kind: RC, Out: &f, In: &g} })
			}},
			{Name: "modules", Body: modules},
			{Name: "connections", Body: func(c *mc.Ctx) {
				by, how, kind := c.Choose(2), c.Choose(4), c.Choose(6)
				pre := p1
				if kind%2 == 0 {
					pre--
				}
				servers(c, pre, by, how, func() *Call {
					switch kind {
					case 0:
						return simple()
					case 1:
						return &Call{Kind: RR, Answer: ANever}
					case 2:
						return &Call{Kind: FNF}
					case 3, 4:
						return &Call{Kind: RS, Out: &Flow{N: 1, End: "never", Src: kind - 3}}
					}
					return &Call{Kind: RC, Out: &Flow{N: 1, End: "never", Src: SSync}, In: &Flow{N: 1, End: "never", Src: SSync}}
				})
			}},
		},
		Assumptions: []string{"what the garbage collector can reclaim is not kept", "programs let go of their own references", "a request that has not ended in both directions may be kept"},
	})
}
