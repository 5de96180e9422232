// C28: a server serves every connection until it is closed.
package main

import (
	"context"
	"errors"
	"fmt"
	"net"

	"github.com/nanobus/iota/go/handler"
	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/transport/rsocket"
	"github.com/nanobus/iota/go/zzverif/mc"
	"github.com/nanobus/iota/go/zzverif/nconn"
	"github.com/nanobus/iota/go/zzverif/neutral"
	"github.com/nanobus/iota/go/zzverif/peer"
	"github.com/nanobus/iota/go/zzverif/vsched"
)

var cur *world

func init() {
	peer.Export(func() *neutral.Handlers {
		return &neutral.Handlers{
			RR: func(p neutral.Payload) neutral.Answer {
				return neutral.Answer{Just: &neutral.Payload{Data: "re " + p.Data}}
			},
			FNF: func(p neutral.Payload) { cur.fnf[p.Data]++ },
		}
	})
}

const meta = "\x00\x00\x00\x00\x00\x00\x00\x00"

// client is one connection to the server.
type client struct {
	neutral.Caller
	name   string
	c      *nconn.Conn
	t      *rsocket.Transport
	done   bool
	err    error
	refuse error
}

type world struct {
	l        *nconn.Listener
	s        rsocket.ServerTransport
	cancel   context.CancelFunc
	ctx      context.Context
	notes    []bool
	listened bool
	err      error
	accepted []invoke.Caller
	fnf      map[string]int
	clients  []*client
	noted    bool
	accept   func(invoke.Caller)
}

var errListen = errors.New("address in use")

func newWorld(lerr error) *world {
	w := &world{l: &nconn.Listener{}, fnf: map[string]int{}}
	cur = w
	w.ctx, w.cancel = context.WithCancel(context.Background())
	w.s = rsocket.NewTCPServerTransport(func(context.Context) (net.Listener, error) {
		vsched.Point()
		if lerr != nil {
			return nil, lerr
		}
		return w.l, nil
	}, func(ctx context.Context) (rsocket.DuplexHandler, error) {
		return handler.New(ctx, handler.ServerMode), nil
	})
	w.s.Accept(func(ctx context.Context, c invoke.Caller, _ func(*rsocket.Transport)) {
		w.accepted = append(w.accepted, c)
		(peer.Caller{C: c}).FireAndForget(neutral.Payload{Meta: meta, Data: "welcome"})
		if w.accept != nil {
			w.accept(c)
		}
	})
	return w
}

func (w *world) listen() {
	note := make(chan bool, 4)
	vsched.GoNamed("Listen", func() {
		w.err = w.s.Listen(w.ctx, note)
		w.listened = true
		vsched.Logf("Listen returned %v", w.err)
	})
	vsched.GoNamed("notes", func() {
		w.notes = append(w.notes, vsched.Recv(note))
		w.noted = true
	})
}

func (w *world) dial(name string) *client {
	k := &client{name: name}
	w.clients = append(w.clients, k)
	k.c, k.refuse = w.l.Dial(name)
	if k.refuse != nil {
		k.done = true
		return k
	}
	h := handler.New(context.Background(), handler.ClientMode)
	k.t = rsocket.NewTCPClientTransport(k.c, h)
	h.SetFrameSender(func(f frames.Frame) error { return k.t.Send(f, true) })
	k.Caller = peer.Caller{C: h}
	vsched.GoNamed(name, func() {
		k.err = k.t.Start(context.Background())
		k.done = true
	})
	return k
}

type outcome struct {
	of        *client
	val, term string
	terms     int
}

func (k *client) ask() *outcome {
	o := &outcome{of: k}
	if k.refuse != nil {
		o.terms, o.term = 1, "error"
		return o
	}
	k.RequestResponse(neutral.Payload{Meta: meta, Data: k.name}).Subscribe(func(p neutral.Payload) {
		o.val, o.term = p.Data, "success"
		o.terms++
	}, func(string) { o.term = "error"; o.terms++ }, nil)
	return o
}

func (w *world) serves(k *client, o *outcome) {
	if o.terms != 1 || o.val != "re "+k.name {
		vsched.Fail("a request of %s has %d outcomes: %q %q", k.name, o.terms, o.term, o.val)
	}
}

// ended checks that nothing is left of the server.
func (w *world) ended(wantErr error) {
	if !w.listened {
		vsched.Fail("Listen does not return")
	}
	if !errors.Is(w.err, wantErr) || wantErr == nil && w.err != nil {
		vsched.Fail("Listen returned %v", w.err)
	}
	if !w.l.Closed() {
		vsched.Fail("the listener was not closed")
	}
	for _, c := range w.l.All {
		if !c.Closed() {
			vsched.Fail("a connection was not closed with the server")
		}
	}
	for _, k := range w.clients {
		if !k.done {
			vsched.Fail("the connection of %s does not end", k.name)
		}
	}
	if b := vsched.Blocked(); len(b) > 0 {
		vsched.Fail("goroutines are left: %v", b)
	}
	if !w.noted || len(w.notes) != 1 {
		vsched.Fail("%d notes", len(w.notes))
	}
}

var closings = []string{"Close", "Close twice", "context", "two closers"}

func (w *world) close(how int) {
	vsched.Logf("%s", closings[how])
	switch how {
	case 0:
		w.s.Close()
	case 1:
		w.s.Close()
		if err := w.s.Close(); err != nil {
			vsched.Fail("the second Close returned %v", err)
		}
	case 2:
		w.cancel()
	case 3:
		vsched.GoNamed("closer", func() { w.s.Close() })
		w.cancel()
	}
}

func run(c *mc.Ctx, pre int, f func() any) {
	vsched.Run(c, vsched.Options{Preemptions: pre, Fine: true}, func() {
		s := f()
		cur.cancel()
		c.State(s)
	})
}

func main() {
	p1, p2 := mc.Bound(1, 2), mc.Bound(2, 3)
	mc.Main(mc.Config{
		ID:     "C28",
		Rule:   "all sequences of connecting, requesting and disconnecting, with the server closed in every way at every point of every interleaving, and listeners that fail",
		Bounds: fmt.Sprintf("<=3 connections, and up to 130 without preemption, %d ways to close, <=%d preemptions at statement granularity", len(closings), p2),
		Scenarios: []mc.Scenario{
			{Name: "connections", Body: func(c *mc.Ctx) {
				n := 1 + c.Choose(3)
				gone := c.Choose(n + 1) // the client that goes away first
				how := c.Choose(5)
				closing := c.Choose(len(closings))
				pre := p1
				if n == 3 || !mc.Thorough() && (n == 2 && gone < n || closing > 0 && closing != how-1) {
					pre--
				}
				run(c, pre, func() any {
					w := newWorld(nil)
					w.listen()
					vsched.Quiesce()
					if !w.noted || !w.notes[0] {
						vsched.Fail("Listen does not tell that it listens")
					}
					var os []*outcome
					for i := 0; i < n; i++ {
						k := w.dial(fmt.Sprintf("client %d", i))
						os = append(os, k.ask())
					}
					vsched.Quiesce()
					for i, k := range w.clients {
						w.serves(k, os[i])
					}
					if w.fnf["welcome"] != n || len(w.accepted) != n {
						vsched.Fail("%d of %d connections reached the acceptor", w.fnf["welcome"], n)
					}
					if gone < n {
						k := w.clients[gone]
						switch how {
						case 0:
							k.t.Close()
						case 1:
							k.c.Broken, k.c.Peer.Broken = true, true
						case 2:
							k.c.Peer.Inject([]byte{0, 0, 6, 0, 0, 0, 1, 0xfc, 0})
						case 3:
							k.c.Peer.Inject([]byte{0, 0})
							k.c.Close()
						case 4:
							k.c.Peer.Inject([]byte{0, 0, 0})
						}
						vsched.Quiesce()
						if !k.done || !k.c.Peer.Closed() {
							vsched.Fail("the connection that failed was not closed")
						}
						w.dial("another")
						vsched.Quiesce()
						for i, k := range w.clients {
							if i != gone {
								o := k.ask()
								vsched.Quiesce()
								w.serves(k, o)
							}
						}
						for i, a := range w.accepted {
							w.fnf = map[string]int{}
							(peer.Caller{C: a}).FireAndForget(neutral.Payload{Meta: meta, Data: "news"})
							vsched.Quiesce()
							want := 1
							if w.l.All[i] == k.c.Peer {
								want = 0
							}
							if w.fnf["news"] != want && n == 1 {
								vsched.Fail("a message to connection %d arrived %d times", i, w.fnf["news"])
							}
						}
					}
					if w.listened {
						vsched.Fail("Listen returned %v", w.err)
					}
					var before []int
					for _, c := range w.l.All {
						before = append(before, c.Closes)
					}
					w.close(closing)
					vsched.Quiesce()
					w.ended(nil)
					for i, c := range w.l.All {
						if before[i] > 0 && c.Closes > before[i] {
							vsched.Fail("the server kept a connection that had ended")
						}
					}
					k := w.dial("late")
					if k.refuse == nil {
						vsched.Fail("the closed server accepts connections")
					}
					return fmt.Sprint(n, gone, how)
				})
			}},
			{Name: "closing at any time", Body: func(c *mc.Ctx) {
				n := c.Choose(3)
				how := c.Choose(len(closings))
				run(c, p2-(n+1)/2, func() any {
					w := newWorld(nil)
					w.listen()
					vsched.GoNamed("close", func() { w.close(how) })
					var os []*outcome
					for i := 0; i < n; i++ {
						k := w.dial(fmt.Sprintf("client %d", i))
						os = append(os, k.ask())
					}
					vsched.Quiesce()
					state := ""
					for i, o := range os {
						if o.terms != 1 || o.term == "success" && o.val != "re "+w.clients[i].name {
							vsched.Fail("a request while the server closes has %d outcomes: %q %q", o.terms, o.term, o.val)
						}
						state += o.term + " "
					}
					if !w.listened {
						vsched.Fail("Listen does not return")
					}
					if w.notes == nil || w.notes[0] && w.err != nil {
						vsched.Fail("Listen told %v and returned %v", w.notes, w.err)
					}
					// Without a listener there is nothing to close.
					w.ended(w.err)
					return state
				})
			}},
			{Name: "clients that come and go", Body: func(c *mc.Ctx) {
				n := 2 + c.Choose(2)
				early := c.Choose(n + 1) // who waits for no answer
				run(c, p2+1-n, func() any {
					w := newWorld(nil)
					w.listen()
					vsched.Quiesce()
					os := make([]*outcome, n)
					for i := 0; i < n; i++ {
						vsched.GoNamed("visit", func() {
							k := w.dial(fmt.Sprintf("client %d", i))
							os[i] = k.ask()
							if i != early {
								vsched.WaitAfter("an answer", func() bool { return os[i].terms > 0 })
							}
							k.t.Close()
						})
					}
					vsched.Quiesce()
					for i, o := range os {
						k := o.of
						if i != early || o.term == "success" {
							w.serves(k, o)
						}
						if !k.done || !k.c.Peer.Closed() {
							vsched.Fail("a connection that ended was not closed")
						}
					}
					k := w.dial("another")
					o := k.ask()
					vsched.Quiesce()
					w.serves(k, o)
					w.close(0)
					vsched.Quiesce()
					w.ended(nil)
					return fmt.Sprint(n, early)
				})
			}},
			{Name: "acceptors that wait", Body: func(c *mc.Ctx) {
				n := 1 + c.Choose(3)
				what := c.Choose(3)
				how := c.Choose(len(closings))
				run(c, p1-n/3, func() any {
					w := newWorld(nil)
					left := 0
					w.accept = func(c invoke.Caller) {
						switch what {
						case 0: // for the other connections
							vsched.Wait("the others", func() bool { return len(w.accepted) == n })
						case 1: // for an answer
							v, err, ok := peer.Caller{C: c}.RequestResponse(neutral.Payload{Meta: meta, Data: "you"}).(neutral.MonoBlocker).BlockMono()
							if err != "" || !ok || v.Data != "re you" {
								vsched.Fail("the acceptor's request has the outcome %v %q", v, err)
							}
						case 2: // for the end
							vsched.WaitAfter("the end", func() bool { return w.listened })
						}
						left++
					}
					w.listen()
					var os []*outcome
					for i := 0; i < n; i++ {
						vsched.Quiesce()
						k := w.dial(fmt.Sprintf("client %d", i))
						os = append(os, k.ask())
					}
					vsched.Quiesce()
					for i, k := range w.clients {
						w.serves(k, os[i])
					}
					if w.fnf["welcome"] != n || what < 2 && left != n {
						vsched.Fail("%d of %d connections reached the acceptor, and %d it left", w.fnf["welcome"], n, left)
					}
					w.close(how)
					vsched.Quiesce()
					w.ended(nil)
					if left != n {
						vsched.Fail("%d acceptors left", left)
					}
					return fmt.Sprint(n, what)
				})
			}},
			{Name: "many connections", Body: func(c *mc.Ctx) {
				n, stay := mc.Pick(c, []int{9, 20, 40, 130}), mc.Pick(c, []int{0, 1, 7, 200}) // how many at a time
				if n > 40 && stay > 7 {
					c.Skip()
				}
				how, again, last := c.Choose(3), c.Bool(), c.Bool()
				vsched.Run(c, vsched.Options{MaxSteps: 1000000}, func() {
					w := newWorld(nil)
					w.listen()
					vsched.Quiesce()
					for i := 0; i < n; i++ {
						k := w.dial(fmt.Sprintf("client %d", i))
						o := k.ask()
						if i < stay && stay > n { // all at once
							continue
						}
						vsched.Quiesce()
						w.serves(k, o)
						if i < stay {
							continue
						}
						j := i - stay
						if last {
							j = i
						}
						switch gone := w.clients[j]; how {
						case 0:
							gone.t.Close()
						case 1:
							gone.c.Broken, gone.c.Peer.Broken = true, true
						case 2:
							gone.c.Peer.Inject([]byte{0, 0, 0})
						}
						vsched.Quiesce()
						if !w.clients[j].done || !w.clients[j].c.Peer.Closed() {
							vsched.Fail("the connection of client %d was not closed", j)
						}
					}
					vsched.Quiesce()
					if w.fnf["welcome"] != n || len(w.accepted) != n {
						vsched.Fail("%d of %d connections reached the acceptor", w.fnf["welcome"], n)
					}
					live := 0
					for _, k := range w.clients {
						if k.done {
							continue
						}
						live++
						o := k.ask()
						vsched.Quiesce()
						w.serves(k, o)
					}
					if live != min(stay, n) {
						vsched.Fail("%d connections are left of %d", live, n)
					}
					if again {
						k := w.dial("another")
						o := k.ask()
						vsched.Quiesce()
						w.serves(k, o)
					}
					w.close(c.Choose(len(closings)))
					vsched.Quiesce()
					w.ended(nil)
					cur.cancel()
				})
			}},
			{Name: "closed before", Body: func(c *mc.Ctx) {
				twice := c.Bool()
				run(c, p2, func() any {
					w := newWorld(nil)
					if err := w.s.Close(); err != nil {
						vsched.Fail("Close before Listen returned %v", err)
					}
					w.listen()
					if twice {
						w.s.Close()
					}
					vsched.Quiesce()
					if w.err == nil || !w.noted || w.notes[0] {
						vsched.Fail("Listen after Close told %v and returned %v", w.notes, w.err)
					}
					w.ended(w.err)
					return nil
				})
			}},
			{Name: "listeners that fail", Body: func(c *mc.Ctx) {
				n := c.Choose(3)
				run(c, p1, func() any {
					if n == 0 {
						w := newWorld(errListen)
						w.listen()
						vsched.Quiesce()
						if !w.noted || w.notes[0] || !errors.Is(w.err, errListen) {
							vsched.Fail("Listen told %v and returned %v", w.notes, w.err)
						}
						if b := vsched.Blocked(); len(b) > 0 {
							vsched.Fail("goroutines are left: %v", b)
						}
						return nil
					}
					w := newWorld(nil)
					w.listen()
					for i := 1; i < n; i++ {
						w.dial("a client")
					}
					vsched.Quiesce()
					w.l.Err = errListen
					vsched.Quiesce()
					w.ended(errListen)
					return n
				})
			}},
		},
		Assumptions: []string{"the network is in memory; it delivers bytes in order and reports a closed peer"},
	})
}
