// C30: handlers run in the context of the request that they serve.
package main

import (
	"context"
	"encoding/binary"
	"fmt"

	"github.com/tetratelabs/wazero"
	"github.com/tetratelabs/wazero/api"

	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transport/wasmrs/host"
	"github.com/nanobus/iota/go/zzverif/mc"
	"github.com/nanobus/iota/go/zzverif/vsched"
	"github.com/nanobus/iota/go/zzverif/wire"
	"github.com/nanobus/iota/go/zzverif/wmod"
)

type key struct{}

const (
	sendPtr = 0x1000
	recvPtr = 0x10000
	operPtr = 0x20000
	size    = 16384
)

var kinds = []wire.Kind{wire.RequestResponse, wire.RequestFNF, wire.RequestStream, wire.RequestChannel}

// parent is a request of the host.
type parent struct {
	kind    wire.Kind
	id      uint32
	ctx     context.Context
	cancel  func()
	pending bool // as the host sees it once it has taken all frames
	done    bool // no more values come
	sub     interface{ Cancel() }
}

// child is a request the module makes.
type child struct {
	name string
	want string // the value its context holds
	of   *parent
	ran  int
	ctx  context.Context
}

// rig is a host instance with a scripted module.
type rig struct {
	*wmod.Mod
	i          *host.Instance
	send, recv *wmod.Region
	out        [][]wire.Frame // batches to send when the module is told to
	seen       []wire.Frame
	next       uint32
	children   map[string]*child
	parents    []*parent
}

func newRig() *rig {
	g := &rig{send: &wmod.Region{Ptr: sendPtr, Size: size}, recv: &wmod.Region{Ptr: recvPtr, Size: size}, next: 1, children: map[string]*child{}}
	ops := &wmod.Region{Ptr: operPtr, Size: 64}
	wazero.ZZInstantiate = func(_ context.Context, _ []byte, h map[string]wazero.ZZHostFunc) (api.Module, error) {
		g.Mod = &wmod.Mod{Host: h, Regions: []*wmod.Region{g.send, g.recv, ops}, Exports: map[string]wmod.Func{
			"__wasmrs_init":            func(c context.Context, a ...uint64) error { g.Call(c, "__init_buffers", sendPtr, recvPtr); return nil },
			"__wasmrs_op_list_request": func(c context.Context, a ...uint64) error { return nil },
			"__wasmrs_send":            g.take,
		}}
		return g.Mod, nil
	}
	bg := context.Background()
	h, err := host.New(bg)
	if err != nil {
		vsched.Fail("host.New: %v", err)
	}
	m, err := h.Compile(bg, nil)
	if err != nil {
		vsched.Fail("Compile: %v", err)
	}
	if g.i, err = m.Instantiate(bg); err != nil {
		vsched.Fail("Instantiate: %v", err)
	}
	ran := func(ctx context.Context, p payload.Payload) {
		c := g.children[string(p.Data())]
		if c == nil {
			vsched.Fail("a handler got %q", p.Data())
		}
		c.ran++
		c.ctx = ctx
		vsched.Logf("%s runs for %v", c.name, ctx.Value(key{}))
	}
	none := func(ctx context.Context, p payload.Payload) flux.Flux[payload.Payload] {
		ran(ctx, p)
		return flux.Create(func(s flux.Sink[payload.Payload]) {})
	}
	g.i.SetRequestResponseHandler(7, func(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
		ran(ctx, p)
		return mono.Just[payload.Payload](payload.New(nil))
	})
	g.i.SetFireAndForgetHandler(7, func(ctx context.Context, p payload.Payload) { ran(ctx, p) })
	g.i.SetRequestStreamHandler(7, none)
	g.i.SetRequestChannelHandler(7, func(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
		return none(ctx, p)
	})
	return g
}

// take is the module's turn.
func (g *rig) take(c context.Context, a ...uint64) error {
	b := append([]byte(nil), g.send.Bytes()[:a[0]]...)
	g.send.Move(len(b))
	kick := false
	for len(b) > 0 {
		n := int(b[0])<<16 | int(b[1])<<8 | int(b[2])
		f, ok := wire.Decode(b[3 : 3+n])
		if !ok {
			vsched.Fail("the module got bytes that are no frame")
		}
		b = b[3+n:]
		if f.Kind == wire.RequestFNF && string(f.Data) == "kick" {
			kick = true
			continue
		}
		vsched.Logf("the module gets %v", f)
		if f.Kind != wire.RequestFNF || string(f.Data) != "between" {
			g.seen = append(g.seen, f)
		}
	}
	if kick {
		out := g.out
		g.out = nil
		for _, batch := range out {
			var b []byte
			for _, f := range batch {
				e := wire.Encode(f)
				b = append(append(b, wire.U24(len(e))...), e...)
			}
			copy(g.recv.Bytes(), b)
			g.Call(c, "__send", uint64(len(b)))
			g.recv.Move(len(b))
		}
	}
	return nil
}

func metadata(op, parent uint32) []byte {
	return binary.BigEndian.AppendUint32(binary.BigEndian.AppendUint32(nil, op), parent)
}

// request makes a request of the host and finds its id.
func (g *rig) request(kind wire.Kind, name string) *parent {
	p := &parent{kind: kind, pending: kind != wire.RequestFNF}
	p.ctx, p.cancel = context.WithCancel(context.WithValue(context.Background(), key{}, name))
	pl := payload.New([]byte(name), metadata(0, 0))
	switch kind {
	case wire.RequestResponse:
		g.i.RequestResponse(p.ctx, pl).Subscribe(mono.Subscribe[payload.Payload]{})
	case wire.RequestFNF:
		g.i.FireAndForget(p.ctx, pl)
	case wire.RequestStream:
		f := g.i.RequestStream(p.ctx, pl)
		f.Subscribe(flux.Subscribe[payload.Payload]{})
		p.sub = f.Subscription()
	case wire.RequestChannel:
		f := g.i.RequestChannel(p.ctx, pl, flux.FromSlice([]payload.Payload{}))
		f.Subscribe(flux.Subscribe[payload.Payload]{})
		p.sub = f.Subscription()
	}
	vsched.Wait("the module gets the request "+name, func() bool {
		for _, f := range g.seen {
			if f.Kind == kind && string(f.Data) == name {
				p.id = f.ID
			}
		}
		return p.id != 0
	})
	g.parents = append(g.parents, p)
	return p
}

// kick has the module send what it has.
func (g *rig) kick() {
	g.i.FireAndForget(context.Background(), payload.New([]byte("kick"), metadata(0, 0)))
}

// child is a request the module makes for the parent with this id.
func (g *rig) child(kind wire.Kind, id uint32) wire.Frame {
	c := &child{name: fmt.Sprintf("child%d", g.next)}
	for _, p := range g.parents {
		if p.id == id && p.pending {
			c.of, c.want = p, p.ctx.Value(key{}).(string)
		}
	}
	g.children[c.name] = c
	f := wire.Frame{Kind: kind, ID: g.next, N: 1, Metadata: metadata(7, id), Data: []byte(c.name)}
	g.next += 2
	return f
}

func (g *rig) check() {
	value := func(ctx context.Context) string {
		s, _ := ctx.Value(key{}).(string)
		return s
	}
	for _, c := range g.children {
		if c.ran != 1 {
			vsched.Fail("the handler of %s ran %d times", c.name, c.ran)
		}
		if v := value(c.ctx); v != c.want {
			vsched.Fail("the handler of %s ran in the context of %q instead of %q", c.name, v, c.want)
		}
		if c.ctx.Err() != nil {
			vsched.Fail("the context of %s is cancelled", c.name)
		}
	}
	for _, p := range g.parents {
		p.cancel()
		for _, c := range g.children {
			if c.of == p && c.ctx.Err() == nil {
				vsched.Fail("the context of %s is not cancelled with that of its parent", c.name)
			}
			if c.of != p && c.of != nil && c.of.ctx.Err() == nil && c.ctx.Err() != nil {
				vsched.Fail("the context of %s is cancelled with that of another request", c.name)
			}
		}
	}
}

// sequences has the module and the host do anything in any order.
func sequences(c *mc.Ctx, depth int) {
	first, second := mc.Pick(c, kinds), mc.Pick(c, kinds)
	n := 1 + c.Choose(depth)
	type step struct {
		what, kind, of int
		together       bool
	}
	steps := make([]step, n)
	for i := range steps {
		s := &steps[i]
		s.what = c.Choose(4)
		if s.what == 0 {
			s.kind, s.of = c.Choose(4), c.Choose(4)
		} else {
			s.of = c.Choose(2)
			if k := []wire.Kind{first, second}[s.of]; k == wire.RequestFNF || k == wire.RequestResponse && s.what == 3 {
				c.Skip()
			}
		}
		if i > 0 && s.what != 3 && steps[i-1].what != 3 {
			s.together = c.Bool()
		}
	}
	vsched.Run(c, vsched.Options{}, func() {
		g := newRig()
		vsched.Logf("steps %v", steps)
		ps := []*parent{g.request(first, "one"), g.request(second, "two")}
		for i, s := range steps {
			if !s.together && len(g.out) > 0 {
				g.kick()
				vsched.Quiesce()
			}
			var f wire.Frame
			switch s.what {
			case 0:
				f = g.child(kinds[s.kind], []uint32{ps[0].id, ps[1].id, 0, 998}[s.of])
			case 1:
				f = wire.Frame{Kind: wire.Payload, ID: ps[s.of].id, Complete: true, Next: ps[s.of].kind == wire.RequestResponse}
				ps[s.of].done = true
				if ps[s.of].kind != wire.RequestChannel { // whose input is still open
					ps[s.of].pending = false
				}
			case 2:
				f = wire.Frame{Kind: wire.Error, ID: ps[s.of].id, Data: []byte("failed")}
				ps[s.of].pending = false
			case 3:
				ps[s.of].sub.Cancel()
				if !ps[s.of].done { // nothing is left to cancel
					ps[s.of].pending = false
				}
				vsched.Quiesce()
				continue
			}
			if i > 0 && s.together && c.Choose(2) == 0 {
				last := len(g.out) - 1
				g.out[last] = append(g.out[last], f)
			} else {
				g.out = append(g.out, []wire.Frame{f})
			}
		}
		g.kick()
		vsched.Quiesce()
		g.check()
		c.State(steps)
	})
}

// schedules has children arrive while other requests are made and end.
func schedules(c *mc.Ctx, pre int) {
	first, second := mc.Pick(c, kinds), mc.Pick(c, kinds)
	k1, k2 := mc.Pick(c, kinds), mc.Pick(c, kinds)
	end := c.Bool()
	vsched.Run(c, vsched.Options{Preemptions: pre, Fine: true}, func() {
		g := newRig()
		p := g.request(first, "one")
		batch := []wire.Frame{g.child(k1, p.id)}
		if end && first != wire.RequestFNF {
			batch = append(batch, wire.Frame{Kind: wire.Payload, ID: p.id, Complete: true, Next: first == wire.RequestResponse})
			p.pending = first == wire.RequestChannel // whose input is still open
		}
		batch = append(batch, g.child(k2, p.id))
		g.out = append(g.out, batch)
		vsched.GoNamed("kick", g.kick)
		q := g.request(second, "two")
		g.out = append(g.out, []wire.Frame{g.child(k1, q.id)})
		g.kick()
		vsched.Quiesce()
		g.check()
	})
}

// far has two requests pending whose ids differ by what n others took.
func far(c *mc.Ctx) {
	n := mc.Pick(c, []int{7, 126, 127, 128, 1000, 1<<15 - 1, 1 << 15})
	first, second := mc.Pick(c, kinds[:1]), mc.Pick(c, kinds)
	if n < 1000 {
		first = mc.Pick(c, kinds)
	}
	vsched.Run(c, vsched.Options{MaxSteps: 2000000}, func() {
		g := newRig()
		p := g.request(first, "one")
		for i := 0; i < n; i++ {
			g.i.FireAndForget(context.Background(), payload.New([]byte("between"), metadata(0, 0)))
		}
		q := g.request(second, "two")
		if q.id != p.id+uint32(2*n)+2 { // C05 claims otherwise
			vsched.Logf("ids %d and %d after %d requests", p.id, q.id, n)
		}
		for _, id := range []uint32{p.id, q.id} {
			for _, k := range kinds {
				g.out = append(g.out, []wire.Frame{g.child(k, id)})
			}
		}
		g.kick()
		vsched.Quiesce()
		g.check()
		c.State(p.id, q.id)
	})
}

func main() {
	d, p := mc.Bound(3, 4), mc.Bound(1, 2)
	mc.Main(mc.Config{
		ID:     "C30",
		Rule:   "all sequences of requests a module makes for two requests of the host, answers and cancelling, batched in every way; all schedules of such requests with other requests; all kinds of requests that the real guest and both ends of a connection serve, and what their handlers are given",
		Bounds: fmt.Sprintf("sequences of up to %d steps; <=%d preemptions; two requests with up to 32768 between them without", d, p),
		Scenarios: []mc.Scenario{
			{Name: "sequences", Body: func(c *mc.Ctx) { sequences(c, d) }},
			{Name: "schedules", Body: func(c *mc.Ctx) { schedules(c, p) }},
			{Name: "many requests between", Body: func(c *mc.Ctx) { far(c) }},
			{Name: "guest", Body: func(c *mc.Ctx) { guest(c, p) }},
			{Name: "connection", Body: func(c *mc.Ctx) { connection(c, p) }},
			{Name: "mesh", Body: func(c *mc.Ctx) { chain(c) }},
		},
		Assumptions: []string{"a request without a parent that is pending may run in any context that belongs to no request", "the WebAssembly engine is replaced"},
	})
}
