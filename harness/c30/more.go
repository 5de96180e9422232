package main

import (
	"context"
	"fmt"
	"os"
	"path/filepath"

	"github.com/tetratelabs/wazero"
	"github.com/tetratelabs/wazero/api"

	"github.com/nanobus/iota/go/handler"
	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/operations"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transport/wasmrs/host"
	"github.com/nanobus/iota/go/transport/wasmrs/mesh"
	zguest "github.com/nanobus/iota/go/zzguest/transport/wasmrs/guest"
	"github.com/nanobus/iota/go/zzverif/gpeer"
	"github.com/nanobus/iota/go/zzverif/mc"
	"github.com/nanobus/iota/go/zzverif/neutral"
	"github.com/nanobus/iota/go/zzverif/peer"
	"github.com/nanobus/iota/go/zzverif/vsched"
	"github.com/nanobus/iota/go/zzverif/wire"
	"github.com/nanobus/iota/go/zzverif/wmod"
	"github.com/nanobus/iota/go/zzverif/wpair"
)

// ask makes a request of any kind and forgets it.
func ask(by neutral.Caller, kind wire.Kind, p neutral.Payload) {
	switch kind {
	case wire.RequestResponse:
		by.RequestResponse(p).Subscribe(func(neutral.Payload) {}, func(string) {}, nil)
	case wire.RequestFNF:
		by.FireAndForget(p)
	case wire.RequestStream:
		by.RequestStream(p).Subscribe(neutral.Sub{})
	case wire.RequestChannel:
		by.RequestChannel(p, neutral.Source{Slice: []neutral.Payload{}}).Subscribe(neutral.Sub{})
	}
}

// Answers of a handler.
const (
	now = iota
	never
	fails
)

// answering answers every request in the same way, after it told of it.
func answering(how int, seen func(neutral.Context, neutral.Payload)) *neutral.Handlers {
	src := func() neutral.Source {
		switch how {
		case now:
			return neutral.Source{Slice: []neutral.Payload{}}
		case fails:
			return neutral.Source{Fail: "failed"}
		}
		return neutral.Source{Create: func(neutral.Sink) {}}
	}
	return &neutral.Handlers{
		Seen: seen,
		RR: func(neutral.Payload) neutral.Answer {
			switch how {
			case now:
				return neutral.Answer{Just: &neutral.Payload{}}
			case fails:
				return neutral.Answer{Fail: "failed"}
			}
			return neutral.Answer{Create: func(func(neutral.Payload), func(string)) {}}
		},
		FNF: func(neutral.Payload) {},
		RS:  func(neutral.Payload) neutral.Source { return src() },
		RC:  func(neutral.Payload, neutral.Flux) neutral.Source { return src() },
	}
}

func value(ctx context.Context) string {
	if ctx == nil {
		vsched.Fail("a handler gets no context")
	}
	s, _ := ctx.Value(key{}).(string)
	return s
}

// guest has the real guest make requests for those it serves.
func guest(c *mc.Ctx, pre int) {
	ks := []wire.Kind{mc.Pick(c, kinds), mc.Pick(c, kinds)}
	sub := mc.Pick(c, kinds)
	how := c.Choose(3)
	late := how == never && c.Bool()
	vsched.Run(c, vsched.Options{Preemptions: pre, Fine: true}, func() {
		got := map[string]string{}
		byHost := answering(now, func(x neutral.Context, p neutral.Payload) {
			if _, ok := got[p.Data]; ok {
				vsched.Fail("the handler for %q runs twice", p.Data)
			}
			got[p.Data] = value(x.Ctx)
		})
		var todo []func()
		byGuest := answering(how, func(x neutral.Context, p neutral.Payload) {
			if !x.Has {
				vsched.Fail("the guest's handler for %q is not told which request it serves", p.Data)
			}
			f := func() {
				ask(gpeer.Caller{C: zguest.HostInvoker, Ctx: x.Ctx}, sub, neutral.Payload{Data: "for " + p.Data, Meta: string(metadata(0, x.ID))})
			}
			if late {
				todo = append(todo, f)
			} else {
				f()
			}
		})
		p := wpair.NewWith(func() *neutral.Handlers { return byGuest }, func() *neutral.Handlers { return byHost })
		p.Kick = func() {
			for _, f := range todo {
				f()
			}
		}
		make := func(n int, name string) {
			ask(peer.Caller{C: p.I, Ctx: context.WithValue(context.Background(), key{}, name)}, ks[n], neutral.Payload{Data: name, Meta: string(metadata(0, 0))})
		}
		vsched.GoNamed("first", func() { make(0, "one") })
		make(1, "two")
		vsched.Quiesce()
		if late {
			p.Caller(1).FireAndForget(neutral.Payload{Meta: "\x00\x00\x00\x01\x00\x00\x00\x00"})
			vsched.Quiesce()
		}
		for n, name := range []string{"one", "two"} {
			v, ok := got["for "+name]
			if !ok {
				vsched.Fail("what the guest requests for %q does not arrive", name)
			}
			want := name
			if ks[n] == wire.RequestFNF {
				want = ""
			}
			if v != want {
				vsched.Fail("what the guest requests for %q is served in the context of %q", name, v)
			}
		}
	})
}

var current *neutral.Handlers

func init() { peer.Export(func() *neutral.Handlers { return current }) }

// connection has both sides make requests of each other.
func connection(c *mc.Ctx, pre int) {
	sides := []int{c.Choose(2), c.Choose(2)}
	ks := []wire.Kind{mc.Pick(c, kinds), mc.Pick(c, kinds)}
	how := c.Choose(3)
	vsched.Run(c, vsched.Options{Preemptions: pre, Fine: true}, func() {
		ids := map[string]uint32{}
		var hs [2]*handler.Handler
		var cancel [2]func()
		for n, mode := range []handler.Mode{handler.ClientMode, handler.ServerMode} {
			ctx, stop := context.WithCancel(context.WithValue(context.Background(), key{}, fmt.Sprint("side ", n)))
			cancel[n] = stop
			hs[n] = handler.New(ctx, mode)
			hs[n].SetFrameSender(func(f frames.Frame) error {
				b := wire.ImplEncode(f)
				g, _ := wire.Decode(b)
				if g.Kind.IsRequest() {
					ids[string(g.Data)] = g.ID
				}
				x, err := wire.ImplDecode(b)
				if err != nil {
					vsched.Fail("frame %x does not decode: %v", b, err)
				}
				return hs[1-n].HandleFrame(x)
			})
		}
		got := map[string]neutral.Context{}
		current = answering(how, func(x neutral.Context, p neutral.Payload) {
			if _, twice := got[p.Data]; twice {
				vsched.Fail("the handler for %q runs twice", p.Data)
			}
			got[p.Data] = x
		})
		names := []string{"one", "two"}
		make := func(n int) {
			ask(peer.Caller{C: hs[sides[n]]}, ks[n], neutral.Payload{Data: names[n], Meta: string(metadata(0, 0))})
		}
		vsched.GoNamed("first", func() { make(0) })
		make(1)
		vsched.Quiesce()
		for n, name := range names {
			g, ok := got[name]
			if !ok {
				vsched.Fail("request %q is not served", name)
			}
			if !g.Has || g.ID != ids[name] {
				vsched.Fail("the handler for %q with id %d is told it serves %d (%v)", name, ids[name], g.ID, g.Has)
			}
			if want := fmt.Sprint("side ", 1-sides[n]); value(g.Ctx) != want || value(g.Own) != want {
				vsched.Fail("the handler for %q runs in the context of %q and its stream in that of %q instead of %q", name, value(g.Ctx), value(g.Own), want)
			}
		}
		for side := range hs {
			cancel[side]()
			for n, name := range names {
				if sides[n] == 1-side && got[name].Ctx.Err() == nil {
					vsched.Fail("the context of the handler for %q is not cancelled with that of its connection", name)
				}
				if side == 0 && sides[n] == side && got[name].Ctx.Err() != nil {
					vsched.Fail("the context of the handler for %q is cancelled", name)
				}
			}
		}
	})
}

var dir = func() string {
	d, err := os.MkdirTemp("", "mesh")
	if err != nil {
		panic(err)
	}
	for _, f := range []string{"a", "b"} {
		if err := os.WriteFile(filepath.Join(d, f), []byte(f), 0o644); err != nil {
			panic(err)
		}
	}
	return d
}()

// chain has a request go through two modules to a handler of the program.
func chain(c *mc.Ctx) {
	k1, k2, k3 := mc.Pick(c, kinds), mc.Pick(c, kinds), mc.Pick(c, kinds)
	j1 := mc.Pick(c, kinds)
	order := c.Bool()
	vsched.Run(c, vsched.Options{}, func() {
		next := map[string]wire.Kind{}
		wazero.ZZInstantiate = func(_ context.Context, bin []byte, h map[string]wazero.ZZHostFunc) (api.Module, error) {
			name := string(bin)
			from, to := "x", "y"
			if name == "b" {
				from, to = "y", "z"
			}
			var t operations.Table
			for _, k := range []operations.RequestType{operations.RequestResponse, operations.FireAndForget, operations.RequestStream, operations.RequestChannel} {
				t = append(t, operations.Operation{Index: 3, Type: k, Direction: operations.Export, Namespace: "n", Operation: from}, operations.Operation{Index: 4, Type: k, Direction: operations.Import, Namespace: "n", Operation: to})
			}
			ops := t.ToBytes()
			send, recv, or := &wmod.Region{Ptr: sendPtr, Size: size}, &wmod.Region{Ptr: recvPtr, Size: size}, &wmod.Region{Ptr: operPtr, Size: uint32(len(ops))}
			copy(or.Bytes(), ops)
			m := &wmod.Mod{Host: h, Regions: []*wmod.Region{send, recv, or}}
			id := uint32(1)
			m.Exports = map[string]wmod.Func{
				"__wasmrs_init": func(c context.Context, a ...uint64) error { m.Call(c, "__init_buffers", sendPtr, recvPtr); return nil },
				"__wasmrs_op_list_request": func(c context.Context, a ...uint64) error {
					m.Call(c, "__op_list", operPtr, uint64(len(ops)))
					return nil
				},
				"__wasmrs_send": func(c context.Context, a ...uint64) error {
					b := append([]byte(nil), send.Bytes()[:a[0]]...)
					send.Move(len(b))
					var out []byte
					for len(b) > 0 {
						n := int(b[0])<<16 | int(b[1])<<8 | int(b[2])
						f, _ := wire.Decode(b[3 : 3+n])
						b = b[3+n:]
						if f.Kind.IsRequest() {
							e := wire.Encode(wire.Frame{Kind: next[name], ID: id, N: 1, Metadata: metadata(4, f.ID), Data: f.Data})
							id += 2
							out = append(append(out, wire.U24(len(e))...), e...)
						}
					}
					if len(out) > 0 {
						copy(recv.Bytes(), out)
						m.Call(c, "__send", uint64(len(out)))
						recv.Move(len(out))
					}
					return nil
				},
			}
			return m, nil
		}
		next["a"], next["b"] = k2, k3
		g := mesh.New()
		files := []string{"a", "b"}
		if order {
			files = []string{"b", "a"}
		}
		got := map[string]context.Context{}
		for _, f := range files {
			i, err := g.LoadModule(context.Background(), filepath.Join(dir, f))
			if err != nil {
				vsched.Fail("LoadModule: %v", err)
			}
			if f == "b" {
				serve(i, got)
			}
		}
		reqs := map[string]wire.Kind{"one": k1, "two": j1}
		cancel := map[string]func(){}
		for _, name := range []string{"one", "two"} {
			ctx, stop := context.WithCancel(context.WithValue(context.Background(), key{}, name))
			defer stop()
			cancel[name] = stop
			request(ctx, g, reqs[name], name)
		}
		vsched.Quiesce()
		for name, k := range reqs {
			ctx, ok := got[name]
			v := value(ctx)
			if !ok {
				vsched.Fail("the request for %q does not arrive", name)
			}
			want := name
			if k == wire.RequestFNF || k2 == wire.RequestFNF {
				want = ""
			}
			if v != want {
				vsched.Fail("the request for %q arrives in the context of %q instead of %q", name, v, want)
			}
			if ctx.Err() != nil {
				vsched.Fail("the context of the request for %q is cancelled", name)
			}
		}
		cancel["one"]()
		if (got["one"].Err() != nil) != (value(got["one"]) != "") || got["two"].Err() != nil {
			vsched.Fail("one context of the program is cancelled, those of the handlers are %v and %v", got["one"].Err(), got["two"].Err())
		}
	})
}

// request makes a request of a mesh.
func request(ctx context.Context, g *mesh.Mesh, kind wire.Kind, name string) {
	p := payload.New([]byte(name), metadata(0, 0))
	switch kind {
	case wire.RequestResponse:
		g.RequestResponse(ctx, "n", "x", p).Subscribe(mono.Subscribe[payload.Payload]{})
	case wire.RequestFNF:
		g.FireAndForget(ctx, "n", "x", p)
	case wire.RequestStream:
		g.RequestStream(ctx, "n", "x", p).Subscribe(flux.Subscribe[payload.Payload]{})
	case wire.RequestChannel:
		g.RequestChannel(ctx, "n", "x", p, flux.FromSlice([]payload.Payload{})).Subscribe(flux.Subscribe[payload.Payload]{})
	}
}

// serve has handlers note their context.
func serve(i *host.Instance, got map[string]context.Context) {
	hs := answering(now, func(x neutral.Context, p neutral.Payload) { got[p.Data] = x.Ctx })
	h := func() *neutral.Handlers { return hs }
	i.SetRequestResponseHandler(4, peer.RR(h))
	i.SetFireAndForgetHandler(4, peer.FNF(h))
	i.SetRequestStreamHandler(4, peer.RS(h))
	i.SetRequestChannelHandler(4, peer.RC(h))
}
