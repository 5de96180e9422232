// C34: typed clients and services agree, and components answer from their ports.
package main

import (
	"context"
	"errors"
	"fmt"
	"strings"

	service "github.com/nanobus/iota/go/example/greeter"
	"github.com/nanobus/iota/go/handler"
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/msgpack"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/await"
	"github.com/nanobus/iota/go/rx/flow"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transform"
	"github.com/nanobus/iota/go/transport/wasmrs/example"
	cconcat "github.com/nanobus/iota/go/transport/wasmrs/example/concat"
	cgreeter "github.com/nanobus/iota/go/transport/wasmrs/example/greeter"
	wf "github.com/nanobus/iota/go/transport/wasmrs/example/wordfrequency"
	"github.com/nanobus/iota/go/transport/wasmrs/mesh/modules/concat"
	"github.com/nanobus/iota/go/transport/wasmrs/mesh/modules/customer"
	"github.com/nanobus/iota/go/transport/wasmrs/mesh/modules/greeting"
	"github.com/nanobus/iota/go/zzverif/hpair"
	"github.com/nanobus/iota/go/zzverif/mc"
	"github.com/nanobus/iota/go/zzverif/mp"
	"github.com/nanobus/iota/go/zzverif/proto"
	"github.com/nanobus/iota/go/zzverif/vsched"
)

// The services of an execution.
var (
	hello func(svc, a, b string) mono.Mono[string]
	count func(to uint64) flux.Flux[string]
	upper func(in flux.Flux[string]) flux.Flux[string]
	raw   func(kind int) ([]byte, []byte) // answers of the raw handlers
)

// Where each operation is in the table of its kind.
var (
	rr = map[string]uint32{}
	rs = map[string]uint32{}
	rc = map[string]uint32{}
)

type greeterService struct{}

func (greeterService) SayHello(_ context.Context, a, b string) mono.Mono[string] {
	return hello("greeter", a, b)
}

func two(svc string) func(context.Context, string, string) mono.Mono[string] {
	return func(_ context.Context, a, b string) mono.Mono[string] { return hello(svc, a, b) }
}

func init() {
	exported := func() invoke.Handlers { return invoke.GetOperations().Exported }
	n := func(m map[string]uint32, name string, at int, register func()) {
		m[name] = uint32(at)
		register()
	}
	n(rr, "example", len(exported().RequestResponse), func() { example.RegisterSayHello(two("example")) })
	n(rr, "greeter", len(exported().RequestResponse), func() { service.RegisterGreeter(greeterService{}) })
	n(rr, "greeting", len(exported().RequestResponse), func() {
		greeting.RegisterSayHello(func(_ context.Context, name string) mono.Mono[string] { return hello("greeting", name, "") })
	})
	n(rr, "concat", len(exported().RequestResponse), func() { concat.RegisterConcat(two("concat")) })
	n(rr, "customer", len(exported().RequestResponse), func() {
		customer.RegisterNewCustomer(func(_ context.Context, c *customer.Customer) mono.Mono[string] {
			return hello("customer", c.FirstName, c.LastName)
		})
	})
	n(rs, "counter", len(exported().RequestStream), func() {
		example.RegisterCounter(func(_ context.Context, to uint64) flux.Flux[string] { return count(to) })
	})
	n(rc, "uppercase", len(exported().RequestChannel), func() {
		example.RegisterUppercase(func(_ context.Context, in flux.Flux[string]) flux.Flux[string] { return upper(in) })
	})
	n(rc, "words", len(exported().RequestChannel), wf.Register)
	n(rc, "concat", len(exported().RequestChannel), cconcat.Register)
	n(rc, "greeter", len(exported().RequestChannel), cgreeter.Register)
	// Handlers that answer whatever they like.
	n(rr, "raw", len(exported().RequestResponse), func() {
		invoke.ExportRequestResponse("raw", "raw", func(context.Context, payload.Payload) mono.Mono[payload.Payload] {
			return mono.Just[payload.Payload](payload.New(raw(0)))
		})
	})
	n(rs, "raw", len(exported().RequestStream), func() {
		invoke.ExportRequestStream("raw", "raw", func(context.Context, payload.Payload) flux.Flux[payload.Payload] {
			return flux.FromSlice([]payload.Payload{payload.New(raw(0)), payload.New(raw(1)), payload.New(raw(2))})
		})
	})
}

// at is a caller whose imports have the number of the export in question.
type at struct {
	*handler.Handler
	rr, rs, rc string
}

func (a at) ImportRequestResponse(string, string) uint32 { return rr[a.rr] }
func (a at) ImportRequestStream(string, string) uint32   { return rs[a.rs] }
func (a at) ImportRequestChannel(string, string) uint32  { return rc[a.rc] }

func meta(id uint32) []byte {
	return []byte{byte(id >> 24), byte(id >> 16), byte(id >> 8), byte(id), 0, 0, 0, 0}
}

func run(c *mc.Ctx, pre int, main func(client, server *handler.Handler)) {
	vsched.Run(c, vsched.Options{Preemptions: pre}, func() {
		ends, m := hpair.New(&proto.Session{Run: vsched.GoNamed})
		main(ends[0].H, ends[1].H)
		vsched.Quiesce()
		c.State(m.Log)
	})
}

// Monos.

const (
	aJust = iota
	aError
	aSync
	aSyncError
	aThread
	aThreadError
	answers
)

func fails(kind int) bool { return kind == aError || kind == aSyncError || kind == aThreadError }

func answer(kind int, value, msg string) mono.Mono[string] {
	settle := func(sink mono.Sink[string]) {
		if fails(kind) {
			sink.Error(errors.New(msg))
		} else {
			sink.Success(value)
		}
	}
	switch kind {
	case aJust:
		return mono.Just(value)
	case aError:
		return mono.Error[string](errors.New(msg))
	case aSync, aSyncError:
		return mono.Create(settle)
	}
	return mono.Create(func(sink mono.Sink[string]) { vsched.GoNamed("service", func() { settle(sink) }) })
}

// outcome of a mono; Wait is the way to learn it.
type outcome struct {
	value string
	err   error
	n     int
}

func (o *outcome) is(value, msg string, failed bool) {
	switch {
	case o.n != 1:
		vsched.Fail("the client heard of %d outcomes, one was due", o.n)
	case failed && (o.err == nil || o.err.Error() != msg):
		vsched.Fail("the client heard %q, %v; the service failed with %q", o.value, o.err, msg)
	case !failed && (o.err != nil || o.value != value):
		vsched.Fail("the client heard %q, %v; the service answered %q", o.value, o.err, value)
	}
}

func (o *outcome) wait(way int, m mono.Mono[string]) {
	switch way {
	case 0:
		m.Subscribe(mono.Subscribe[string]{
			OnSuccess: func(v string) { o.value = v; o.n++ },
			OnError:   func(err error) { o.err = err; o.n++ },
		})
	case 1:
		o.value, o.err = m.Block()
		o.n++
	default:
		m.Async()
		m.Notify(func(rx.SignalType) {
			o.value, o.err = m.Get()
			o.n++
		})
	}
}

var (
	texts  = []string{"", "A", "é\x00", strings.Repeat("long", 70), "the"}
	failed = "it did not work"
)

// call makes the typed request of a service.
func call(h *handler.Handler, svc, a, b string) mono.Mono[string] {
	ctx := context.Background()
	by := at{Handler: h, rr: svc}
	switch svc {
	case "example", "raw":
		return example.NewGreeting(by).SayHello(ctx, a, b)
	case "greeter":
		return service.NewGreeting(by).SayHello(ctx, a, b)
	case "greeting":
		greeting.Initialize(by)
		return greeting.SayHello(ctx, a)
	case "concat":
		concat.Initialize(by)
		return concat.Concat(ctx, a, b)
	}
	data := fields(str("firstName"), str(a), str("lastName"), str(b))
	return mono.Map(h.RequestResponse(ctx, payload.New([]byte(data), meta(rr[svc]))), transform.String.Decode)
}

var typed = []string{"example", "greeter", "greeting", "concat", "customer"}

// Fluxes.

type source struct {
	vals     []string
	end      string // complete, error, never
	sub      int    // 0 sync, 1 thread, 2 slice
	pushed   int
	canceled int
}

func (s *source) flux() flux.Flux[string] {
	if s.sub == 2 {
		return flux.FromSlice(s.vals)
	}
	return flux.Create(func(sink flux.Sink[string]) {
		ended := false
		sink.OnSubscribe(flux.OnSubscribe{
			Request: func(n int) {
				emit := func() {
					for ; n > 0 && s.pushed < len(s.vals) && s.canceled == 0; n-- {
						s.pushed++
						sink.Next(s.vals[s.pushed-1])
					}
					if s.pushed == len(s.vals) && !ended && s.canceled == 0 {
						ended = true
						switch s.end {
						case "complete":
							sink.Complete()
						case "error":
							sink.Error(errors.New(failed))
						}
					}
				}
				if s.sub == 1 {
					vsched.GoNamed("source", emit)
				} else {
					emit()
				}
			},
			Cancel: func() { s.canceled++ },
		})
	})
}

type sink[T any] struct {
	vals   []T
	end    string
	n      int
	step   int // values asked for at a time, 0 all
	cancel int // after how many, 0 never
}

func (s *sink[T]) subscribe(f flux.Flux[T]) {
	ended := func(how string) { s.end = how; s.n++ }
	sub := flux.Subscribe[T]{
		OnNext: func(v T) {
			if s.n > 0 {
				vsched.Fail("%v came after the end", v)
			}
			s.vals = append(s.vals, v)
		},
		OnComplete: func() { ended("complete") },
		OnError:    func(err error) { ended("error: " + err.Error()) },
	}
	if s.step > 0 {
		sub.OnRequest = func(x rx.Subscription) {
			if s.cancel > 0 && len(s.vals) >= s.cancel {
				x.Cancel()
			} else {
				x.Request(s.step)
			}
		}
	}
	f.Subscribe(sub)
}

// is checks what came against the values sent and the way they ended.
func (s *sink[T]) is(what string, vals []T, end string) {
	if end == "error" {
		end = "error: " + failed
	}
	n := 1
	if end == "never" {
		end, n = "", 0
	}
	// It looks at the count whenever it has what it asked for.
	if at := (s.cancel + s.step - 1) / max(s.step, 1) * s.step; s.cancel > 0 && at <= len(vals) {
		vals = vals[:at]
		if len(s.vals) == len(vals) && s.n == 0 {
			end, n = "", 0
		}
	}
	if fmt.Sprint(s.vals) != fmt.Sprint(vals) || len(s.vals) != len(vals) || s.end != end || s.n != n {
		vsched.Fail("%s: got %q, end %q (%d times); want %q, end %q", what, s.vals, s.end, s.n, vals, end)
	}
}

var ends = []string{"complete", "error", "never"}

// Components.

func port(name string, data []byte, next, complete bool) payload.Payload {
	p := invoke.PortIO{Port: name, Next: next, Complete: complete}
	return payload.New(data, p.Encode())
}

type message struct {
	port           string
	next, complete bool
	data           string
}

// talk sends messages to a component and collects what it answers.
func talk(h *handler.Handler, comp string, in []payload.Payload, end string, thread bool) *sink[payload.Payload] {
	out := &sink[payload.Payload]{}
	i := 0
	src := flux.Create(func(s flux.Sink[payload.Payload]) {
		s.OnSubscribe(flux.OnSubscribe{Request: func(n int) {
			emit := func() {
				for ; n > 0 && i < len(in); n-- {
					i++
					s.Next(in[i-1])
				}
				if i == len(in) {
					i++
					switch end {
					case "complete":
						s.Complete()
					case "error":
						s.Error(errors.New(failed))
					}
				}
			}
			if thread {
				vsched.GoNamed("ports", emit)
			} else {
				emit()
			}
		}, Cancel: func() { i = len(in) + 1 }})
	})
	out.subscribe(h.RequestChannel(context.Background(), payload.New(nil, meta(rc[comp])), src))
	return out
}

// messages reads what a component answered.
func messages(out *sink[payload.Payload]) (ms []message) {
	for _, p := range out.vals {
		var io invoke.PortIO
		if err := io.Decode(p.Metadata()); err != nil {
			vsched.Fail("the component answered with metadata %x: %v", p.Metadata(), err)
		}
		ms = append(ms, message{io.Port, io.Next, io.Complete, string(p.Data())})
	}
	return ms
}

// MessagePack by hand.

func str(s string) string {
	switch n := len(s); {
	case n < 32:
		return string([]byte{0xa0 | byte(n)}) + s
	case n < 256:
		return string([]byte{0xd9, byte(n)}) + s
	default:
		return string([]byte{0xda, byte(n >> 8), byte(n)}) + s
	}
}

func fields(kv ...string) string {
	return string([]byte{0x80 | byte(len(kv)/2)}) + strings.Join(kv, "")
}

func counts(in []string) map[string]uint64 {
	m := map[string]uint64{}
	for _, w := range in {
		w = strings.ToLower(w)
		if w != "the" && w != "a" {
			m[w]++
		}
	}
	return m
}

func main() {
	p1, p2 := mc.Bound(1, 2), mc.Bound(2, 3)
	most := mc.Bound(3, 4)
	mc.Main(mc.Config{
		ID:     "C34",
		Rule:   "the typed clients, services and components of the repository on two connected handlers: all inputs, encodings, ways to answer and to wait of a small domain, and all interleavings",
		Bounds: fmt.Sprintf("texts %.30q, lists of up to %d; every truncation of the requests; <=%d preemptions at synchronization operations", texts, most, p2),
		Scenarios: []mc.Scenario{
			{Name: "typed responses", Body: func(c *mc.Ctx) {
				svc, a, b, kind, way := mc.Pick(c, typed), mc.Pick(c, texts), mc.Pick(c, texts), c.Choose(answers), c.Choose(3)
				if svc == "greeting" && b != "" {
					c.Skip()
				}
				run(c, 0, func(client, _ *handler.Handler) { typedCall(client, svc, a, b, kind, way) })
			}},
			{Name: "typed response schedules", Body: func(c *mc.Ctx) {
				svc, kind, way := mc.Pick(c, typed), c.Choose(answers), c.Choose(3)
				run(c, p2, func(client, _ *handler.Handler) { typedCall(client, svc, "A", "", kind, way) })
			}},
			{Name: "two clients", Body: func(c *mc.Ctx) {
				// They share the handler, and their services run at once.
				s1, s2, k1, k2 := mc.Pick(c, typed), mc.Pick(c, typed), c.Choose(answers), c.Choose(answers)
				run(c, p1, func(client, _ *handler.Handler) {
					hello = func(s, x, y string) mono.Mono[string] {
						k := k1
						if x == "2" {
							k = k2
						}
						return answer(k, "Hello "+s+x+y, "no "+x)
					}
					var o1, o2 outcome
					vsched.GoNamed("client", func() { o1.wait(0, call(client, s1, "1", "")) })
					o2.wait(0, call(client, s2, "2", ""))
					vsched.Quiesce()
					o1.is("Hello "+s1+"1", "no 1", fails(k1))
					o2.is("Hello "+s2+"2", "no 2", fails(k2))
				})
			}},
			{Name: "a service of services", Body: func(c *mc.Ctx) {
				k1, k2, way := c.Choose(answers), c.Choose(answers), c.Choose(3)
				run(c, p1, func(client, server *handler.Handler) { services(client, server, k1, k2, way) })
			}},
			{Name: "requests of services", Body: func(c *mc.Ctx) { requests(c) }},
			{Name: "typed values", Body: values},
			{Name: "odd answers", Body: func(c *mc.Ctx) { odd(c) }},
			{Name: "counter", Body: func(c *mc.Ctx) { counter(c, 0) }},
			{Name: "counter schedules", Body: func(c *mc.Ctx) { counter(c, p1) }},
			{Name: "uppercase", Body: func(c *mc.Ctx) { uppercase(c, 0) }},
			{Name: "uppercase schedules", Body: func(c *mc.Ctx) { uppercase(c, p1) }},
			{Name: "word frequency", Body: func(c *mc.Ctx) { words(c, most, 0) }},
			{Name: "word frequency schedules", Body: func(c *mc.Ctx) { words(c, 1, p1) }},
			{Name: "components of one value", Body: func(c *mc.Ctx) { single(c, 0) }},
			{Name: "component schedules", Body: func(c *mc.Ctx) { single(c, p1) }},
		},
		Assumptions: []string{"an operation has the same number on both sides of the connection"},
	})
}

func typedCall(client *handler.Handler, svc, a, b string, kind, way int) {
	calls := 0
	hello = func(s, x, y string) mono.Mono[string] {
		calls++
		if s != svc || x != a || y != b {
			vsched.Fail("service %s got %q, %q; the client of %s sent %q, %q", s, x, y, svc, a, b)
		}
		return answer(kind, "Hello "+x+" "+y, failed)
	}
	var o outcome
	o.wait(way, call(client, svc, a, b))
	vsched.Quiesce()
	if calls != 1 {
		vsched.Fail("the service ran %d times", calls)
	}
	o.is("Hello "+a+" "+b, failed, fails(kind))
}

// services calls a service that asks two others of the other side, one after
// the other, before it answers.
func services(client, server *handler.Handler, k1, k2, way int) {
	concat.Initialize(at{Handler: server, rr: "concat"})
	greeting.Initialize(at{Handler: server, rr: "greeting"})
	var log []string
	hello = func(s, x, y string) mono.Mono[string] {
		log = append(log, s+" "+x+" "+y)
		switch s {
		case "concat":
			return answer(k1, x+" "+y, "no concat")
		case "greeting":
			return answer(k2, "Hello, "+x, "no greeting")
		}
		ctx := context.Background()
		f := flow.New[string]()
		var name, message mono.Mono[string]
		return f.Steps(func() (await.Group, error) {
			name = concat.Concat(ctx, x, y)
			return await.All(name)
		}, func() (await.Group, error) {
			n, err := name.Get()
			if err != nil {
				return f.Error(err)
			}
			message = greeting.SayHello(ctx, n)
			return await.All(message)
		}, func() (await.Group, error) {
			m, err := message.Get()
			if err != nil {
				return f.Error(err)
			}
			return f.Success(m)
		}).Mono()
	}
	var o outcome
	o.wait(way, call(client, "customer", "A", "b"))
	vsched.Quiesce()
	want := []string{"customer A b", "concat A b"}
	msg := "no concat"
	if !fails(k1) {
		want, msg = append(want, "greeting A b "), "no greeting"
	}
	if fmt.Sprintf("%q", log) != fmt.Sprintf("%q", want) {
		vsched.Fail("the services ran as %q, want %q", log, want)
	}
	o.is("Hello, A b", msg, fails(k1) || fails(k2))
}

// requests sends encodings of requests to the services.
func requests(c *mc.Ctx) {
	svc := mc.Pick(c, append([]string{"counter"}, typed...))
	names := map[string][]string{"greeting": {"name"}, "concat": {"left", "right"}, "counter": {"to"}}[svc]
	if names == nil {
		names = []string{"firstName", "lastName"}
	}
	// The fields that are there, in some order, with one more perhaps.
	var kv []string
	want := map[string]string{}
	extra := c.Choose(8)
	left := append([]string(nil), names...)
	for i := 0; ; i++ {
		if extra == 2*i || extra == 2*i+1 && i < 3 {
			kv = append(kv, str("to the"), []string{str("right"), fields(str("left"), str("to"))}[extra%2])
		}
		n := c.Choose(len(left) + 1)
		if n == len(left) {
			break
		}
		name := left[n]
		left = append(left[:n:n], left[n+1:]...)
		if svc == "counter" {
			want[name] = fmt.Sprint(7 + i)
			kv = append(kv, str(name), string([]byte{byte(7 + i)}))
		} else {
			want[name] = fmt.Sprintf("x%d", i)
			kv = append(kv, str(name), str(want[name]))
		}
	}
	data := fields(kv...)
	bad := c.Choose(3) // whole, cut, of a wrong type
	switch {
	case bad == 1:
		data = data[:c.Choose(len(data))]
	case bad == 2 && len(want) == 0:
		c.Skip()
	case bad == 2:
		value := "\xc3"
		data = string([]byte{data[0] + 1}) + data[1:] + str(names[0]) + value
	}
	run(c, 0, func(client, _ *handler.Handler) {
		calls := 0
		hello = func(s, x, y string) mono.Mono[string] {
			calls++
			second := ""
			if len(names) > 1 {
				second = want[names[1]]
			}
			if s != svc || x != want[names[0]] || y != second {
				vsched.Fail("service %s got %q, %q of the request %x", s, x, y, data)
			}
			return mono.Just("yes")
		}
		count = func(to uint64) flux.Flux[string] {
			calls++
			if w := want["to"]; fmt.Sprint(to) != w && (to != 0 || w != "") {
				vsched.Fail("the counter got %d of the request %x", to, data)
			}
			return flux.FromSlice([]string{"yes"})
		}
		var o outcome
		if svc == "counter" {
			f := client.RequestStream(context.Background(), payload.New([]byte(data), meta(rs[svc])))
			f.Subscribe(flux.Subscribe[payload.Payload]{
				OnNext:     func(p payload.Payload) { o.value += string(p.Data()) },
				OnComplete: func() { o.n++ },
				OnError:    func(err error) { o.err = err; o.n++ },
			})
		} else {
			m := client.RequestResponse(context.Background(), payload.New([]byte(data), meta(rr[svc])))
			m.Subscribe(mono.Subscribe[payload.Payload]{
				OnSuccess: func(p payload.Payload) { o.value = string(p.Data()); o.n++ },
				OnError:   func(err error) { o.err = err; o.n++ },
			})
		}
		vsched.Quiesce()
		if bad == 0 {
			if calls != 1 || o.n != 1 || o.err != nil || o.value != str("yes") {
				vsched.Fail("%s with %x: ran %d times, answered %q, %v", svc, data, calls, o.value, o.err)
			}
		} else if calls != 0 || o.n != 1 || o.err == nil {
			vsched.Fail("%s with the bad request %x: ran %d times, answered %q, %v", svc, data, calls, o.value, o.err)
		}
	})
}

// The types of the clients, services and components.
type value interface{ Encode(msgpack.Writer) error }

type kind struct {
	names []string
	num   int // which field is a number
	of    func(a, b string, n uint64) value
	null  value
	dec   func(d *msgpack.Decoder) (value, error)
}

var kinds = []kind{
	{[]string{"to"}, 0, func(_, _ string, n uint64) value { return &example.CounterRequest{To: n} }, (*example.CounterRequest)(nil),
		func(d *msgpack.Decoder) (value, error) { var v example.CounterRequest; return &v, v.Decode(d) }},
	{[]string{"firstName", "lastName"}, -1, func(a, b string, _ uint64) value { return &example.GreetingRequest{FirstName: a, LastName: b} }, (*example.GreetingRequest)(nil),
		func(d *msgpack.Decoder) (value, error) { var v example.GreetingRequest; return &v, v.Decode(d) }},
	{[]string{"firstName", "lastName"}, -1, func(a, b string, _ uint64) value { return &service.GreetingRequest{FirstName: a, LastName: b} }, (*service.GreetingRequest)(nil),
		func(d *msgpack.Decoder) (value, error) { var v service.GreetingRequest; return &v, v.Decode(d) }},
	{[]string{"name"}, -1, func(a, _ string, _ uint64) value { return &greeting.GreetingRequest{Name: a} }, (*greeting.GreetingRequest)(nil),
		func(d *msgpack.Decoder) (value, error) { var v greeting.GreetingRequest; return &v, v.Decode(d) }},
	{[]string{"left", "right"}, -1, func(a, b string, _ uint64) value { return &concat.Strings{Left: a, Right: b} }, (*concat.Strings)(nil),
		func(d *msgpack.Decoder) (value, error) { var v concat.Strings; return &v, v.Decode(d) }},
	{[]string{"left", "right"}, -1, func(a, b string, _ uint64) value { return &cconcat.Strings{Left: a, Right: b} }, (*cconcat.Strings)(nil),
		func(d *msgpack.Decoder) (value, error) { var v cconcat.Strings; return &v, v.Decode(d) }},
	{[]string{"firstName", "lastName"}, -1, func(a, b string, _ uint64) value { return &customer.Customer{FirstName: a, LastName: b} }, (*customer.Customer)(nil),
		func(d *msgpack.Decoder) (value, error) { var v customer.Customer; return &v, v.Decode(d) }},
	{[]string{"word", "count"}, 1, func(a, _ string, n uint64) value { return &wf.WordCount{Word: a, Count: n} }, (*wf.WordCount)(nil),
		func(d *msgpack.Decoder) (value, error) { var v wf.WordCount; return &v, v.Decode(d) }},
}

// values encodes a value of each type and decodes what that and others give.
func values(c *mc.Ctx) {
	k := kinds[c.Choose(len(kinds))]
	nums := []uint64{0, 1, 127, 128, 255, 256, 65535, 65536, 1<<32 - 1, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 1}
	a, b, n := texts[0], texts[0], nums[0]
	if k.num != 0 {
		a = mc.Pick(c, texts)
	}
	if k.num != len(k.names)-1 && len(k.names) > 1 {
		b = mc.Pick(c, texts)
	}
	if k.num >= 0 {
		n = mc.Pick(c, nums)
	}
	v := k.of(a, b, n)
	bytes := func(v value) string {
		sizer := msgpack.NewSizer()
		if err := v.Encode(&sizer); err != nil {
			c.Failf("%T: sizing failed: %v", v, err)
		}
		buf := make([]byte, sizer.Len())
		enc := msgpack.NewEncoder(buf)
		if err := v.Encode(&enc); err != nil || enc.Err() != nil {
			c.Failf("%T: encoding failed: %v", v, err)
		}
		return string(buf)
	}
	data := bytes(v)
	x, size, ok := mp.Decode([]byte(data))
	if !ok || size != len(data) || x.Kind != mp.Map || len(x.Elems) != 2*len(k.names) {
		c.Failf("%+v was encoded as %x", v, data)
	}
	var kv []string // of the names, in their order
	for i, name := range k.names {
		found := false
		for j := 0; j < len(x.Elems); j += 2 {
			if x.Elems[j].Kind != mp.Str || string(x.Elems[j].S) != name {
				continue
			}
			e := x.Elems[j+1]
			text := []string{a, b}[i]
			if i == k.num && (e.Kind != mp.Int || !e.I.IsUint64() || e.I.Uint64() != n) || i != k.num && (e.Kind != mp.Str || string(e.S) != text) {
				c.Failf("%+v was encoded as %x", v, data)
			}
			found = true
			field := str(text)
			if i == k.num {
				field = string([]byte{0xcf, byte(n >> 56), byte(n >> 48), byte(n >> 40), byte(n >> 32), byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)})
			}
			kv = append(kv, str(name)+field)
		}
		if !found {
			c.Failf("%+v was encoded as %x, without %s", v, data, name)
		}
	}
	// In another order, with fields it does not know.
	switch more := c.Choose(4); more {
	case 1:
		kv = append(kv, str("more")+fields(str(k.names[0]), "\xc3"))
		data = string([]byte{0x80 | byte(len(kv))}) + strings.Join(kv, "")
	case 2, 3:
		for i, j := 0, len(kv)-1; i < j; i, j = i+1, j-1 {
			kv[i], kv[j] = kv[j], kv[i]
		}
		if more == 3 {
			kv = append([]string{str("") + "\xc0", str("x") + "\x93\x01" + str("to") + "\xcb12345678"}, kv...)
		}
		data = string([]byte{0x80 | byte(len(kv))}) + strings.Join(kv, "")
	}
	d := msgpack.NewDecoder([]byte(data))
	got, err := k.dec(&d)
	if err != nil || fmt.Sprintf("%T%+v", got, got) != fmt.Sprintf("%T%+v", v, v) {
		c.Failf("%x was decoded to %+v, %v, want %+v", data, got, err, v)
	}
	for i := 0; i < len(data); i++ {
		d := msgpack.NewDecoder([]byte(data[:i]))
		if got, err := k.dec(&d); err == nil {
			c.Failf("%x, %d bytes of %x, was decoded to %+v", data[:i], i, data, got)
		}
	}
	if null := bytes(k.null); null != "\xc0" {
		c.Failf("no %T was encoded as %x", v, null)
	}
	c.State(data)
}

// odd lets a service that does not answer as its client expects.
func odd(c *mc.Ctx) {
	good := []bool{true, true, true, false, false, false, false}
	datas := []string{str(""), str("x"), str(texts[3]), "", "\x07", "\xa2x", "\xd9"}
	stream := c.Bool()
	var picks []int
	for n := 0; n < 1 || stream && n < 3; n++ {
		picks = append(picks, c.Choose(len(datas)))
	}
	step, cancel := 0, 0
	if stream {
		step = c.Choose(3)
	}
	run(c, 0, func(client, _ *handler.Handler) {
		raw = func(i int) ([]byte, []byte) { return []byte(datas[picks[i]]), nil }
		text := func(i int) string { return []string{"", "x", texts[3]}[picks[i]] }
		if !stream {
			var o outcome
			o.wait(0, call(client, "raw", "", ""))
			vsched.Quiesce()
			if good[picks[0]] {
				o.is(text(0), "", false)
			} else if o.n != 1 || o.err == nil {
				vsched.Fail("the answer %x was taken for %q", datas[picks[0]], o.value)
			}
			return
		}
		s := &sink[string]{step: step, cancel: cancel}
		s.subscribe(example.NewCounter(at{Handler: client, rs: "raw"}).CountToN(context.Background(), 1))
		vsched.Quiesce()
		var want []string
		for i := range picks {
			if !good[picks[i]] {
				if !strings.HasPrefix(s.end, "error: ") || s.n != 1 {
					vsched.Fail("the answer %x ended the stream with %q", datas[picks[i]], s.end)
				}
				s.is("a bad stream", want, s.end)
				return
			}
			want = append(want, text(i))
		}
		s.is("a stream", want, "complete")
	})
}

func counter(c *mc.Ctx, pre int) {
	s, k := &source{}, &sink[string]{}
	to := uint64(2)
	if pre == 0 {
		to = mc.Pick(c, []uint64{0, 1, 127, 128, 255, 256, 65535, 65536, 1 << 31, 1 << 32, 1<<64 - 1})
		s.vals = texts[:c.Choose(4)]
	} else {
		s.vals = texts[1:3]
	}
	s.end, s.sub, k.step = mc.Pick(c, ends), c.Choose(3), c.Choose(3)
	if s.sub == 2 && s.end != "complete" {
		c.Skip()
	}
	if k.step > 0 {
		k.cancel = c.Choose(3)
	}
	run(c, pre, func(client, _ *handler.Handler) {
		calls := 0
		count = func(n uint64) flux.Flux[string] {
			calls++
			if n != to {
				vsched.Fail("the counter got %d; the client sent %d", n, to)
			}
			return s.flux()
		}
		k.subscribe(example.NewCounter(at{Handler: client, rs: "counter"}).CountToN(context.Background(), to))
		vsched.Quiesce()
		if calls != 1 {
			vsched.Fail("the counter ran %d times", calls)
		}
		k.is("counter", s.vals, s.end)
	})
}

func uppercase(c *mc.Ctx, pre int) {
	s, k := &source{}, &sink[string]{}
	if pre == 0 {
		for n := c.Choose(4); n > 0; n-- {
			s.vals = append(s.vals, mc.Pick(c, texts))
		}
	} else {
		s.vals = texts[1:3]
	}
	s.end, s.sub, k.step = mc.Pick(c, ends), c.Choose(3), c.Choose(3)
	if s.sub == 2 && s.end != "complete" {
		c.Skip()
	}
	if k.step > 0 {
		k.cancel = c.Choose(3)
	}
	greeting := pre == 0 && c.Bool() // the client of the greeting example asks for it too
	run(c, pre, func(client, _ *handler.Handler) {
		calls := 0
		var got []string
		upper = func(in flux.Flux[string]) flux.Flux[string] {
			calls++
			return flux.Map(in, func(v string) (string, error) {
				got = append(got, v)
				return strings.ToUpper(v), nil
			})
		}
		caller := at{Handler: client, rr: "example", rc: "uppercase"}
		if greeting {
			k.subscribe(example.NewGreeting(caller).Uppercase(context.Background(), s.flux()))
		} else {
			k.subscribe(example.NewUppercase(caller).Uppercase(context.Background(), s.flux()))
		}
		vsched.Quiesce()
		if greeting && calls == 0 && len(k.vals) == 0 && k.n == 1 && strings.HasPrefix(k.end, "error: ") {
			c.FailKey("greeting uppercase", "Uppercase of the greeting client names no operation, so it fails")
		}
		if calls != 1 {
			vsched.Fail("the service ran %d times", calls)
		}
		var want []string
		for _, v := range s.vals {
			want = append(want, strings.ToUpper(v))
		}
		if k.cancel == 0 && fmt.Sprintf("%q", got) != fmt.Sprintf("%q", s.vals) {
			vsched.Fail("the service got %q; the client sent %q", got, s.vals)
		}
		k.is("uppercase", want, s.end)
	})
}

func words(c *mc.Ctx, most, pre int) {
	var in []payload.Payload
	var list []string
	how := c.Choose(6) // the port ends, by its last word, by itself, or the channel ends, or both, or fails, or a message is bad
	n := most
	if pre == 0 {
		n = c.Choose(most + 1)
	}
	odd := -1
	if pre == 0 {
		odd = c.Choose(n+2) - 1
	}
	for i := 0; i <= n; i++ {
		if i == odd {
			switch c.Choose(3) {
			case 0: // of no port it has
				in = append(in, port("word", []byte(str("no")), true, true))
			case 1: // not a value
				in = append(in, port("words", []byte(str("no")), false, false))
			case 2: // not a port
				in = append(in, port("", nil, true, false))
			}
		}
		if i < n {
			w := mc.Pick(c, []string{"A", "b", "B", "the", "é"})
			list = append(list, w)
			in = append(in, port("words", []byte(str(w)), true, how == 0 && i == n-1))
		}
	}
	end, bad := "never", false
	switch how {
	case 0:
		if n == 0 {
			c.Skip()
		}
	case 1:
		in = append(in, port("words", nil, false, true))
	case 2:
		end = "complete"
	case 3:
		in = append(in, port("words", nil, false, true))
		end = "complete"
	case 4:
		end = "error"
	case 5:
		bad = true
		switch c.Choose(4) {
		case 0:
			in = append(in, payload.New([]byte(str("b"))))
		case 1:
			in = append(in, payload.New([]byte(str("b")), []byte{1, 0, 5, 'w'}))
		case 2:
			in = append(in, port("words", []byte{0xa2, 'b'}, true, false))
		case 3:
			in = append(in, port("words", []byte{7}, true, true))
		}
	}
	thread := c.Bool()
	run(c, pre, func(client, _ *handler.Handler) {
		out := talk(client, "words", in, end, thread)
		vsched.Quiesce()
		ms := messages(out)
		if bad || end == "error" {
			cause := "its input fails"
			if bad {
				cause = "it gets a bad message"
			}
			if len(ms) == 0 && out.n == 0 {
				c.FailKey("words "+cause, "the component word-frequency answers nothing, not even an error, when %s", cause)
			}
			if len(ms) != 0 || out.n != 1 || !strings.HasPrefix(out.end, "error: ") || !bad && out.end != "error: "+failed {
				vsched.Fail("the words %q and a failure were answered with %q, end %q (%d times)", list, ms, out.end, out.n)
			}
			return
		}
		want := counts(list)
		if out.end != "complete" || out.n != 1 || len(ms) != len(want)+1 {
			vsched.Fail("the words %q were answered with %q, end %q (%d times)", list, ms, out.end, out.n)
		}
		last := uint64(1 << 62)
		for _, m := range ms[:len(ms)-1] {
			w, n, ok := wordCount(m.data)
			if !ok || m.port != "counts" || !m.next || m.complete || n == 0 || want[w] != n || n > last {
				vsched.Fail("the words %q were answered with %q", list, ms)
			}
			last = n
			delete(want, w)
		}
		if m := ms[len(ms)-1]; m.port != "counts" || m.next || !m.complete || m.data != "" {
			vsched.Fail("the counts of %q ended with %q", list, m)
		}
	})
}

// wordCount reads {"word": text, "count": number}.
func wordCount(data string) (word string, n uint64, ok bool) {
	v, size, ok := mp.Decode([]byte(data))
	if !ok || size != len(data) || v.Kind != mp.Map || len(v.Elems) != 4 {
		return "", 0, false
	}
	for i := 0; i < 4; i += 2 {
		k, x := v.Elems[i], v.Elems[i+1]
		switch {
		case k.Kind == mp.Str && string(k.S) == "word" && x.Kind == mp.Str:
			word = string(x.S)
		case k.Kind == mp.Str && string(k.S) == "count" && x.Kind == mp.Int && x.I.IsUint64():
			n = x.I.Uint64()
		default:
			return "", 0, false
		}
	}
	return word, n, true
}

func single(c *mc.Ctx, pre int) {
	comp := mc.Pick(c, []string{"concat", "greeter"})
	from, to := "strings", "value"
	if comp == "greeter" {
		from, to = "name", "message"
	}
	a, b := "A", "b"
	if pre == 0 {
		a, b = mc.Pick(c, texts), mc.Pick(c, texts)
		if comp == "greeter" && b != "" {
			c.Skip()
		}
	}
	value := fields(str("left"), str(a), str("right"), str(b))
	if pre == 0 && comp == "concat" {
		switch c.Choose(3) {
		case 1:
			value = fields(str("right"), str(b), str("left"), str(a))
		case 2:
			value = fields(str("left"), str(a), str("middle"), fields(str("left"), str("no")), str("right"), str(b))
		}
	}
	want := str(a + " " + b)
	if comp == "greeter" {
		value, want = str(a), str("Hello, "+a)
	}
	var in []payload.Payload
	if pre == 0 {
		switch c.Choose(4) {
		case 1:
			in = append(in, port("other", []byte(value), true, true))
		case 2:
			in = append(in, port(from, []byte(value), false, false))
		case 3:
			in = append(in, port(to, []byte(value), true, false))
		}
	}
	how := c.Choose(5) // a value, two, none, a bad message before it, one after it
	bad := []payload.Payload{payload.New([]byte(value)), payload.New([]byte(value), []byte{1, 0}), port(from, []byte(value)[:len(value)-1], true, false), port(from, []byte{0xc3}, true, false)}
	good := port(from, []byte(value), true, c.Bool())
	ok, failure := true, ""
	switch how {
	case 0:
		in = append(in, good)
	case 1:
		in = append(in, good, port(from, []byte(value), true, true))
	case 2:
		ok = false
	case 3:
		in = append(in, mc.Pick(c, bad), good)
		ok, failure = false, "any"
	case 4:
		in = append(in, good, mc.Pick(c, bad))
	}
	end := mc.Pick(c, ends)
	if how == 2 && end == "never" {
		c.Skip()
	}
	thread := c.Bool()
	run(c, pre, func(client, _ *handler.Handler) {
		out := talk(client, comp, in, end, thread)
		vsched.Quiesce()
		ms := messages(out)
		cause := "its input ends without a value"
		switch {
		case how == 3:
			cause = "it gets a bad message"
		case end == "error":
			cause = "its input fails"
		}
		switch {
		case !ok && len(ms) == 0 && out.n == 0:
			c.FailKey(comp+" "+cause, "the component %s answers nothing, not even an error, when %s", comp, cause)
		case ok:
			if len(ms) != 1 || ms[0] != (message{to, true, true, want}) || out.end != "complete" || out.n != 1 {
				vsched.Fail("%s of %q, %q answered %q, end %q (%d times)", comp, a, b, ms, out.end, out.n)
			}
		case len(ms) != 0 || out.n != 1 || !strings.HasPrefix(out.end, "error: ") || failure == "" && end == "error" && out.end != "error: "+failed:
			vsched.Fail("%s without a value answered %q, end %q (%d times)", comp, ms, out.end, out.n)
		}
	})
}
