// Package peer adapts the reactive types to package neutral. It is copied to
// gpeer on top of the guest's packages.
package peer

import (
	"context"
	"errors"

	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/proxy"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/zzverif/neutral"
)

func in(p payload.Payload) neutral.Payload {
	if neutral.Track != nil {
		neutral.Tracked("data", p.Data())
		neutral.Tracked("metadata", p.Metadata())
	}
	return neutral.Payload{Meta: string(p.Metadata()), Data: string(p.Data())}
}

func out(p neutral.Payload) payload.Payload {
	return payload.New([]byte(p.Data), []byte(p.Meta))
}

func sig(fn func(string)) rx.FnFinally {
	if fn == nil {
		return nil
	}
	return func(s rx.SignalType) { fn(s.String()) }
}

// Caller makes the requests of C.
type Caller struct {
	C   invoke.Caller
	Ctx context.Context
}

func (c Caller) ctx() context.Context {
	if c.Ctx != nil {
		return c.Ctx
	}
	return context.Background()
}

func (c Caller) RequestResponse(p neutral.Payload) neutral.Mono {
	m := c.C.RequestResponse(c.ctx(), out(p))
	neutral.Tracked("mono", m)
	return Mono{m}
}

func (c Caller) FireAndForget(p neutral.Payload) { c.C.FireAndForget(c.ctx(), out(p)) }

func (c Caller) RequestStream(p neutral.Payload) neutral.Flux {
	f := c.C.RequestStream(c.ctx(), out(p))
	neutral.Tracked("flux", f)
	return Flux{f}
}

func (c Caller) RequestChannel(p neutral.Payload, s neutral.Source) neutral.Flux {
	f := c.C.RequestChannel(c.ctx(), out(p), source(s, nil))
	neutral.Tracked("flux", f)
	return Flux{f}
}

// Mono is a neutral.Mono.
type Mono struct{ M mono.Mono[payload.Payload] }

func (m Mono) Subscribe(ok func(neutral.Payload), fail func(string), finally func(string)) {
	m.M.Subscribe(mono.Subscribe[payload.Payload]{
		OnSuccess: func(p payload.Payload) { ok(in(p)) },
		OnError:   func(err error) { fail(err.Error()) },
		Finally:   sig(finally),
	})
}

func (m Mono) Async()                 { m.M.Async() }
func (m Mono) Notify(fn func(string)) { m.M.Notify(sig(fn)) }

func (m Mono) Get() (neutral.Payload, string, bool) {
	p, err := m.M.Get()
	if err != nil {
		return neutral.Payload{}, err.Error(), false
	}
	return in(p), "", true
}

// Flux is a neutral.Flux.
type Flux struct{ F flux.Flux[payload.Payload] }

func sub(s neutral.Sub) flux.Subscribe[payload.Payload] {
	fs := flux.Subscribe[payload.Payload]{NoRequest: s.NoRequest, OnComplete: s.OnComplete, Finally: sig(s.Finally)}
	if s.OnNext != nil {
		fs.OnNext = func(p payload.Payload) { s.OnNext(in(p)) }
	}
	if s.OnError != nil {
		fs.OnError = func(err error) { s.OnError(err.Error()) }
	}
	if s.OnRequest != nil {
		fs.OnRequest = func(c rx.Subscription) {
			neutral.Tracked("subscription", c)
			s.OnRequest(c)
		}
	}
	return fs
}

func (f Flux) Subscribe(s neutral.Sub)       { f.F.Subscribe(sub(s)) }
func (f Flux) Subscription() neutral.Control { return f.F.Subscription() }
func (f Flux) Async()                        { f.F.Async() }
func (f Flux) Notify(fn func(string))        { f.F.Notify(sig(fn)) }

type sink struct{ s flux.Sink[payload.Payload] }

func (s sink) Next(p neutral.Payload) { s.s.Next(out(p)) }
func (s sink) Complete()              { s.s.Complete() }
func (s sink) Error(e string)         { s.s.Error(errors.New(e)) }
func (s sink) OnSubscribe(request func(int), cancel func()) {
	s.s.OnSubscribe(flux.OnSubscribe{Request: request, Cancel: cancel})
}

func source(s neutral.Source, input flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
	switch {
	case s.Echo:
		return input
	case s.Fail != "":
		return flux.Error[payload.Payload](errors.New(s.Fail))
	case s.Create == nil:
		var ps []payload.Payload
		for _, p := range s.Slice {
			ps = append(ps, out(p))
		}
		return flux.FromSlice(ps)
	}
	return flux.Create(func(k flux.Sink[payload.Payload]) {
		neutral.Tracked("sink", k)
		s.Create(sink{k})
	})
}

func answer(a neutral.Answer) mono.Mono[payload.Payload] {
	switch {
	case a.Fail != "":
		return mono.Error[payload.Payload](errors.New(a.Fail))
	case a.Just != nil:
		return mono.Just(out(*a.Just))
	}
	return mono.Create(func(k mono.Sink[payload.Payload]) {
		a.Create(func(p neutral.Payload) { k.Success(out(p)) }, func(e string) { k.Error(errors.New(e)) })
	})
}

// the handlers as they are when a request arrives.
func now(h func() *neutral.Handlers, ctx context.Context, p payload.Payload) (*neutral.Handlers, neutral.Payload) {
	hs, np := h(), in(p)
	if neutral.Track != nil {
		neutral.Tracked("context", ctx)
		if s, ok := proxy.FromContext(ctx); ok {
			neutral.Tracked("responder", s)
		}
	}
	if hs.Seen != nil {
		c := neutral.Context{Ctx: ctx}
		if s, ok := proxy.FromContext(ctx); ok {
			c.ID, c.Own, c.Has = s.StreamID(), s.Context(), true
		}
		hs.Seen(c, np)
	}
	return hs, np
}

// RR, FNF, RS and RC are the handlers as the endpoint takes them; h is asked
// for at every call.
func RR(h func() *neutral.Handlers) invoke.RequestResponseHandler {
	return func(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
		hs, np := now(h, ctx, p)
		return answer(hs.RR(np))
	}
}

func FNF(h func() *neutral.Handlers) invoke.FireAndForgetHandler {
	return func(ctx context.Context, p payload.Payload) {
		hs, np := now(h, ctx, p)
		hs.FNF(np)
	}
}

func RS(h func() *neutral.Handlers) invoke.RequestStreamHandler {
	return func(ctx context.Context, p payload.Payload) flux.Flux[payload.Payload] {
		hs, np := now(h, ctx, p)
		return source(hs.RS(np), nil)
	}
}

func RC(h func() *neutral.Handlers) invoke.RequestChannelHandler {
	return func(ctx context.Context, p payload.Payload, input flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
		hs, np := now(h, ctx, p)
		return source(hs.RC(np, Flux{input}), input)
	}
}

// Export registers the handlers, each under index 0.
func Export(h func() *neutral.Handlers) {
	invoke.ExportRequestResponse("ns", "rr", RR(h))
	invoke.ExportFireAndForget("ns", "fnf", FNF(h))
	invoke.ExportRequestStream("ns", "rs", RS(h))
	invoke.ExportRequestChannel("ns", "rc", RC(h))
}
