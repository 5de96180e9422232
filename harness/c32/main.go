// C32: no sequence of frames of the other side does harm.
package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/nanobus/iota/go/zzverif/mc"
	"github.com/nanobus/iota/go/zzverif/neutral"
	"github.com/nanobus/iota/go/zzverif/vsched"
	"github.com/nanobus/iota/go/zzverif/wire"
)

const (
	good = "\x00\x00\x00\x00\x00\x00\x00\x00"
	bad  = "\x00\x00\x00\x09\x00\x00\x00\x00"
	far  = "\x00\x01\x00\x00\x00\x00\x00\x00" // the lower bits are those of good
	many = 0x7fffffff
)

// src is a source of two values; what it does and, by the model, should do.
type src struct {
	put       func(string) // the model's: a value
	end       func()
	sink      neutral.Sink
	emitted   int
	done      bool
	cancelled int
}

func (s *src) request(n int) {
	for ; n > 0 && s.emitted < 2 && !s.done && s.cancelled == 0; n-- {
		s.emitted++
		s.put(fmt.Sprint("v", s.emitted))
	}
	if s.emitted == 2 && !s.done && s.cancelled == 0 {
		s.done = true
		s.end()
	}
}

func (s *src) source() neutral.Source {
	return neutral.Source{Create: func(k neutral.Sink) {
		s.put = func(d string) { k.Next(neutral.Payload{Data: d}) }
		s.end = k.Complete
		k.OnSubscribe(s.request, func() { s.cancelled++ })
	}}
}

func (s *src) cancel() {
	if !s.done && s.cancelled == 0 {
		s.cancelled++
	}
}

// log is what a subscriber hears.
type log struct {
	vals []string
	term string
}

func (l *log) next(d string) { l.vals = append(l.vals, d) }
func (l *log) end(t string) {
	vsched.Logf("hears %s", t)
	if l.term != "" {
		vsched.Fail("a subscriber hears %s after %s", t, l.term)
	}
	l.term = t
}

func (l *log) String() string { return fmt.Sprintf("%q %s", l.vals, l.term) }

func (l *log) sub() neutral.Sub {
	return neutral.Sub{
		OnNext: func(p neutral.Payload) {
			vsched.Logf("hears value %s", p.Data)
			if l.term != "" {
				vsched.Fail("a subscriber hears a value after %s", l.term)
			}
			l.next(p.Data)
		},
		OnComplete: func() { l.end("complete") },
		OnError:    func(e string) { l.end("error " + e) },
	}
}

// stream is a request and what belongs to it, really or by the model.
type stream struct {
	kind    wire.Kind
	id      uint32
	local   bool
	hears   log // of a local one: the answer; else the input
	src     src // of a local channel: its input; else the answer
	live    bool
	out, in bool // the model's: answer or input still to end
}

type world struct {
	*end
	sent   []wire.Frame
	served []*stream
	fnf    []string
	locals []*stream
	subs   []neutral.Control
}

func (w *world) sends(f wire.Frame) {
	vsched.Logf("sends %v", f)
	w.sent = append(w.sent, f)
}

func (w *world) handlers() *neutral.Handlers {
	add := func(k wire.Kind) *stream {
		s := &stream{kind: k}
		w.served = append(w.served, s)
		return s
	}
	return &neutral.Handlers{
		RR: func(p neutral.Payload) neutral.Answer {
			add(wire.RequestResponse)
			return neutral.Answer{Just: &neutral.Payload{Data: "re " + p.Data}}
		},
		FNF: func(p neutral.Payload) { w.fnf = append(w.fnf, p.Data) },
		RS:  func(p neutral.Payload) neutral.Source { return add(wire.RequestStream).src.source() },
		RC: func(p neutral.Payload, in neutral.Flux) neutral.Source {
			s := add(wire.RequestChannel)
			in.Subscribe(s.hears.sub())
			return s.src.source()
		},
	}
}

// call makes a local request.
func (w *world) call(k wire.Kind) *stream {
	s := &stream{kind: k, local: true}
	w.locals = append(w.locals, s)
	p := neutral.Payload{Meta: good, Data: "ask"}
	n := len(w.sent)
	var ctl neutral.Control
	sub := s.hears.sub()
	switch k {
	case wire.RequestResponse:
		w.RequestResponse(p).Subscribe(func(p neutral.Payload) { s.hears.next(p.Data); s.hears.end("complete") }, sub.OnError, nil)
	case wire.RequestStream:
		f := w.RequestStream(p)
		f.Subscribe(sub)
		ctl = f.Subscription()
	case wire.RequestChannel:
		f := w.RequestChannel(p, s.src.source())
		f.Subscribe(sub)
		ctl = f.Subscription()
	}
	w.subs = append(w.subs, ctl)
	vsched.Quiesce()
	if len(w.sent) != n+1 || w.sent[n].Kind != k {
		vsched.Fail("a request was sent as %v", w.sent[n:])
	}
	s.id = w.sent[n].ID
	return s
}

// model says what should have happened.
type model struct {
	sent    []string
	served  []*stream
	fnf     int
	locals  []*stream
	streams map[uint32]*stream
}

func show(f wire.Frame) string {
	d := string(f.Data)
	if f.Kind == wire.Error {
		d = ""
	}
	if f.Kind == wire.RequestResponse || f.Kind == wire.RequestStream {
		f.Complete = false
	}
	if f.Kind == wire.RequestResponse || f.Kind == wire.Payload {
		f.N = 0
	}
	return fmt.Sprintf("%v %d %d %v %v %s", f.Kind, f.ID, f.N, f.Next, f.Complete, d)
}

func (m *model) sends(f wire.Frame) { m.sent = append(m.sent, show(f)) }

func (m *model) settle(s *stream) {
	if s.live && !s.out && !s.in {
		s.live = false
		delete(m.streams, s.id)
	}
}

func (m *model) emits(s *stream) {
	s.src.put = func(d string) { m.sends(wire.Frame{Kind: wire.Payload, ID: s.id, Next: true, Data: []byte(d)}) }
	s.src.end = func() {
		m.sends(wire.Frame{Kind: wire.Payload, ID: s.id, Complete: true})
		if s.local {
			s.in = false
		} else {
			s.out = false
		}
		m.settle(s)
	}
}

func (m *model) call(k wire.Kind, id uint32) *stream {
	s := &stream{kind: k, id: id, local: true, live: true, out: true, in: k == wire.RequestChannel}
	m.emits(s)
	m.locals = append(m.locals, s)
	m.streams[id] = s
	return s
}

func (s *stream) finish(t string) {
	if s.hears.term == "" {
		s.hears.term = t
	}
}

// cancel is by the local subscriber.
func (m *model) cancel(s *stream) {
	if s.hears.term != "" || !s.live || s.kind == wire.RequestResponse {
		return
	}
	m.sends(wire.Frame{Kind: wire.Cancel, ID: s.id})
	if s.in {
		s.src.cancel()
	}
	s.hears.term = "cancelled"
	s.in, s.out = false, false
	m.settle(s)
}

// takes is a frame that arrives.
func (m *model) takes(f wire.Frame) {
	if f.Kind.IsRequest() {
		if f.Kind == wire.RequestFNF {
			if string(f.Metadata) == good {
				m.fnf++
			}
			return
		}
		if m.streams[f.ID] != nil && f.Kind != wire.RequestResponse { // in use
			return
		}
		if string(f.Metadata) != good {
			m.sends(wire.Frame{Kind: wire.Error, ID: f.ID})
			return
		}
		s := &stream{kind: f.Kind, id: f.ID, live: true, out: true, in: f.Kind == wire.RequestChannel}
		m.served = append(m.served, s)
		if f.Kind == wire.RequestResponse {
			m.sends(wire.Frame{Kind: wire.Payload, ID: f.ID, Next: true, Complete: true, Data: []byte("re " + string(f.Data))})
			return
		}
		m.streams[f.ID] = s
		m.emits(s)
		if s.in {
			m.sends(wire.Frame{Kind: wire.RequestN, ID: s.id, N: many})
		}
		s.src.request(int(f.N))
		return
	}
	s := m.streams[f.ID]
	if s == nil {
		return
	}
	switch f.Kind {
	case wire.RequestN:
		if !s.local || s.kind == wire.RequestChannel {
			if s.local && !s.in {
				return
			}
			s.src.request(int(f.N))
		}
	case wire.Cancel:
		switch {
		case !s.local:
			s.src.cancel()
			if s.in {
				s.finish("complete")
			}
			s.in, s.out = false, false
		case s.kind == wire.RequestChannel:
			s.src.cancel()
			s.in = false
		}
	case wire.Payload:
		if s.kind == wire.RequestResponse {
			if f.Next || f.Complete {
				d := ""
				if f.Next {
					d = string(f.Data)
				}
				s.hears.next(d)
				s.finish("complete")
				s.out = false
			}
			break
		}
		open := &s.out
		if !s.local {
			open = &s.in
		}
		if f.Next && *open {
			s.hears.next(string(f.Data))
		}
		if f.Complete && *open {
			s.finish("complete")
			*open = false
		}
	case wire.Error:
		switch {
		case s.local:
			if s.out {
				s.finish("error " + string(f.Data))
			}
			if s.in {
				s.src.cancel()
			}
			s.in, s.out = false, false
		case s.in:
			s.finish("error " + string(f.Data))
			s.in = false
		}
	}
	m.settle(s)
}

func sameSrc(a, b *src) bool {
	return a.emitted == b.emitted && a.done == b.done && a.cancelled == b.cancelled
}

// compare checks the world against the model.
func (w *world) compare(m *model) {
	var sent []string
	for _, f := range w.sent {
		sent = append(sent, show(f))
	}
	want := append([]string(nil), m.sent...)
	sort.Strings(sent)
	sort.Strings(want)
	if a, b := strings.Join(sent, ", "), strings.Join(want, ", "); a != b {
		vsched.Fail("sent:\n %s\nshould be:\n %s", strings.Join(sent, "\n "), strings.Join(want, "\n "))
	}
	if len(w.fnf) != m.fnf {
		vsched.Fail("%d messages reached the handler instead of %d", len(w.fnf), m.fnf)
	}
	if len(w.served) != len(m.served) {
		vsched.Fail("%d requests reached handlers instead of %d", len(w.served), len(m.served))
	}
	for i, s := range w.served {
		x := m.served[i]
		if s.kind != x.kind || s.hears.String() != x.hears.String() || !sameSrc(&s.src, &x.src) {
			vsched.Fail("request %d served, a %v: input %v, source %v; should be a %v: %v, %v", i, s.kind, &s.hears, s.src.String(), x.kind, &x.hears, x.src.String())
		}
	}
	for i, s := range w.locals {
		x := m.locals[i]
		term := x.hears.term
		if term == "cancelled" {
			term = ""
		}
		if fmt.Sprint(s.hears.vals) != fmt.Sprint(x.hears.vals) || s.hears.term != term || !sameSrc(&s.src, &x.src) {
			vsched.Fail("request %d made, a %v, hears %v, source %v; should be: %v, %v", i, s.kind, &s.hears, s.src.String(), &x.hears, x.src.String())
		}
	}
}

func (s *src) String() string {
	return fmt.Sprintf("emitted %d, done %v, cancelled %d", s.emitted, s.done, s.cancelled)
}

// event is something that happens.
type event struct {
	name  string
	frame func(ids [4]uint32) wire.Frame // of the ids L1, L2, R, U
	local int                            // local request that is cancelled
}

func frame(which int, f wire.Frame) event {
	return event{name: fmt.Sprint([]string{"L1", "L2", "R", "U", "0"}[which], " ", f), frame: func(ids [4]uint32) wire.Frame {
		if which < 4 {
			f.ID = ids[which]
		}
		return f
	}, local: -1}
}

func events() (es []event) {
	reqN := func(n uint32) wire.Frame { return wire.Frame{Kind: wire.RequestN, N: n} }
	pay := func(n, c bool) wire.Frame {
		f := wire.Frame{Kind: wire.Payload, Next: n, Complete: c}
		if n {
			f.Data = []byte("x")
		}
		return f
	}
	request := func(k wire.Kind, m string) wire.Frame {
		f := wire.Frame{Kind: k, Metadata: []byte(m), Data: []byte("q")}
		if k.HasN() {
			f.N = 1
		}
		return f
	}
	cancel := wire.Frame{Kind: wire.Cancel}
	fail := wire.Frame{Kind: wire.Error, Code: 0x201, Data: []byte("oops")}
	add := func(which int, fs ...wire.Frame) {
		for _, f := range fs {
			es = append(es, frame(which, f))
		}
	}
	add(0, reqN(1), reqN(many), cancel, pay(true, false), pay(false, true), pay(true, true), pay(false, false), fail,
		request(wire.RequestStream, good), request(wire.RequestChannel, good), request(wire.RequestStream, bad), request(wire.RequestChannel, ""))
	es = append(es, event{name: "L1 is cancelled here", local: 0})
	add(1, pay(true, false), pay(false, true), fail, cancel)
	add(2, request(wire.RequestResponse, good), request(wire.RequestResponse, bad), request(wire.RequestFNF, good), request(wire.RequestFNF, "abc"),
		request(wire.RequestStream, good), request(wire.RequestStream, bad), request(wire.RequestChannel, good), request(wire.RequestChannel, far),
		reqN(1), reqN(many), cancel, pay(true, false), pay(false, true), pay(true, true), fail)
	add(3, reqN(1), cancel, pay(true, true), fail)
	add(4, cancel, pay(true, true), fail)
	return es
}

var all = events()

func setup(which int, kinds []wire.Kind) (*world, *model, [4]uint32) {
	w := &world{}
	cur = w
	w.end = newEnd(w, which)
	m := &model{streams: map[uint32]*stream{}}
	var ids [4]uint32
	for i, k := range kinds {
		s := w.call(k)
		m.sends(wire.Frame{Kind: k, ID: s.id, N: w.sent[i].N, Data: []byte("ask")})
		m.call(k, s.id)
		ids[i] = s.id
	}
	// Of the other side, and one of this side that is not in use.
	ids[2], ids[3] = 101+ids[0]&1, 100+ids[0]&1
	return w, m, ids
}

func (w *world) happens(e event, m *model, ids [4]uint32) {
	vsched.Logf("--- %s", e.name)
	if e.local >= 0 {
		m.cancel(m.locals[e.local])
		if c := w.subs[e.local]; c != nil && w.locals[e.local].hears.term == "" {
			c.Cancel()
		}
		return
	}
	f := e.frame(ids)
	m.takes(f)
	w.deliver(f)
}

// goesOn checks that everything still works.
func (w *world) goesOn(m *model, ids [4]uint32) {
	for _, s := range m.locals {
		for _, f := range []wire.Frame{{Kind: wire.Payload, Next: true, Data: []byte("last")}, {Kind: wire.Payload, Complete: true}, {Kind: wire.Cancel}} {
			f.ID = s.id
			if x := m.streams[s.id]; x == s {
				m.takes(f)
				w.deliver(f)
				vsched.Quiesce()
			}
		}
		if s.live {
			vsched.Fail("the model has request %d open", s.id)
		}
	}
	if s := m.streams[ids[2]]; s != nil {
		f := wire.Frame{Kind: wire.Cancel, ID: s.id}
		m.takes(f)
		w.deliver(f)
		vsched.Quiesce()
	}
	f := wire.Frame{Kind: wire.RequestStream, ID: ids[2], N: 1, Metadata: []byte(good)}
	m.takes(f)
	w.deliver(f)
	vsched.Quiesce()
	f = wire.Frame{Kind: wire.RequestN, ID: ids[2], N: 1}
	m.takes(f)
	w.deliver(f)
	vsched.Quiesce()
	s := w.call(wire.RequestResponse)
	for _, id := range ids {
		if id == s.id {
			vsched.Fail("id %d was given out again", id)
		}
	}
	m.sends(wire.Frame{Kind: wire.RequestResponse, ID: s.id, Data: []byte("ask")})
	m.call(wire.RequestResponse, s.id)
	f = wire.Frame{Kind: wire.Payload, Next: true, Complete: true, ID: s.id, Data: []byte("fine")}
	m.takes(f)
	w.deliver(f)
	vsched.Quiesce()
	w.compare(m)
}

// ends checks that the end of the connection ends everything.
func (w *world) ends(m *model) {
	w.close()
	vsched.Quiesce()
	for i, s := range w.locals {
		if m.locals[i].hears.term != "cancelled" && s.hears.term == "" {
			vsched.Fail("request %d, a %v, does not end with the connection", i, s.kind)
		}
		if x := m.locals[i]; x.live && x.in && s.src.cancelled != 1 {
			vsched.Fail("the source of request %d was cancelled %d times at the end", i, s.src.cancelled)
		}
	}
	for i, s := range w.served {
		x := m.served[i]
		if s.kind == wire.RequestResponse {
			continue
		}
		if x.live && x.in && s.hears.term == "" {
			vsched.Fail("the input of request %d served does not end with the connection", i)
		}
		if x.live && x.out && s.src.cancelled != 1 {
			vsched.Fail("the source of request %d served was cancelled %d times at the end", i, s.src.cancelled)
		}
	}
}

// roughly compares what does not depend on the schedule.
func (w *world) roughly(m *model, cancel bool) {
	for i, s := range w.locals {
		x := m.locals[i]
		if cancel && i == 1 {
			if len(s.hears.vals) > len(x.hears.vals) {
				vsched.Fail("request 1 hears %v, should at most be %v", &s.hears, &x.hears)
			}
			continue
		}
		if s.hears.String() != x.hears.String() {
			vsched.Fail("request %d made, a %v, hears %v; should be: %v", i, s.kind, &s.hears, &x.hears)
		}
	}
	if len(w.fnf) != m.fnf || len(w.served) != len(m.served) {
		vsched.Fail("%d messages and %d requests reached handlers instead of %d and %d", len(w.fnf), len(w.served), m.fnf, len(m.served))
	}
	for _, x := range m.served {
		for _, s := range w.served {
			if s.kind == x.kind && s.hears.String() != x.hears.String() {
				vsched.Fail("the input of a %v is %v instead of %v", s.kind, &s.hears, &x.hears)
			}
			if s.kind == x.kind && (s.src.emitted > x.src.emitted || s.src.cancelled > 1) {
				vsched.Fail("the source of a %v: %v, should be at most %v", s.kind, &s.src, &x.src)
			}
		}
	}
}

// allEnded checks that nothing is left after the end of the connection.
func (w *world) allEnded(cancel bool) {
	for i, s := range w.locals {
		if s.hears.term == "" && !(cancel && i == 1) {
			vsched.Fail("request %d, a %v, does not end with the connection", i, s.kind)
		}
		if s.kind == wire.RequestChannel && !s.src.done && s.src.cancelled != 1 {
			vsched.Fail("the source of request %d: %v after the end", i, &s.src)
		}
	}
	for i, s := range w.served {
		if s.kind == wire.RequestResponse {
			continue
		}
		if s.kind == wire.RequestChannel && s.hears.term == "" {
			vsched.Fail("the input of request %d served does not end with the connection", i)
		}
		if !s.src.done && s.src.cancelled != 1 {
			vsched.Fail("the source of request %d served: %v after the end", i, &s.src)
		}
	}
}

// broken are the frames that are cut short.
func broken(ids [4]uint32) (out []cutFrame) {
	var fs []wire.Frame
	for i, k := range []wire.Kind{wire.RequestResponse, wire.RequestFNF, wire.RequestStream, wire.RequestChannel} {
		f := wire.Frame{Kind: k, ID: ids[2] + 2*uint32(i), Metadata: []byte(good)}
		if k.HasN() {
			f.N = 1
		}
		fs = append(fs, f)
	}
	for _, id := range ids[:2] {
		fs = append(fs, wire.Frame{Kind: wire.Payload, ID: id, Next: true, Metadata: []byte(good)},
			wire.Frame{Kind: wire.Payload, ID: id, Next: true, Complete: true, Metadata: []byte("abc")},
			wire.Frame{Kind: wire.RequestN, ID: id, N: 1}, wire.Frame{Kind: wire.Error, ID: id, Code: 0x201})
	}
	fs = append(fs, wire.Frame{Kind: wire.Cancel, ID: ids[0]})
	for _, f := range fs {
		e := wire.Encode(f)
		for cut := range e {
			out = append(out, cutFrame{f, append(wire.U24(cut), e[:cut]...), cut})
		}
		for _, more := range []int{1, 1 << 10, 1<<24 - 1 - len(e)} { // the rest never comes
			out = append(out, cutFrame{f, append(wire.U24(len(e)+more), e...), -1})
		}
	}
	return out
}

type cutFrame struct {
	f   wire.Frame
	b   []byte
	cut int
}

func nBroken() int { return len(broken([4]uint32{1, 3, 2, 4})) }

// takesBroken delivers a broken frame, alone or with a good one before or after
// it.
func takesBroken(c *mc.Ctx, which int, kinds []wire.Kind, i, how int) {
	w, _, ids := setup(which, kinds)
	x := broken(ids)[i]
	id := 1000 + ids[2]
	fine := packed(wire.Frame{Kind: wire.RequestResponse, ID: id, Metadata: []byte(good), Data: []byte("q")})
	k := len(w.sent)
	vsched.Logf("--- %v cut at %d", x.f, x.cut)
	heard := how == 1 || how == 2
	switch how {
	case 0:
		w.raw(x.b)
	case 1:
		w.raw(append(fine, x.b...))
	case 2:
		w.raw(append(append([]byte(nil), x.b...), fine...))
	}
	vsched.Quiesce()
	errs, res := 0, 0
	for _, f := range w.sent[k:] {
		switch {
		case f.Kind == wire.Error && f.ID == x.f.ID && x.cut >= 6:
			errs++
		case f.ID == id && f.Kind == wire.Payload && string(f.Data) == "re q":
			res++
		default:
			vsched.Fail("sends %v", f)
		}
	}
	request := x.f.Kind.IsRequest() && x.f.Kind != wire.RequestFNF
	switch {
	case errs > 1 || request && x.cut >= 6 && errs == 0:
		vsched.Fail("a broken %v is answered with %d errors", x.f.Kind, errs)
	case heard && res != 1:
		vsched.Fail("the request sent with it is answered %d times", res)
	case len(w.served) != res || len(w.fnf) != 0:
		vsched.Fail("handlers run %d and %d times", len(w.served), len(w.fnf))
	}
	// The request that it is of hears no value; the other hears nothing, and goes on.
	for n, l := range w.locals {
		if len(l.hears.vals) > 0 || l.hears.term == "complete" || l.hears.term != "" && l.id != x.f.ID {
			vsched.Fail("request %d hears %v", n, &l.hears)
		}
		f := wire.Frame{Kind: wire.Payload, ID: l.id, Next: true, Complete: true, Data: []byte("x")}
		ended := l.hears.term != ""
		w.deliver(f)
		vsched.Quiesce()
		if l.kind == wire.RequestChannel && l.src.cancelled == 0 && !l.src.done {
			w.deliver(wire.Frame{Kind: wire.Cancel, ID: l.id})
			vsched.Quiesce()
		}
		if !ended && l.id != x.f.ID && l.hears.String() != `["x"] complete` {
			vsched.Fail("request %d, another one, hears %v", n, &l.hears)
		}
	}
	k = len(w.sent)
	w.deliver(wire.Frame{Kind: wire.RequestResponse, ID: id + 2, Metadata: []byte(good), Data: []byte("p")})
	vsched.Quiesce()
	if got := w.sent[k:]; len(got) != 1 || string(got[0].Data) != "re p" || got[0].ID != id+2 {
		vsched.Fail("then a request is answered with %v", got)
	}
	if w.close != nil {
		w.close()
		vsched.Quiesce()
		w.allEnded(false)
	}
	c.State(fmt.Sprint(x.f.Kind, x.cut, errs, res))
}

func main() {
	kinds := []wire.Kind{wire.RequestResponse, wire.RequestStream, wire.RequestChannel}
	depth := mc.Bound(3, 4)
	mc.Main(mc.Config{
		ID:     "C32",
		Rule:   "all sequences of frames of every kind, for streams of either side, ended, unknown and in use, with two requests of every kind pending, on every implementation of an endpoint; all interleavings of short ones",
		Bounds: fmt.Sprintf("%d events, sequences of <=%d (the pending channel) and <=%d frames, 2 pending requests, 4 endpoints; %d broken frames", len(all), depth, depth-1, nBroken()),
		Scenarios: []mc.Scenario{
			{Name: "sequences", Body: func(c *mc.Ctx) {
				which := c.Choose(4)
				k1, k2 := mc.Pick(c, kinds), mc.Pick(c, kinds[:2])
				closing := which != 3 && c.Bool()
				n := depth
				if closing || k2 != wire.RequestResponse {
					n--
				}
				var seq []event
				for i := 0; i < n; i++ {
					seq = append(seq, mc.Pick(c, all))
				}
				vsched.Run(c, vsched.Options{}, func() {
					w, m, ids := setup(which, []wire.Kind{k1, k2})
					for _, e := range seq {
						w.happens(e, m, ids)
						vsched.Quiesce()
						w.compare(m)
					}
					if closing {
						w.ends(m)
					} else {
						w.goesOn(m, ids)
					}
					c.State(fmt.Sprint(m.sent, m.locals[0].hears))
				})
			}},
			{Name: "broken frames", Body: func(c *mc.Ctx) {
				which := 2 + c.Choose(2)
				ks := []wire.Kind{mc.Pick(c, kinds), mc.Pick(c, kinds)}
				i, how := c.Choose(nBroken()), c.Choose(3)
				if how == 2 && broken([4]uint32{1, 3, 2, 4})[i].cut < 0 { // what follows is part of it
					c.Skip()
				}
				vsched.Run(c, vsched.Options{}, func() { takesBroken(c, which, ks, i, how) })
			}},
			{Name: "schedules", Body: func(c *mc.Ctx) {
				which := c.Choose(3)
				ks := []wire.Kind{wire.RequestChannel, wire.RequestStream}
				n := 2
				if mc.Thorough() {
					ks[0] = mc.Pick(c, kinds)
					n += c.Choose(2)
				}
				var seq []event
				reqs := 0
				for i := 0; i < n; i++ {
					e := mc.Pick(c, all)
					if e.local >= 0 {
						c.Skip()
					}
					if f := e.frame([4]uint32{}); f.Kind.HasN() && strings.HasPrefix(e.name, "R") {
						reqs++
					}
					seq = append(seq, e)
				}
				if reqs > 1 { // whether the second is served depends on the first
					c.Skip()
				}
				cancel := (which == 0 || mc.Thorough()) && c.Bool()
				vsched.Run(c, vsched.Options{Preemptions: 1, Fine: true}, func() {
					w, m, ids := setup(which, ks)
					if cancel {
						vsched.GoNamed("cancel", func() {
							if l := w.subs[1]; l != nil {
								vsched.Logf("cancels")
								l.Cancel()
							}
						})
					}
					var fs []wire.Frame
					for _, e := range seq {
						f := e.frame(ids)
						fs = append(fs, f)
						m.takes(f)
					}
					w.deliver(fs...)
					vsched.Quiesce()
					w.roughly(m, cancel)
					f := wire.Frame{Kind: wire.RequestResponse, ID: 1000 + ids[2], Metadata: []byte(good), Data: []byte("q")}
					k := len(w.sent)
					w.deliver(f)
					vsched.Quiesce()
					if got := w.sent[k:]; len(got) != 1 || string(got[0].Data) != "re q" {
						vsched.Fail("a request is answered with %v", got)
					}
					w.close()
					vsched.Quiesce()
					w.allEnded(cancel)
					c.State(fmt.Sprint(len(w.sent), w.locals[0].hears, w.locals[1].hears))
				})
			}},
		},
		Assumptions: []string{"what is no frame is sent to the WebAssembly host and guest, where it is cut short at every byte; C02, C04, C23 cover the rest"},
	})
}
