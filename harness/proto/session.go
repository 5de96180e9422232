package proto

import (
	"fmt"
	"strings"

	"github.com/nanobus/iota/go/zzverif/mc"
	"github.com/nanobus/iota/go/zzverif/neutral"
	"github.com/nanobus/iota/go/zzverif/vsched"
	"github.com/nanobus/iota/go/zzverif/wire"
)

// Kinds of calls.
const (
	RR = iota
	FNF
	RS
	RC
)

// Answers of a request/response handler.
const (
	AJust = iota
	AFail
	ASync
	ASyncFail
	AThread
	AThreadFail
	ANever
	ANested // answers when the call Nested has an outcome
	answers
)

// How the requester waits for a response.
const (
	MSub = iota
	MBlock
	MAsync
	MTwice // two subscribers at once
	modes
)

// Odd operations.
const (
	OpOK    = iota
	OpNone  // no such operation
	OpShort // metadata too short to name one
	OpBig   // a request that cannot be sent
	OpFar   // like OpNone; its lower bits are those of one
)

// Call is one request and all that belongs to it.
type Call struct {
	ID     string
	Kind   int
	Op     int
	Answer int
	Big    bool // the answer cannot be sent
	Mode   int
	Out    *Flow // of a stream or channel: the response
	In     *Flow // of a channel: what the requester sends

	Nested  *Call          // a request/response the handler makes
	Turn    int            // when it is answered: after the others with lower turns; 0: at any time
	Waits   bool           // for the outcome, before the handler returns
	By      neutral.Caller // who makes it
	done    func()
	nested  bool
	made    bool
	Meta    string // after the eight bytes that route the request
	handled int
	oks     []neutral.Payload
	fails   []string
	finals  int
	blocked bool
	getErr  string
	tag     string
}

func (c *Call) String() string {
	switch c.Kind {
	case RR:
		return fmt.Sprintf("request/response %s: op %d, answer %d (too big: %v), mode %d", c.ID, c.Op, c.Answer, c.Big, c.Mode)
	case FNF:
		return fmt.Sprintf("fire and forget %s: op %d", c.ID, c.Op)
	case RS:
		return fmt.Sprintf("stream %s: op %d, %v", c.ID, c.Op, c.Out)
	}
	return fmt.Sprintf("channel %s: op %d, %v, %v", c.ID, c.Op, c.Out, c.In)
}

func (c *Call) request() neutral.Payload {
	md := "\x00\x00\x00\x00\x00\x00\x00\x00" + c.Meta
	switch c.Op {
	case OpNone:
		md = "\x00\x00\x00\x07" + md[4:]
	case OpFar:
		md = "\x00\x01\x00\x00" + md[4:]
	case OpShort:
		md = "\x00\x00\x00\x00"
	case OpBig:
		return neutral.Payload{Meta: md, Data: c.ID + "req" + Big}
	}
	return neutral.Payload{Meta: md, Data: c.ID + "req"}
}

func (c *Call) reply() neutral.Payload {
	p := neutral.Payload{Meta: "rm" + c.ID, Data: "reply" + c.ID}
	if c.Big {
		p.Data += Big
	}
	return p
}

func (c *Call) failure() string {
	if c.Big {
		return Big
	}
	return "fail" + c.tag
}

// Add puts calls into the session.
func (s *Session) Add(cs ...*Call) {
	for _, c := range cs {
		c.ID = string(rune('a' + len(s.Calls)%26))
		if n := len(s.Calls) / 26; n > 0 {
			c.ID += fmt.Sprint(n)
		}
		c.tag = c.ID
		if s.byID == nil {
			s.byID = map[string]*Call{}
		}
		s.byID[c.ID] = c
		c.Meta = "meta" + c.tag
		if c.Out != nil {
			c.Out.Name = "out " + c.tag
			c.Out.session, c.Out.alias, c.Out.sink = s, c.Out.Name, c.Out
		}
		if c.In != nil {
			c.In.Name = "in " + c.tag
			c.In.session, c.In.alias, c.In.sink = s, c.In.Name, c.In
			if c.Out.Src == SEcho {
				c.Out.N, c.Out.End, c.In.Sub = c.In.N, c.In.End, -1
				c.Out.alias, c.In.sink = c.In.alias, c.Out
			}
		}
		s.Calls = append(s.Calls, c)
		vsched.Logf("%v", c)
		if c.Nested != nil {
			c.Nested.nested = true
			s.Add(c.Nested)
		}
		for _, f := range []*Flow{c.Out, c.In} {
			if f != nil && f.Nested != nil {
				f.Nested.nested = true
				s.Add(f.Nested)
			}
		}
	}
}

func (s *Session) call(p neutral.Payload, kind int) *Call {
	if c := s.byID[strings.TrimSuffix(p.Data, "req")]; c != nil && p.Data == c.ID+"req" {
		if c.Kind != kind {
			vsched.Fail("%v: handled as a request of kind %d", c, kind)
		}
		full := c.request().Meta
		if p.Meta != full && p.Meta != full[min(8, len(full)):] {
			vsched.Fail("%v: the handler got the metadata %q", c, p.Meta)
		}
		c.handled++
		vsched.Logf("handler %s is called", c.ID)
		if c.handled > 1 {
			vsched.Fail("%v: handled twice", c)
		}
		if c.Op != OpOK {
			vsched.Fail("%v: handled", c)
		}
		if c.Waits {
			c.Nested.await(s, c.By)
			vsched.Logf("handler %s goes on", c.ID)
		}
		return c
	}
	vsched.Fail("a handler got %v, which was not sent", p)
	return nil
}

// turn waits until it is the call's turn.
func (c *Call) turn(s *Session) {
	if c.Turn > 0 && s.blocks() {
		vsched.Wait("turn", func() bool { return s.turn >= c.Turn-1 })
		s.turn = c.Turn
	}
}

// await makes the call and waits for its outcome.
func (c *Call) await(s *Session, by neutral.Caller) {
	settled := false
	c.done = func() { settled = true }
	c.Make(s, by)
	vsched.Wait("call "+c.tag, func() bool { return settled })
}

// Handlers are the handlers of all calls.
func (s *Session) Handlers() *neutral.Handlers {
	return &neutral.Handlers{
		RR: func(p neutral.Payload) neutral.Answer {
			c := s.call(p, RR)
			r := c.reply()
			switch c.Answer {
			case AJust:
				return neutral.Answer{Just: &r}
			case AFail:
				return neutral.Answer{Fail: c.failure()}
			}
			return neutral.Answer{Create: func(ok func(neutral.Payload), fail func(string)) {
				switch c.Answer {
				case ASync:
					ok(r)
				case ASyncFail:
					fail(c.failure())
				case AThread:
					s.Run("answer "+c.tag, func() { c.turn(s); ok(r) })
				case AThreadFail:
					s.Run("answer "+c.tag, func() { c.turn(s); fail(c.failure()) })
				case ANested:
					c.Nested.done = func() { ok(r) }
					c.Nested.Make(s, c.By)
				}
			}}
		},
		FNF: func(p neutral.Payload) { s.call(p, FNF) },
		RS: func(p neutral.Payload) neutral.Source {
			return s.call(p, RS).Out.Source()
		},
		RC: func(p neutral.Payload, in neutral.Flux) neutral.Source {
			c := s.call(p, RC)
			if c.In.Sub >= 0 && c.In.Sub != UNone {
				c.In.Subscribe(in)
			}
			return c.Out.Source()
		},
	}
}

// Make makes the call.
func (c *Call) Make(s *Session, by neutral.Caller) {
	c.made = true
	switch c.Kind {
	case FNF:
		by.FireAndForget(c.request())
	case RR:
		m := by.RequestResponse(c.request())
		ok := func(p neutral.Payload) {
			vsched.Logf("call %s succeeds with %v", c.ID, p)
			c.oks = append(c.oks, p)
		}
		fail := func(e string) {
			vsched.Logf("call %s fails with %s", c.ID, e)
			c.fails = append(c.fails, e)
		}
		fin := func(sig string) {
			c.finals++
			if (sig == "COMPLETE") != (len(c.oks) > 0) || (sig == "ERROR") != (len(c.fails) > 0) {
				vsched.Fail("%v: Finally said %s after %v %v", c, sig, c.oks, c.fails)
			}
			if c.done != nil {
				c.done()
			}
		}
		block := func() {
			c.blocked = true
			s.Run("Block "+c.tag, func() {
				p, e, good := m.(neutral.MonoBlocker).BlockMono()
				c.blocked = false
				if good {
					ok(p)
				} else {
					fail(e)
				}
				c.finals++
			})
		}
		switch c.Mode {
		case MSub:
			m.Subscribe(ok, fail, fin)
		case MBlock:
			block()
		case MAsync:
			m.Async()
			m.Notify(func(sig string) {
				c.finals++
				p, e, good := m.Get()
				if good {
					ok(p)
				} else {
					fail(e)
				}
				if (sig == "COMPLETE") != good {
					vsched.Fail("%v: notified of %s, Get says %v %q", c, sig, p, e)
				}
			})
		case MTwice:
			s.Run("second subscriber "+c.tag, func() { m.Subscribe(ok, fail, fin) })
			m.Subscribe(ok, fail, fin)
		}
	case RS:
		c.Out.Subscribe(by.RequestStream(c.request()))
	case RC:
		c.Out.Subscribe(by.RequestChannel(c.request(), c.In.Source()))
	}
}

// Sides says how the two sides make requests of their own.
func (c *Call) Sides(requester, responder neutral.Caller) {
	c.By = responder
	if c.Out != nil {
		c.Out.By = responder
	}
	if c.In != nil {
		c.In.By = requester
	}
}

// Frame is the request with another stream ID.
func (c *Call) Frame(id uint32) wire.Frame {
	p := c.request()
	return wire.Frame{Kind: [...]wire.Kind{wire.RequestResponse, wire.RequestFNF, wire.RequestStream, wire.RequestChannel}[c.Kind], ID: id, N: 1, Metadata: []byte(p.Meta), Data: []byte(p.Data)}
}

// Handled tells how often it reached its handler.
func (c *Call) Handled() int { return c.handled }

// Over tells whether nothing more can happen to the call.
func (c *Call) Over() bool {
	switch {
	case c.Kind == RR:
		return c.finals > 0
	case c.Kind == FNF:
		return true
	case c.Out.cancelled || c.Out.term == "error" || c.Out.notified == "ERROR":
		return true
	case c.Out.term == "" && c.Out.notified == "":
		return false
	}
	return c.Kind == RS || c.In.ended || c.In.cancelledSrc > 0
}

// Check judges the call when nothing happens any more.
func (c *Call) Check() {
	if c.nested && !c.made {
		return
	}
	want := 1
	if c.Op != OpOK || c.Out != nil && (c.Out.Cancel == CBefore || c.Out.Cancel == CLater && c.Out.issued == 0 || c.Out.Sub == UNone) {
		want = 0
	}
	if c.handled != want && !(c.Out != nil && c.Out.cancelled) {
		vsched.Fail("%v: the handler was called %d times", c, c.handled)
	}
	switch c.Kind {
	case RR:
		n := 1
		if c.Mode == MTwice {
			n = 2
		}
		good := c.Op == OpOK && !c.Big && (c.Answer == AJust || c.Answer == ASync || c.Answer == AThread || c.Answer == ANested)
		if c.Op == OpOK && c.Answer == ANever {
			if len(c.oks)+len(c.fails)+c.finals > 0 {
				vsched.Fail("%v: an outcome (%v %v) without an answer", c, c.oks, c.fails)
			}
			return
		}
		if c.blocked || c.finals != n || good && (len(c.oks) != n || len(c.fails) != 0) || !good && (len(c.fails) != n || len(c.oks) != 0) {
			vsched.Fail("%v: outcomes %v and errors %q, Finally %d times, still waiting: %v", c, c.oks, c.fails, c.finals, c.blocked)
		}
		for _, p := range c.oks {
			if p != c.reply() {
				vsched.Fail("%v: the response is %v instead of %v", c, p, c.reply())
			}
		}
		for _, e := range c.fails {
			if c.Op == OpOK && !c.Big && e != c.failure() {
				vsched.Fail("%v: the error is %q", c, e)
			}
		}
	case RS, RC:
		if c.Op != OpOK {
			if !c.Out.cancelled && c.Out.Sub != UNone && c.Out.term != "error" && c.Out.notified != "ERROR" {
				vsched.Fail("%v: the requester heard %q", c, c.Out.term)
			}
			if c.In != nil && c.In.created > 0 && c.In.cancelledSrc == 0 && !c.In.ended {
				vsched.Fail("%v: the source of the requester was not cancelled", c)
			}
			return
		}
		if c.In != nil {
			if c.Out.cancelled || (c.Out.term == "error" || c.Out.notified == "ERROR") && c.Out.Src != SEcho {
				c.In.cut = true
			}
			c.In.Check()
			if c.Out.Src == SEcho { // judged like the input
				c.Out.Src, c.Out.ended, c.Out.created, c.Out.cancelledSrc = c.In.Src, c.In.ended, c.In.created, c.In.cancelledSrc
			}
		}
		c.Out.Check()
	}
}

// Many are n calls of a kind (4: of all kinds) whose answers come in some order.
func Many(n, kind, order int) (calls []*Call) {
	for i := 0; i < n; i++ {
		c := &Call{Kind: kind, Answer: AThread, Turn: [...]int{0, i + 1, n - i, i*7%n + 1, (i%2*n+i)/2 + 1}[order]}
		if kind == 4 {
			c.Kind = i % 4
			c.Turn = 0
		}
		if c.Kind >= RS {
			c.Out = &Flow{N: 1 + i%3, End: []string{"complete", "error"}[i/2%2], Src: i / 3 % 3, Sub: i / 4 % 2}
		}
		if c.Kind == RC {
			c.In = &Flow{N: 1 + i/2%2, End: "complete", Src: i / 5 % 2, Sub: i / 3 % 2}
		}
		calls = append(calls, c)
	}
	return
}

// Long is a direction of many values.
func Long(c *mc.Ctx, src ...int) *Flow {
	f := &Flow{N: mc.Pick(c, []int{15, 33, 65, 101, 129, 257, 300}), End: mc.Pick(c, []string{"complete", "error"}), Src: mc.Pick(c, src), Sub: mc.Pick(c, []int{UAuto, UOne, UPairs, UBlock, UAsync, UBatch, UHuge})}
	switch f.Sub {
	case UBatch:
		f.Batch = mc.Pick(c, []int{2, 3, 10, 64, 100, 128})
	case UHuge:
		f.Batch = mc.Pick(c, []int{200, 1 << 30, 1<<31 - 2, 1<<31 - 1})
	}
	if c.Bool() {
		f.Cancel = CMiddle
	}
	f.Legal(c)
	return f
}
