package proto

import (
	"fmt"
	"math"
	"strings"

	"github.com/nanobus/iota/go/zzverif/mc"
	"github.com/nanobus/iota/go/zzverif/neutral"
	"github.com/nanobus/iota/go/zzverif/vsched"
)

// Session runs calls; Run starts something that happens on its own.
type Session struct {
	Calls  []*Call
	Run    func(name string, f func())
	Blocks func() bool // whether threads may block; nil: they may
	byID   map[string]*Call
	turn   int
}

func (s *Session) blocks() bool { return s.Blocks == nil || s.Blocks() }

// Source programs.
const (
	SSync   = iota // emits in the callback that takes requests
	SThread        // emits on its own
	SLate          // takes requests some time later, then emits in the callback
	SSlice
	SFail
	SEcho // of a channel: its input
)

// Subscriber programs.
const (
	UAuto  = iota // no OnRequest
	UOne          // one by one in OnNext
	UPairs        // OnRequest asks for two
	UHand         // NoRequest; asks for 1, and later for another 2
	UBlock
	UAsync
	UNone  // never asks
	UBatch // asks for Batch, and again when these have come
	UHuge  // asks for Batch twice
)

// Cancel programs.
const (
	CNever = iota
	CBefore
	CNext   // in OnNext of the first value
	CLater  // at any time
	CMiddle // in OnNext of the middle one
)

// Flow is one direction of values and its two ends.
type Flow struct {
	Name    string
	N       int    // values of the source
	End     string // complete, error or never
	Src     int
	Sub     int
	Batch   int
	Cancel  int
	Big     int   // which value cannot be sent, from 1; after the last: the error
	WaitAt  int   // at which request, from 1, the source waits for the outcome of
	Nested  *Call // made
	By      neutral.Caller
	session *Session
	alias   string // whose values these are
	sink    *Flow  // whose subscriber gets them

	// the source
	created, requested, emitted, cancelledSrc int
	requests                                  int
	ended                                     bool
	emitting                                  bool

	// the subscriber
	subscribed, cancelled bool
	issued, got           int
	term, msg             string
	finals                int
	notified              string
	blocked               bool

	cut bool // by what happened to the other direction
}

func (f *Flow) String() string {
	return fmt.Sprintf("%s: %d values then %s, source %d, subscriber %d, cancel %d, %d too big, waits at %d", f.Name, f.N, f.End, f.Src, f.Sub, f.Cancel, f.Big, f.WaitAt)
}

// Big is more than fits into a frame.
var Big = strings.Repeat("x", 20000)

func (f *Flow) value(i int) neutral.Payload {
	if i+1 == f.Big {
		return neutral.Payload{Meta: "m", Data: Big}
	}
	return neutral.Payload{Meta: fmt.Sprintf("m%d%s", i, f.alias), Data: fmt.Sprintf("%s:%d", f.alias, i)}
}

func (f *Flow) boom() string {
	if f.Big > f.N {
		return Big
	}
	return "boom " + f.alias
}

func addCap(a, b int) int {
	if a > math.MaxInt32-b {
		return math.MaxInt32
	}
	return a + b
}

func (f *Flow) finish(k neutral.Sink) {
	if f.ended || f.End == "never" || f.emitted < f.N {
		return
	}
	f.ended = true
	if f.End == "error" {
		k.Error(f.boom())
	} else {
		k.Complete()
	}
}

func (f *Flow) emit(k neutral.Sink) {
	if f.emitting {
		return
	}
	f.emitting = true
	for f.emitted < f.N && f.emitted < f.requested && f.cancelledSrc == 0 {
		i := f.emitted
		f.emitted++
		k.Next(f.value(i))
	}
	f.emitting = false
	if f.cancelledSrc == 0 && f.requested > 0 {
		f.finish(k)
	}
}

// Source builds the source.
func (f *Flow) Source() neutral.Source {
	switch f.Src {
	case SSlice:
		var ps []neutral.Payload
		for i := 0; i < f.N; i++ {
			ps = append(ps, f.value(i))
		}
		return neutral.Source{Slice: ps}
	case SFail:
		return neutral.Source{Fail: f.boom()}
	case SEcho:
		return neutral.Source{Echo: true}
	}
	return neutral.Source{Create: func(k neutral.Sink) {
		f.created++
		if f.created > 1 {
			vsched.Fail("%s: the source was subscribed to %d times", f.Name, f.created)
		}
		take := func() {
			k.OnSubscribe(func(n int) {
				vsched.Logf("%s: source is asked for %d", f.Name, n)
				if n <= 0 {
					vsched.Fail("%s: the source was asked for %d", f.Name, n)
				}
				f.requested = addCap(f.requested, n)
				if f.requested > f.sink.issued {
					vsched.Fail("%s: the source was asked for %d values in all, the subscriber for %d", f.Name, f.requested, f.sink.issued)
				}
				f.requests++
				if f.WaitAt > 0 && f.requests == f.WaitAt {
					f.Nested.await(f.session, f.By)
				}
				if f.Src != SThread {
					f.emit(k)
				} else if !f.session.blocks() {
					f.session.Run(f.Name+" source", func() { f.emit(k) })
				}
			}, func() {
				vsched.Logf("%s: source is cancelled", f.Name)
				f.cancelledSrc++
				if f.cancelledSrc > 1 {
					vsched.Fail("%s: the source was cancelled twice", f.Name)
				}
			})
		}
		switch f.Src {
		case SSync:
			take()
		case SThread:
			take()
			if !f.session.blocks() {
				return
			}
			f.session.Run(f.Name+" source", func() {
				for !f.ended && f.cancelledSrc == 0 {
					vsched.Wait("demand", func() bool { return f.requested > f.emitted || f.cancelledSrc > 0 })
					f.emit(k)
					if f.emitted == f.N && f.End == "never" {
						return
					}
				}
			})
		case SLate:
			f.session.Run(f.Name+" source", take)
		}
	}}
}

func (f *Flow) terminal(kind, msg string) {
	vsched.Logf("%s: subscriber hears %s %s", f.Name, kind, msg)
	if f.term != "" {
		vsched.Fail("%s: the subscriber heard %s after %s", f.Name, kind, f.term)
	}
	f.term, f.msg = kind, msg
}

func (f *Flow) request(c neutral.Control, n int) {
	f.issued = addCap(f.issued, n)
	vsched.Logf("%s: subscriber asks for %d", f.Name, n)
	c.Request(n)
}

func (f *Flow) docancel(c neutral.Control) {
	if f.cancelled || f.term != "" {
		return
	}
	f.cancelled = true
	vsched.Logf("%s: subscriber cancels", f.Name)
	c.Cancel()
}

// Subscribe subscribes to x as the program says.
func (f *Flow) Subscribe(x neutral.Flux) {
	if f.Src == SEcho && f.Sub < 0 {
		return
	}
	f.subscribed = true
	s := neutral.Sub{
		OnNext: func(p neutral.Payload) {
			vsched.Logf("%s: subscriber gets %v", f.Name, p)
			if f.term != "" {
				vsched.Fail("%s: a value after %s", f.Name, f.term)
			}
			if f.got >= f.N {
				vsched.Fail("%s: value %v although the source has %d", f.Name, p, f.N)
			}
			if f.got+1 == f.Big {
				vsched.Fail("%s: a value after one that cannot be sent", f.Name)
			}
			if want := f.value(f.got); p != want {
				vsched.Fail("%s: value %v instead of %v", f.Name, p, want)
			}
			f.got++
			if f.got > f.issued {
				vsched.Fail("%s: %d values with %d asked for", f.Name, f.got, f.issued)
			}
			if f.Cancel == CNext && f.got == 1 || f.Cancel == CMiddle && f.got == (f.N+1)/2 {
				f.docancel(x.Subscription())
			} else if f.Sub == UOne && !f.cancelled {
				f.request(x.Subscription(), 1)
			} else if f.Sub == UBatch && !f.cancelled && f.got%f.Batch == 0 {
				f.request(x.Subscription(), f.Batch)
			}
		},
		OnComplete: func() { f.terminal("complete", "") },
		OnError:    func(e string) { f.terminal("error", e) },
		Finally: func(s string) {
			f.finals++
			if f.finals > 1 {
				vsched.Fail("%s: Finally called twice", f.Name)
			}
			want := map[string]string{"COMPLETE": "complete", "ERROR": "error", "CANCEL": ""}[s]
			if want != f.term || s == "CANCEL" && !f.cancelled {
				vsched.Fail("%s: Finally said %s after the subscriber heard %q", f.Name, s, f.term)
			}
		},
	}
	switch f.Sub {
	case UAuto, UBlock, UAsync:
		f.issued = math.MaxInt32
	case UOne:
		s.OnRequest = func(c neutral.Control) {
			if f.issued == 0 {
				f.request(c, 1)
			}
		}
	case UPairs:
		s.OnRequest = func(c neutral.Control) {
			if !f.cancelled {
				f.request(c, 2)
			}
		}
	case UBatch:
		s.OnRequest = func(c neutral.Control) {
			if f.issued == 0 {
				f.request(c, f.Batch)
			}
		}
	case UHuge:
		s.OnRequest = func(c neutral.Control) {
			f.request(c, f.Batch)
			f.request(c, f.Batch)
		}
	case UHand, UNone:
		s.NoRequest = true
	}
	switch f.Sub {
	case UBlock:
		f.blocked = true
		f.session.Run(f.Name+" Block", func() {
			msg, ok := x.(neutral.FluxBlocker).BlockFlux(s)
			f.blocked = false
			if f.term == "" && !f.cancelled || ok != (f.term != "error") || msg != f.msg {
				vsched.Fail("%s: Block returned %v %q after %q %q", f.Name, ok, msg, f.term, f.msg)
			}
		})
	case UAsync:
		x.Async()
		x.Notify(func(sig string) {
			if f.notified != "" {
				vsched.Fail("%s: notified twice", f.Name)
			}
			f.notified = sig
		})
	default:
		x.Subscribe(s)
	}
	cancel := func() {
		f.docancel(x.Subscription())
	}
	switch f.Cancel {
	case CBefore:
		cancel()
	case CLater:
		f.session.Run(f.Name+" canceller", cancel)
	}
	if f.Sub == UHand && f.Cancel != CBefore {
		f.request(x.Subscription(), 1)
		f.session.Run(f.Name+" more", func() {
			if !f.cancelled {
				f.request(x.Subscription(), 2)
			}
		})
	}
}

// Check judges the flow when nothing happens any more.
func (f *Flow) Check() {
	if f.Sub < 0 {
		return
	}
	bad := func(format string, a ...any) { vsched.Fail("%v: %s", f, fmt.Sprintf(format, a...)) }
	srcEnded := f.ended
	switch f.Src {
	case SSlice:
		srcEnded = f.issued > 0 && f.issued >= f.N
	case SFail:
		srcEnded = true
	}
	n, failed := f.N, false
	if f.Big > 0 && f.Big <= f.N {
		n, failed = f.Big-1, f.issued >= f.Big
	}
	if f.cancelled || f.cut {
		if f.created > 0 && f.cancelledSrc == 0 && !f.ended && f.Src != SLate {
			bad("cancelled, but the source was never told")
		}
	}
	if !f.subscribed || f.Sub == UNone {
		return
	}
	if f.cancelled || f.cut {
		if f.cancelled && !f.cut && f.term == "" && f.finals == 0 && f.Sub != UAsync {
			bad("cancelled, but Finally was not called")
		}
		if f.cut && !f.cancelled && f.term == "" {
			bad("the subscriber was not told that the channel has ended")
		}
		return
	}
	if failed && f.created > 0 && f.cancelledSrc == 0 {
		bad("a value cannot be sent, but the source was never told")
	}
	if f.Sub == UAsync {
		want := map[string]string{"complete": "COMPLETE", "error": "ERROR", "never": ""}[f.End]
		if f.Src == SSlice {
			want = "COMPLETE"
		}
		if failed {
			want = "ERROR"
		}
		if f.notified != want {
			bad("the listener was told %q, not %q", f.notified, want)
		}
		return
	}
	if f.Src != SFail {
		if want := min(f.issued, n); f.got != want {
			bad("%d of %d values arrived with %d asked for", f.got, f.N, f.issued)
		}
	}
	want, msg := "", ""
	if srcEnded {
		want = f.End
		if f.Src == SSlice {
			want = "complete"
		}
		if f.Src == SFail {
			want = "error"
		}
		if want == "error" {
			msg = "boom " + f.alias
		}
	}
	if failed {
		want = "error"
	}
	if f.Big > 0 && want == "error" {
		msg = f.msg // says why
	}
	if f.term != want || f.msg != msg {
		bad("the subscriber heard %q %q instead of %q %q", f.term, f.msg, want, msg)
	}
	if f.term != "" && f.finals != 1 || f.term == "" && f.finals != 0 {
		bad("Finally was called %d times after %q", f.finals, f.term)
	}
	if f.Sub == UBlock && f.blocked != (f.term == "") {
		bad("Block still waiting: %v, after %q", f.blocked, f.term)
	}
}

// Legal skips combinations that say nothing new.
func (f *Flow) Legal(c *mc.Ctx) {
	if f.Cancel != CNever && (f.Sub == UBlock || f.Sub == UAsync) || f.Src == SSlice && f.End != "complete" ||
		f.Big > f.N && f.End != "error" || f.Src == SFail && (f.End != "error" || f.N != 0) || f.Cancel == CBefore && f.Sub != UHand {
		c.Skip()
	}
}
