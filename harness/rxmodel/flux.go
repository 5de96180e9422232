// Package rxmodel holds the reference models of the reactive types, shared by
// the checks of the host and of the guest builds.
package rxmodel

import (
	"errors"
	"fmt"

	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/zzverif/mc"
	"github.com/nanobus/iota/go/zzverif/vsched"
)

var (
	ErrSrc = errors.New("source")
	ErrMap = errors.New("map")
)

// Source kinds.
const (
	fError = iota
	fSlice
	fResponse
	fDriven     // Create, taking requests at once
	fDrivenLate // Create, taking requests later
	fProcessor  // Processor whose owner takes requests before anyone subscribes
	fProcLate   // Processor whose owner takes requests later
	fKinds
)

var fNames = []string{"Error", "FromSlice", "SliceResponse", "Create", "Create, requests taken later", "Processor", "Processor, requests taken later"}

// Subscriber modes.
const (
	mAuto     = iota // no OnRequest: asks for everything
	mManual          // OnRequest keeps the subscription
	mBatch           // OnRequest asks for two
	mOneByOne        // OnRequest asks for one, and OnNext for the next one
	mNone            // NoRequest, Subscription() afterwards
	mQuit            // asks for everything, cancels in OnNext of the second value
	mModes
)

var mNames = []string{"asks for everything", "asks by hand", "asks in pairs", "asks in OnNext", "NoRequest", "cancels in OnNext"}

type event struct {
	kind string // next, complete, error
	val  int
	err  error
}

func (e event) String() string {
	switch e.kind {
	case "next":
		return fmt.Sprint(e.val)
	case "error":
		return "error " + fmt.Sprint(e.err)
	}
	return e.kind
}

// Driven is a source under the harness's control that keeps track of demand.
type Driven struct {
	Sink     flux.Sink[int]
	Requests []int
	Cancels  int
	Runs     int
}

func (d *Driven) OnSubscribe() flux.OnSubscribe {
	return flux.OnSubscribe{
		Request: func(n int) { d.Requests = append(d.Requests, n) },
		Cancel:  func() { d.Cancels++ },
	}
}

func (d *Driven) Sum() int {
	t := 0
	for _, n := range d.Requests {
		t += n
	}
	return t
}

// Histories explores every history of a flux and its single subscriber.
func Histories(depth int, maps int) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		kind := c.Choose(fKinds)
		length := 0
		if kind == fSlice || kind == fResponse {
			length = c.Choose(4)
		}
		mode := c.Choose(mModes)
		failAt := 0 // the map fails for this value (0: never)
		mapped := c.Choose(maps + 1)
		if mapped > 0 {
			failAt = c.Choose(4)
		}
		c.Logf("%s of %d values, subscriber %s, %d maps, failing at %d", fNames[kind], length, mNames[mode], mapped, failAt)
		vsched.Run(c, vsched.Options{}, func() {
			history(c, kind, length, mode, mapped, failAt, depth)
		})
	}
}

func history(c *mc.Ctx, kind, length, mode, mapped, failAt, depth int) {
	var d Driven
	var f flux.Flux[int]
	var proc flux.Processor[int]
	vals := []int{1, 2, 3}[:length]
	switch kind {
	case fError:
		f = flux.Error[int](ErrSrc)
	case fSlice:
		f = flux.FromSlice(vals)
	case fResponse:
		f = flux.Create(func(s flux.Sink[int]) {
			d.Runs++
			s.OnSubscribe(flux.OnSubscribe{Request: flux.SliceResponse(s, vals), Cancel: func() { d.Cancels++ }})
		})
	case fDriven, fDrivenLate:
		f = flux.Create(func(s flux.Sink[int]) {
			d.Runs++
			d.Sink = s
			if kind == fDriven {
				s.OnSubscribe(d.OnSubscribe())
			}
		})
	case fProcessor, fProcLate:
		proc = flux.NewProcessor[int]()
		f = proc
		d.Sink = proc
		if kind == fProcessor {
			proc.OnSubscribe(d.OnSubscribe())
		}
	}
	for i := 0; i < mapped; i++ {
		f = flux.Map(f, func(v int) (int, error) {
			if v == failAt {
				return 99, ErrMap
			}
			return v, nil
		})
	}
	driven := kind >= fDriven

	// the model
	var (
		want       []event
		wantFinal  []rx.SignalType
		closed     bool
		subscribed bool
		n          int // demand outstanding
		asked      int // demand passed to a driven source
		listening  = kind == fDriven || kind == fProcessor
		cancels    int
		rest       = vals
		over       bool // the source exceeded the demand
		signal     rx.SignalType
		calls      int // OnRequest calls
		mapFailed  bool
	)
	var got []event
	var final []rx.SignalType
	var gotCalls int
	var sub rx.Subscription
	var notes [][]rx.SignalType
	var wantNotes []bool
	bad := ""
	ends := 0

	end := func(e *event, s rx.SignalType) {
		if closed {
			return
		}
		closed = true
		if e != nil {
			want = append(want, *e)
		}
		wantFinal = append(wantFinal, s)
		signal = s
		for i := range wantNotes {
			wantNotes[i] = true
		}
	}
	var request func(k int)
	var refill func()
	refill = func() {
		switch mode {
		case mAuto:
			request(rx.RequestMax)
		case mQuit:
			calls++
			request(rx.RequestMax)
		case mManual:
			calls++
		case mBatch:
			calls++
			request(2)
		case mOneByOne:
			calls++
			request(1)
		}
	}
	next := func(v int) {
		if closed {
			return
		}
		n--
		if n < 0 {
			over = true
		}
		if mapped > 0 && v == failAt {
			want = append(want, event{kind: "error", err: ErrMap})
			mapFailed = true
			if driven && listening || kind == fResponse {
				cancels++
			}
			end(nil, rx.SignalError)
			return
		}
		want = append(want, event{kind: "next", val: v})
		if mode == mOneByOne {
			request(1)
		}
		if mode == mQuit && v == 2 {
			if driven && listening || kind == fResponse {
				cancels++
			}
			end(nil, rx.SignalCancel)
		}
		if n == 0 && !closed {
			refill()
		}
	}
	running := false
	serve := func() { // a slice answers the demand
		if running || closed {
			return
		}
		running = true
		for n > 0 && len(rest) > 0 && !closed {
			v := rest[0]
			rest = rest[1:]
			next(v)
		}
		running = false
		if len(rest) == 0 && !closed {
			end(&event{kind: "complete"}, rx.SignalComplete)
		}
	}
	request = func(k int) {
		if closed {
			return
		}
		n += k
		switch {
		case kind == fSlice || kind == fResponse:
			serve()
		case driven && listening:
			asked += k
		}
	}

	for i := 0; i < depth; i++ {
		c.Step()
		op := c.Choose(9)
		if !subscribed && op != 0 && op != 5 && !(op == 4 && kind == fProcLate) {
			c.Skip()
		}
		switch op {
		case 0:
			if subscribed {
				c.Skip()
			}
			c.Logf("subscribe")
			late := func() {
				if ends > 0 {
					bad = "told more after the end"
				}
			}
			s := flux.Subscribe[int]{
				OnNext: func(v int) {
					late()
					got = append(got, event{kind: "next", val: v})
					if mode == mOneByOne {
						sub.Request(1)
					}
					if mode == mQuit && v == 2 {
						sub.Cancel()
						sub.Cancel()
						ends++
					}
				},
				OnComplete: func() { late(); ends++; got = append(got, event{kind: "complete"}) },
				OnError:    func(err error) { late(); ends++; got = append(got, event{kind: "error", err: err}) },
				Finally: func(s rx.SignalType) {
					if s != rx.SignalCancel && ends == 0 {
						bad = "Finally before the end"
					}
					final = append(final, s)
				},
			}
			if mode == mNone {
				s.NoRequest = true
			} else if mode != mAuto {
				s.OnRequest = func(x rx.Subscription) {
					sub = x
					gotCalls++
					switch mode {
					case mBatch:
						x.Request(2)
					case mOneByOne:
						x.Request(1)
					case mQuit:
						x.Request(rx.RequestMax)
					}
				}
			}
			if f.Subscribe(s) == nil {
				c.Failf("Subscribe returned nil")
			}
			subscribed = true
			if kind == fError {
				end(&event{kind: "error", err: ErrSrc}, rx.SignalError)
			} else {
				refill()
			}
			if x := f.Subscription(); x == nil {
				c.Failf("no subscription after Subscribe")
			} else if sub == nil {
				sub = x
			}
		case 1:
			if (mode != mNone && mode != mManual) || kind == fError {
				c.Skip()
			}
			k := mc.Pick(c, []int{1, 2, rx.RequestMax})
			c.Logf("Request(%d)", k)
			sub.Request(k)
			request(k)
		case 2:
			if kind == fError {
				c.Skip()
			}
			c.Logf("Cancel")
			sub.Cancel()
			if !closed && (driven && listening || kind == fResponse) {
				cancels++
			}
			end(nil, rx.SignalCancel)
		case 3: // emit
			if !driven || d.Sink == nil {
				c.Skip()
			}
			v := c.Choose(3) + 1
			c.Logf("source: Next(%d)", v)
			d.Sink.Next(v)
			next(v)
		case 4: // the source takes requests now
			if (kind != fDrivenLate && kind != fProcLate) || listening || d.Sink == nil {
				c.Skip()
			}
			c.Logf("source: OnSubscribe")
			d.Sink.OnSubscribe(d.OnSubscribe())
			if !closed {
				listening = true
				if n > 0 {
					asked += n
				}
			}
		case 5:
			if len(notes) == 2 || (kind == fError && !subscribed) {
				c.Skip()
			}
			c.Logf("Notify")
			k := len(notes)
			notes = append(notes, nil)
			wantNotes = append(wantNotes, closed)
			f.Notify(func(s rx.SignalType) { notes[k] = append(notes[k], s) })
		case 6:
			if !driven || d.Sink == nil {
				c.Skip()
			}
			c.Logf("source: Complete")
			d.Sink.Complete()
			end(&event{kind: "complete"}, rx.SignalComplete)
		case 7:
			if !driven || d.Sink == nil {
				c.Skip()
			}
			c.Logf("source: Error")
			d.Sink.Error(ErrSrc)
			end(&event{kind: "error", err: ErrSrc}, rx.SignalError)
		case 8:
			c.Logf("Async")
			f.Async()
		}
		vsched.Quiesce()
		if bad != "" {
			c.Failf("%s: got %v", bad, got)
		}
		if fmt.Sprint(got) != fmt.Sprint(want) {
			c.Failf("subscriber told %v, want %v", got, want)
		}
		if fmt.Sprint(final) != fmt.Sprint(wantFinal) {
			c.Failf("Finally called with %v, want %v", final, wantFinal)
		}
		if mode != mAuto && mode != mNone && gotCalls != calls && kind != fError && !over {
			c.Failf("OnRequest called %d times, want %d: demand %d, got %v", gotCalls, calls, n, got)
		}
		if driven && !over && d.Sum() != asked {
			c.Failf("the source was asked for %d values (%v), the subscriber asked for %d", d.Sum(), d.Requests, asked)
		}
		if d.Cancels != cancels {
			c.Failf("the source was cancelled %d times, want %d", d.Cancels, cancels)
		}
		if d.Runs > 1 {
			c.Failf("one subscription ran the source %d times", d.Runs)
		}
		for k := range notes {
			switch {
			case !wantNotes[k] && len(notes[k]) != 0:
				c.Failf("listener %d told %v before the end", k, notes[k])
			case wantNotes[k] && (len(notes[k]) != 1 || (notes[k][0] != signal && !mapFailed)):
				c.Failf("listener %d told %v, want once %v", k, notes[k], signal)
			}
		}
		c.State(kind, mode, mapped, failAt, i, fmt.Sprint(want), n, closed, listening)
	}
}
