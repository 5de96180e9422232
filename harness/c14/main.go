// C14: what a Flux promises its subscribers and its source.
package main

import (
	"fmt"

	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/zzverif/mc"
	"github.com/nanobus/iota/go/zzverif/rxmodel"
	"github.com/nanobus/iota/go/zzverif/vsched"
)

const (
	srcSlice  = iota // FromSlice(1..4)
	srcThread        // Create with a thread that emits on demand
	srcProc          // Processor with such a thread
	srcError
)

type prog struct {
	name     string
	src      int
	values   int  // values the source has
	fails    bool // the source ends with an error
	lateSub  bool // the source takes requests from its own thread
	ask      []int
	initial  int // asked for in OnRequest (0: NoRequest)
	cancel   bool
	notify   int
	block    bool
	mapFail  int
	maps     int
	pre      int
	endless  bool // the source does not end by itself
	twoSubs  bool
	subOther bool // subscribe from another thread than the emitter's
}

type rec struct {
	vals      []int
	completes int
	errs      []error
	final     []rx.SignalType
	calls     int
	lastCall  int
	order     string
}

func (r *rec) ended() bool { return r.completes+len(r.errs) > 0 || len(r.final) > 0 }

// source emits on demand from its own thread.
type source struct {
	demand  int
	cancels int
	asked   []int
	sink    flux.Sink[int]
}

func (s *source) onSubscribe() flux.OnSubscribe {
	return flux.OnSubscribe{
		Request: func(n int) { vsched.Logf("source asked for %d", n); s.demand += n; s.asked = append(s.asked, n) },
		Cancel:  func() { vsched.Logf("source cancelled"); s.cancels++ },
	}
}

func (s *source) emit(p prog) {
	for v := 1; v <= p.values; v++ {
		vsched.Wait("demand", func() bool { return s.sink != nil && (s.demand > 0 || s.cancels > 0) })
		if s.cancels > 0 {
			return
		}
		s.demand--
		vsched.Logf("Next(%d)", v)
		s.sink.Next(v)
	}
	if p.endless {
		return
	}
	vsched.Wait("sink", func() bool { return s.sink != nil })
	if p.fails {
		s.sink.Error(rxmodel.ErrSrc)
	} else {
		s.sink.Complete()
	}
}

func run(p prog) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		opt := vsched.Options{Preemptions: p.pre, Fine: p.pre > 0}
		if p.pre == 0 {
			opt.MaxSteps = 300000
		}
		vsched.Run(c, opt, func() {
			var src source
			var f flux.Flux[int]
			all := []int{}
			for v := 1; v <= p.values; v++ {
				all = append(all, v)
			}
			threaded := false
			switch p.src {
			case srcSlice:
				f = flux.FromSlice(all)
			case srcThread:
				threaded = true
				f = flux.Create(func(s flux.Sink[int]) {
					if !p.lateSub {
						src.sink = s
						s.OnSubscribe(src.onSubscribe())
					}
					vsched.GoNamed("emitter", func() {
						if p.lateSub {
							s.OnSubscribe(src.onSubscribe())
							src.sink = s
						}
						src.emit(p)
					})
				})
			case srcProc:
				threaded = true
				proc := flux.NewProcessor[int]()
				f = proc
				src.sink = proc
				vsched.GoNamed("emitter", func() {
					proc.OnSubscribe(src.onSubscribe())
					src.emit(p)
				})
			case srcError:
				f = flux.Error[int](rxmodel.ErrSrc)
			}
			for i := 0; i < p.maps; i++ {
				f = flux.Map(f, func(v int) (int, error) {
					if v == p.mapFail {
						return 0, rxmodel.ErrMap
					}
					return v, nil
				})
			}
			var r rec
			var sub rx.Subscription
			cancelled := false // Cancel has returned
			inFlight := 0      // values told after Cancel returned
			total := 0         // demand expressed
			s := flux.Subscribe[int]{
				OnNext: func(v int) {
					vsched.Logf("told %d", v)
					r.vals = append(r.vals, v)
					if r.completes+len(r.errs) > 0 {
						c.Failf("value %d after the end", v)
					}
					if cancelled {
						inFlight++
					}
				},
				OnComplete: func() {
					vsched.Logf("told complete")
					r.completes++
				},
				OnError: func(err error) {
					vsched.Logf("told error %v", err)
					r.errs = append(r.errs, err)
				},
				Finally: func(sg rx.SignalType) {
					vsched.Logf("finally %v", sg)
					r.final = append(r.final, sg)
				},
				NoRequest: p.initial == 0,
			}
			if p.initial > 0 && p.initial < rx.RequestMax {
				s.OnRequest = func(x rx.Subscription) {
					vsched.Logf("OnRequest")
					sub = x
					r.calls++
					r.lastCall = len(r.vals)
					if r.calls == 1 {
						total += p.initial
						x.Request(p.initial)
					}
				}
			}
			blocked := 0
			var blockErr error
			if p.initial == rx.RequestMax {
				total += rx.RequestMax
			}
			start := func() {
				if p.block {
					blockErr = f.Block(s)
					vsched.Logf("Block: %v", blockErr)
					blocked++
				} else {
					f.Subscribe(s)
					if sub == nil {
						sub = f.Subscription()
					}
				}
			}
			notes := make([]int, p.notify)
			sigs := make([]rx.SignalType, p.notify)
			for k := 0; k < p.notify; k++ {
				vsched.GoNamed(fmt.Sprintf("listener%d", k), func() {
					f.Notify(func(s rx.SignalType) { notes[k]++; sigs[k] = s })
				})
			}
			if p.block || p.subOther {
				vsched.GoNamed("subscriber", start)
			} else {
				start()
			}
			for k, n := range p.ask {
				vsched.GoNamed(fmt.Sprintf("asker%d", k), func() {
					vsched.Wait("subscription", func() bool { return sub != nil })
					total += n
					vsched.Logf("Request(%d)", n)
					sub.Request(n)
				})
			}
			if p.cancel {
				vsched.GoNamed("canceller", func() {
					if p.block || p.subOther {
						vsched.Wait("subscription", func() bool { return sub != nil })
					}
					vsched.Logf("Cancel")
					sub.Cancel()
					cancelled = true
					vsched.Logf("cancelled")
				})
			}
			vsched.Quiesce()

			// values: a prefix of what there was, in order
			for i, v := range r.vals {
				if v != i+1 {
					c.Failf("told %v, the source had %v", r.vals, all)
				}
			}
			if len(r.vals) > total {
				c.Failf("told %v after asking for %d", r.vals, total)
			}
			if inFlight > 1 {
				c.Failf("%d values after Cancel returned", inFlight)
			}
			mustEnd := !p.endless && total >= p.values || p.mapFail > 0 && total >= p.mapFail || p.src == srcError
			if len(r.final) > 1 || r.completes+len(r.errs) > 1 || (len(r.final) == 0 && r.completes+len(r.errs) > 0) {
				c.Failf("told completion %d times, errors %v, Finally %v", r.completes, r.errs, r.final)
			}
			if (mustEnd || cancelled) && len(r.final) != 1 {
				c.Failf("never ended: told %v of %v with demand %d, blocked: %v", r.vals, all, total, vsched.Blocked())
			}
			if len(r.final) == 1 {
				switch sg := r.final[0]; {
				case sg == rx.SignalComplete && (r.completes != 1 || len(r.vals) != p.values || p.fails):
					c.Failf("Finally %v after %v, completions %d, errors %v", sg, r.vals, r.completes, r.errs)
				case sg == rx.SignalError && len(r.errs) != 1:
					c.Failf("Finally %v after %v, completions %d, errors %v", sg, r.vals, r.completes, r.errs)
				case sg == rx.SignalCancel && !p.cancel:
					c.Failf("Finally %v though nobody cancelled", sg)
				case sg == rx.SignalCancel && r.completes > 0:
					c.Failf("Finally %v after completion", sg)
				}
				if len(r.errs) == 1 {
					w := rxmodel.ErrSrc
					if p.mapFail > 0 {
						w = rxmodel.ErrMap
					}
					if r.errs[0] != w {
						c.Failf("error %v, want %v", r.errs[0], w)
					}
				}
			} else if len(r.vals) != min(total, p.values) {
				c.Failf("told %v of %v with demand %d, then nothing: blocked %v", r.vals, all, total, vsched.Blocked())
			}
			for k := range notes {
				want := 0
				if len(r.final) == 1 {
					want = 1
				}
				if notes[k] != want {
					c.Failf("listener %d told %d times, want %d", k, notes[k], want)
				}
				if want == 1 && sigs[k] != r.final[0] && p.mapFail == 0 {
					c.Failf("listener %d told %v, Finally %v", k, sigs[k], r.final[0])
				}
			}
			if p.block {
				if blocked != 1 {
					c.Failf("Block never returned: %v", vsched.Blocked())
				}
				switch {
				case len(r.errs) == 1 && blockErr != r.errs[0], len(r.errs) == 0 && blockErr != nil:
					c.Failf("Block returned %v, errors told %v", blockErr, r.errs)
				}
			}
			if threaded {
				wantC := 0
				if len(r.final) == 1 && (r.final[0] == rx.SignalCancel || (p.mapFail > 0 && r.final[0] == rx.SignalError)) {
					wantC = 1
				}
				if src.cancels != wantC && !(p.lateSub && src.cancels == 0) && p.src != srcProc {
					c.Failf("the source was cancelled %d times, want %d", src.cancels, wantC)
				}
				sum := 0
				for _, n := range src.asked {
					sum += n
				}
				if len(r.final) == 0 && sum != total || sum > total {
					c.Failf("the source was asked for %d (%v), the subscriber asked for %d", sum, src.asked, total)
				}
			}
			// Once all that was asked for has come, OnRequest asks for more.
			if s.OnRequest != nil && len(r.final) == 0 && len(r.vals) == total && r.lastCall != total {
				c.Failf("told all %d values asked for, but OnRequest was last called after %d", total, r.lastCall)
			}
		})
	}
}

func main() {
	pre := mc.Bound(3, 4)
	max := rx.RequestMax
	ps := []prog{
		{name: "slice, two askers", src: srcSlice, values: 3, ask: []int{1, 1}, pre: pre},
		{name: "slice, asker and canceller", src: srcSlice, values: 3, ask: []int{1, 2}, cancel: true, pre: pre},
		{name: "slice, all, canceller, listener", src: srcSlice, values: 2, initial: max, cancel: true, notify: 1, pre: pre},
		{name: "slice, drained, asker", src: srcSlice, values: 4, initial: 1, ask: []int{1}, pre: pre},
		{name: "slice, block, listener", src: srcSlice, values: 2, initial: max, block: true, notify: 1, pre: pre},
		{name: "thread, all, listeners", src: srcThread, values: 2, initial: max, notify: 2, pre: pre},
		{name: "thread, all, error, listener", src: srcThread, values: 1, fails: true, initial: max, notify: 1, pre: pre},
		{name: "thread, drained, two askers", src: srcThread, values: 4, endless: true, initial: 1, ask: []int{1, 1}, pre: pre},
		{name: "thread, late, askers", src: srcThread, values: 3, endless: true, lateSub: true, ask: []int{1, 1}, pre: pre},
		{name: "thread, late, drained, asker", src: srcThread, values: 3, endless: true, lateSub: true, initial: 1, ask: []int{1}, pre: pre},
		{name: "thread, canceller, listener", src: srcThread, values: 2, initial: max, cancel: true, notify: 1, pre: pre},
		{name: "thread, late, canceller", src: srcThread, values: 2, lateSub: true, initial: max, cancel: true, pre: pre},
		{name: "thread, error, block", src: srcThread, values: 1, fails: true, initial: max, block: true, pre: pre},
		{name: "thread, block, listener", src: srcThread, values: 1, initial: max, block: true, notify: 1, pre: pre},
		{name: "processor, subscriber elsewhere", src: srcProc, values: 2, endless: true, initial: max, subOther: true, pre: pre},
		{name: "processor, askers", src: srcProc, values: 3, endless: true, ask: []int{1, 1}, pre: pre},
		{name: "map failing, thread", src: srcThread, values: 3, maps: 1, mapFail: 2, initial: max, notify: 1, pre: pre},
		{name: "map failing, slice, block", src: srcSlice, values: 3, maps: 1, mapFail: 2, initial: max, block: true, pre: pre},
		{name: "map, slice, block", src: srcSlice, values: 2, maps: 2, initial: max, block: true, pre: pre},
		{name: "map, thread, canceller", src: srcThread, values: 2, maps: 1, initial: max, cancel: true, pre: pre},
		{name: "error, block", src: srcError, initial: max, block: true, pre: pre},
		{name: "error, map, block", src: srcError, initial: max, maps: 1, block: true, pre: pre},
	}
	sc := []mc.Scenario{
		{Name: "histories", Body: rxmodel.Histories(mc.Bound(6, 7), 0)},
		{Name: "histories, map", Body: rxmodel.Histories(mc.Bound(5, 6), 1)},
	}
	sc = append(sc, mc.Scenario{Name: "many values, askers, listeners and maps", Body: func(c *mc.Ctx) {
		pick := func(xs ...int) int { return mc.Pick(c, xs) }
		p := prog{src: pick(srcSlice, srcThread, srcProc), values: pick(9, 33, 65, 130, 300), notify: pick(0, 1, 5, 40), maps: pick(0, 1, 3, 10)}
		if p.maps > 0 {
			p.mapFail = pick(0, 1, 5, p.values)
		}
		if p.initial = pick(0, 1, 7, max); p.initial != max {
			k, n := pick(1, 2, 16, 64), pick(1, 3, 20, 40)
			for i := 0; i < n; i++ {
				p.ask = append(p.ask, k)
			}
		}
		p.cancel = c.Bool()
		p.endless, p.fails = p.src != srcSlice && c.Bool(), false
		if p.src == srcThread {
			p.lateSub, p.fails = c.Bool(), !p.endless && c.Bool()
		}
		p.block = p.initial == max && !p.cancel && (!p.endless || p.mapFail > 0) && c.Bool()
		run(p)(c)
	}})
	for _, p := range ps {
		sc = append(sc, mc.Scenario{Name: p.name, Body: run(p)})
	}
	mc.Main(mc.Config{
		ID:          "C14",
		Rule:        "all histories of one subscription compared with a model after every step; all interleavings of source, subscriber, askers, canceller, listeners and blocked readers",
		Bounds:      fmt.Sprintf("7 kinds of Flux x 6 ways of asking x 0-1 maps, %d steps; up to 300 values, 40 askers, 40 listeners and 10 maps without preemption; %d programs of 2-4 threads, <=%d preemptions at statement granularity", mc.Bound(6, 7), len(ps), pre),
		Scenarios:   sc,
		Assumptions: []string{"a source emits from one goroutine at a time, as the Sink contract asks", "a value on its way when Cancel is called may still be told"},
	})
}
