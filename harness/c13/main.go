// C13: what a Mono promises its subscribers.
package main

import (
	"errors"
	"fmt"

	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/await"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/zzverif/mc"
	"github.com/nanobus/iota/go/zzverif/vsched"
)

var (
	errA   = errors.New("a")
	errB   = errors.New("b")
	errMap = errors.New("map")
)

// outcome is what a Mono settled with.
type outcome struct {
	val    int
	err    error
	failed bool
}

func (o outcome) String() string {
	if o.failed {
		return fmt.Sprintf("error %v", o.err)
	}
	return fmt.Sprintf("value %d", o.val)
}

func (o outcome) signal() rx.SignalType {
	if o.failed {
		return rx.SignalError
	}
	return rx.SignalComplete
}

// tx is a transform applied by Map, and its model.
type tx struct {
	name string
	fn   func(int) (int, error)
}

var txs = []tx{
	{"+1", func(v int) (int, error) { return v + 1, nil }},
	{"*10", func(v int) (int, error) { return v * 10, nil }},
	{"fail", func(v int) (int, error) { return 0, errMap }},
	{"failodd", func(v int) (int, error) {
		if v%2 != 0 {
			return 7, errMap
		}
		return v, nil
	}},
}

func (o outcome) through(ts []tx) outcome {
	for _, t := range ts {
		if o.failed {
			return o
		}
		v, err := t.fn(o.val)
		if err != nil {
			return outcome{err: err, failed: true}
		}
		o = outcome{val: v}
	}
	return o
}

func wrap(m mono.Mono[int], ts []tx) mono.Mono[int] {
	for _, t := range ts {
		m = mono.Map(m, rx.Transform[int, int](t.fn))
	}
	return m
}

// recorder notes what one subscriber is told.
type recorder struct {
	ev    []string
	outs  []outcome
	final []rx.SignalType
	bad   string
}

func (r *recorder) subscribe() mono.Subscribe[int] {
	return mono.Subscribe[int]{
		OnSuccess: func(v int) {
			r.outs = append(r.outs, outcome{val: v})
			r.late("OnSuccess")
		},
		OnError: func(err error) {
			r.outs = append(r.outs, outcome{err: err, failed: true})
			r.late("OnError")
		},
		Finally: func(s rx.SignalType) {
			if len(r.outs) == 0 {
				r.bad = "Finally before the outcome"
			}
			r.final = append(r.final, s)
		},
	}
}

func (r *recorder) late(what string) {
	if len(r.final) > 0 {
		r.bad = what + " after Finally"
	}
}

// check compares what the subscriber was told with what it must be told.
func (r *recorder) check(c *mc.Ctx, who string, settled bool, want outcome) {
	if r.bad != "" {
		c.Failf("%s: %s", who, r.bad)
	}
	if !settled {
		if len(r.outs) != 0 || len(r.final) != 0 {
			c.Failf("%s: told %v, finally %v before the Mono settled", who, r.outs, r.final)
		}
		return
	}
	if len(r.outs) != 1 || r.outs[0] != want {
		c.Failf("%s: told %v, want exactly %v", who, r.outs, want)
	}
	if len(r.final) != 1 || r.final[0] != want.signal() {
		c.Failf("%s: Finally called with %v, want once with %v", who, r.final, want.signal())
	}
}

const (
	kJust = iota
	kError
	kSyncValue
	kSyncError
	kDeferred
	kProcessor
	kinds
)

var kindNames = []string{"Just", "Error", "Create settling at once with a value", "Create settling at once with an error", "Create settling later", "Processor"}

// histories: every kind of Mono under every history of subscribing, listening,
// settling and asking, against a model.
func histories(depth, maps int) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		kind := c.Choose(kinds)
		var ts []tx
		for i := c.Choose(maps + 1); i > 0; i-- {
			ts = append(ts, mc.Pick(c, txs))
		}
		c.Logf("%s with %d maps", kindNames[kind], len(ts))
		for _, t := range ts {
			c.Logf("map %s", t.name)
		}
		var sinks []mono.Sink[int]
		runs := 0
		var base mono.Mono[int]
		var proc *mono.ProcessorImpl[int]
		first := outcome{}
		known := true // outcome fixed
		switch kind {
		case kJust:
			base, first = mono.Just(3), outcome{val: 3}
		case kError:
			base, first = mono.Error[int](errA), outcome{err: errA, failed: true}
		case kSyncValue:
			first = outcome{val: 4}
			base = mono.Create(func(s mono.Sink[int]) { runs++; s.Success(4); s.Success(5); s.Error(errB) })
		case kSyncError:
			first = outcome{err: errB, failed: true}
			base = mono.Create(func(s mono.Sink[int]) { runs++; s.Error(errB); s.Success(5); s.Error(errA) })
		case kDeferred:
			known = false
			base = mono.Create(func(s mono.Sink[int]) { runs++; sinks = append(sinks, s) })
		case kProcessor:
			known = false
			proc = mono.NewProcessor[int]()
			base = proc
		}
		m := wrap(base, ts)
		var recs []*recorder
		var notes [][]rx.SignalType
		subscribed := false // someone subscribed, so a cold Mono runs
		settled := func() bool {
			switch kind {
			case kJust, kError:
				return true
			case kProcessor:
				return known && subscribed
			default:
				return known && subscribed
			}
		}
		lazy := kind != kJust && kind != kError
		wantRuns := 0
		for i := 0; i < depth; i++ {
			c.Step()
			switch c.Choose(8) {
			case 0: // subscribe
				if len(recs) == 2 || (kind == kDeferred && subscribed) {
					c.Skip()
				}
				c.Logf("subscribe")
				r := &recorder{}
				recs = append(recs, r)
				wantRuns++
				if x := m.Subscribe(r.subscribe()); x == nil {
					c.Failf("Subscribe returned nil")
				}
				subscribed = true
			case 1: // subscribe without callbacks, as a task
				if kind == kDeferred && subscribed {
					c.Skip()
				}
				c.Logf("Async")
				m.Async()
				if lazy && !subscribed {
					subscribed = true
					wantRuns++
				}
			case 2: // listen
				if len(notes) == 2 {
					c.Skip()
				}
				c.Logf("Notify")
				k := len(notes)
				notes = append(notes, nil)
				m.Notify(func(s rx.SignalType) { notes[k] = append(notes[k], s) })
			case 3, 4, 5, 6: // settle, perhaps again
				if kind != kDeferred && kind != kProcessor {
					c.Skip()
				}
				if kind == kDeferred && len(sinks) == 0 {
					c.Skip()
				}
				o := []outcome{{val: 1}, {val: 2}, {err: errA, failed: true}, {failed: true}}[c.Choose(4)]
				c.Logf("settle with %v", o)
				var sink mono.Sink[int] = proc
				if kind == kDeferred {
					sink = sinks[0]
				}
				if o.failed {
					sink.Error(o.err)
				} else {
					sink.Success(o.val)
				}
				if !known {
					known, first = true, o
				}
			case 7: // ask
				if !settled() || (first.failed && first.err == nil) { // a nil error tells Get nothing
					c.Skip()
				}
				v, err := m.Get()
				want := first.through(ts)
				c.Logf("Get: %v %v", v, err)
				if err != want.err || (!want.failed && v != want.val) {
					c.Failf("Get returned %v, %v, want %v", v, err, want)
				}
			}
			want := first.through(ts)
			for k, r := range recs {
				r.check(c, fmt.Sprintf("subscriber %d", k), settled(), want)
			}
			for k, n := range notes {
				if !settled() {
					if len(n) != 0 {
						c.Failf("listener %d told %v before the Mono settled", k, n)
					}
					continue
				}
				// A mapped Mono tells its listeners how its source settled.
				if len(n) != 1 || (n[0] != first.signal() && n[0] != want.signal()) {
					c.Failf("listener %d told %v, want once %v", k, n, first.signal())
				}
			}
			if lazy && kind != kProcessor && runs != wantRuns {
				c.Failf("source ran %d times for %d subscriptions", runs, wantRuns)
			}
			if settled() && subscribed {
				// Block gives the outcome, whatever happened before.
				if i == depth-1 && kind != kDeferred && !(first.failed && first.err == nil) {
					v, err := m.Block()
					if err != want.err || (!want.failed && v != want.val) {
						c.Failf("Block returned %v, %v, want %v", v, err, want)
					}
				}
			}
			c.State(kind, i, first.String(), known, subscribed, len(recs), len(notes))
		}
	}
}

// many observers and maps, with the outcome at some point among them.
func many(c *mc.Ctx) {
	n, maps := mc.Pick(c, []int{3, 4, 5, 9, 17, 33, 65, 130}), mc.Pick(c, []int{0, 1, 2, 5, 40})
	at := mc.Pick(c, []int{0, 1, n / 2, n - 1, n})
	proc, mix, o := c.Bool(), c.Choose(4), []outcome{{val: 2}, {err: errA, failed: true}}[c.Choose(2)]
	var ts []tx
	for i := 0; i < maps; i++ {
		ts = append(ts, txs[i%2])
	}
	if maps > 0 && c.Bool() {
		ts[c.Choose(maps)] = txs[2]
	}
	var sink mono.Sink[int]
	var base mono.Mono[int]
	if proc {
		p := mono.NewProcessor[int]()
		base, sink = p, p
	} else {
		base = mono.Create(func(s mono.Sink[int]) { sink = s })
	}
	m := wrap(base, ts)
	want := o.through(ts)
	var recs []*recorder
	var notes [][]rx.SignalType
	settle := func() {
		if o.failed {
			sink.Error(o.err)
		} else {
			sink.Success(o.val)
		}
	}
	for i := 0; i < n; i++ {
		c.Step()
		if i == at && sink != nil && len(recs) > 0 {
			settle()
		}
		if mix == 0 && (proc || i == 0) || mix == 1 && i == n-1 || mix >= 2 && (proc || i < mix) && i%mix == 0 {
			r := &recorder{}
			recs = append(recs, r)
			m.Subscribe(r.subscribe())
			continue
		}
		k := len(notes)
		notes = append(notes, nil)
		m.Notify(func(s rx.SignalType) { notes[k] = append(notes[k], s) })
	}
	if len(recs) == 0 {
		c.Skip()
	}
	settle()
	for k, r := range recs {
		r.check(c, fmt.Sprintf("subscriber %d of %d", k, len(recs)), true, want)
	}
	for k, x := range notes {
		if len(x) != 1 || x[0] != o.signal() && x[0] != want.signal() || x[0] != notes[0][0] {
			c.Failf("listener %d of %d told %v, want once %v", k, len(notes), x, o.signal())
		}
	}
	v, err := m.Get()
	if err != want.err || !want.failed && v != want.val {
		c.Failf("Get returned %v, %v, want %v", v, err, want)
	}
}

// race: concurrent producers, a subscriber, listeners and a blocked reader.
type prog struct {
	name      string
	producers int  // threads that settle
	listeners int  // threads that Notify
	sub       bool // a thread that subscribes with callbacks
	block     bool // a thread that blocks
	async     bool // a thread that starts it as a task, then listens and asks
	maps      int
	create    bool // Create settled from its own goroutines instead of a Processor
	pre       int
}

func race(p prog) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		mapped := []tx{}
		for i := 0; i < p.maps; i++ {
			mapped = append(mapped, txs[[]int{0, 2}[c.Choose(2)]])
		}
		vsched.Run(c, vsched.Options{Preemptions: p.pre, Fine: true}, func() {
			settle := func(k int, s mono.Sink[int]) {
				switch k {
				case 0:
					vsched.Logf("Success(1)")
					s.Success(1)
				case 1:
					vsched.Logf("Error(a)")
					s.Error(errA)
				default:
					vsched.Logf("Success(2)")
					s.Success(2)
				}
			}
			var base mono.Mono[int]
			if p.create {
				base = mono.Create(func(s mono.Sink[int]) {
					for k := 0; k < p.producers; k++ {
						vsched.GoNamed(fmt.Sprintf("producer%d", k), func() { settle(k, s) })
					}
				})
			} else {
				proc := mono.NewProcessor[int]()
				base = proc
				for k := 0; k < p.producers; k++ {
					vsched.GoNamed(fmt.Sprintf("producer%d", k), func() { settle(k, proc) })
				}
			}
			m := wrap(base, mapped)
			var rec recorder
			var seen []outcome // what each observer made of it
			notes := make([][]rx.SignalType, p.listeners)
			asked := 0
			blocked := 0
			if p.sub {
				vsched.GoNamed("subscriber", func() { m.Subscribe(rec.subscribe()) })
			}
			for k := 0; k < p.listeners; k++ {
				vsched.GoNamed(fmt.Sprintf("listener%d", k), func() {
					m.Notify(func(s rx.SignalType) {
						vsched.Logf("told %v", s)
						notes[k] = append(notes[k], s)
					})
				})
			}
			if p.async {
				vsched.GoNamed("task", func() {
					g, err := await.All(m)
					if err != nil || len(g) != 1 {
						vsched.Fail("await.All gave %v, %v", g, err)
					}
					g[0].Async()
					g[0].Notify(func(rx.SignalType) {
						v, err := m.Get()
						vsched.Logf("Get: %v %v", v, err)
						seen = append(seen, outcome{v, err, err != nil})
						asked++
					})
				})
			}
			if p.block {
				vsched.GoNamed("blocked", func() {
					v, err := m.Block()
					vsched.Logf("Block: %v %v", v, err)
					seen = append(seen, outcome{v, err, err != nil})
					blocked++
				})
			}
			vsched.Quiesce()
			if p.block && blocked != 1 {
				c.Failf("Block never returned: %v", vsched.Blocked())
			}
			if p.async && asked != 1 {
				c.Failf("the task's listener was called %d times, want once", asked)
			}
			if p.sub {
				if rec.bad != "" {
					c.Failf("subscriber: %s", rec.bad)
				}
				if len(rec.outs) != 1 || len(rec.final) != 1 {
					c.Failf("subscriber told %v, finally %v, want one of each", rec.outs, rec.final)
				}
				if rec.final[0] != rec.outs[0].signal() {
					c.Failf("subscriber told %v but Finally got %v", rec.outs[0], rec.final[0])
				}
				seen = append(seen, rec.outs[0])
			}
			for k := range seen {
				if seen[k].failed {
					seen[k].val = 0
				}
				if seen[k] != seen[0] {
					c.Failf("observers disagree about the outcome: %v", seen)
				}
			}
			possible := []outcome{{val: 1}, {err: errA, failed: true}, {val: 2}}[:min(p.producers, 3)]
			for _, o := range seen {
				ok := false
				for _, q := range possible {
					ok = ok || o == q.through(mapped)
				}
				if !ok {
					c.Failf("outcome %v, but only %v were produced", o, possible)
				}
			}
			for k, n := range notes {
				if len(n) != 1 {
					c.Failf("listener %d told %v, want exactly one signal", k, n)
				}
				if len(seen) > 0 && p.maps == 0 && n[0] != seen[0].signal() {
					c.Failf("listener %d told %v, but the outcome is %v", k, n[0], seen[0])
				}
				if n[0] != notes[0][0] {
					c.Failf("listeners told different signals: %v", notes)
				}
			}
		})
	}
}

func main() {
	pre := mc.Bound(2, 3)
	ps := []prog{
		{name: "processor: producer, subscriber, listener", producers: 1, listeners: 1, sub: true, pre: pre},
		{name: "processor: two producers, subscriber, listener", producers: 2, listeners: 1, sub: true, pre: pre},
		{name: "processor: three producers, subscriber", producers: 3, sub: true, pre: pre},
		{name: "processor: producer, subscriber, two listeners", producers: 1, listeners: 2, sub: true, pre: pre},
		{name: "processor: two producers, block", producers: 2, block: true, pre: pre},
		{name: "processor: producer, block, listener", producers: 1, block: true, listeners: 1, pre: pre},
		{name: "processor: two producers, task, block", producers: 2, async: true, pre: pre},
		{name: "processor: producer, subscriber, block", producers: 1, sub: true, block: true, pre: 2},
		{name: "processor: producer, task, block", producers: 1, async: true, block: true, pre: 2},
		{name: "create: two producers, subscriber, two listeners", producers: 2, listeners: 2, sub: true, create: true, pre: pre},
		{name: "create: two producers, block, listener", producers: 2, listeners: 1, block: true, create: true, pre: pre},
		{name: "create: two producers, task", producers: 2, async: true, create: true, pre: pre},
		{name: "map: two producers, subscriber, listener", producers: 2, listeners: 1, sub: true, maps: 1, pre: pre},
		{name: "map: two producers, block", producers: 2, block: true, maps: 2, pre: pre},
		{name: "map: create, two producers, task", producers: 2, async: true, create: true, maps: 1, pre: pre},
	}
	sc := []mc.Scenario{
		{Name: "histories", Body: histories(mc.Bound(5, 6), 1)},
		{Name: "histories, two maps", Body: histories(mc.Bound(3, 4), 2)},
	}
	sc = append(sc, mc.Scenario{Name: "many observers and maps", Body: many})
	for _, p := range ps {
		sc = append(sc, mc.Scenario{Name: p.name, Body: race(p)})
	}
	mc.Main(mc.Config{
		ID:          "C13",
		Rule:        "all histories of subscribing, listening, settling and asking compared with a model after every step; all interleavings of producers, subscribers, listeners, tasks and blocked readers",
		Bounds:      fmt.Sprintf("6 kinds of Mono, 0-2 maps of 4 functions, %d steps; up to 130 observers and 40 maps; 15 programs of 3-4 threads, <=%d preemptions at statement granularity", mc.Bound(5, 6), pre),
		Scenarios:   sc,
		Assumptions: []string{"a source that settles later is subscribed once; a Processor any number of times", "the listeners of a mapped Mono are told how its source settled"},
	})
}
