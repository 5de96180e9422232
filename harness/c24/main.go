// C24: handles of live instances.
package main

import (
	"fmt"
	"runtime"

	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/zzverif/mc"
	"github.com/nanobus/iota/go/zzverif/vsched"
)

// thing is what a handle stands for; large enough for its memory to go back
// to the runtime when it is collected.
type thing struct {
	v   int
	pad [1 << 15]byte
}

type small = int

func sequences(depth int) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		l := invoke.NewLiveInstances[*small]()
		model := map[uint64]*small{}
		var all []uint64
		hist := ""
		for d := 0; d < depth; d++ {
			n := 1 + 2*len(all)
			x := c.Choose(n)
			if x == 0 {
				v := new(small)
				*v = d
				h := l.Put(v)
				hist += fmt.Sprintf("put #%d; ", len(all))
				if _, live := model[h]; live {
					c.Failf("%sgets the handle of an instance that is still live", hist)
				}
				model[h] = v
				all = append(all, h)
			} else {
				h := all[(x-1)/2]
				want, live := model[h]
				var got *small
				var ok bool
				if x%2 == 1 {
					hist += fmt.Sprintf("remove #%d; ", (x-1)/2)
					got, ok = l.Remove(h)
					delete(model, h)
				} else {
					hist += fmt.Sprintf("get #%d; ", (x-1)/2)
					got, ok = l.Get(h)
				}
				if ok != live || got != want {
					c.Failf("%sok=%v, want %v; right instance=%v", hist, ok, live, got == want)
				}
			}
			c.Step()
			for _, h := range all {
				want, live := model[h]
				for _, forged := range []uint64{h, h + 1, h - 1, h ^ 1<<63, h &^ 0xffffffff, h << 1} {
					w, lv := want, live
					if forged != h {
						w, lv = model[forged], model[forged] != nil
					}
					if got, ok := l.Get(forged); ok != lv || got != w {
						c.Failf("%sget %s: ok=%v, want %v", hist, name(forged, h), ok, lv)
					}
				}
			}
			for _, f := range []uint64{0, 1, 1<<64 - 1, 0xc000000000} {
				if model[f] != nil { // it happens to be one
					continue
				}
				if _, ok := l.Get(f); ok {
					c.Failf("%sforged handle %x is accepted", hist, f)
				}
				if _, ok := l.Remove(f); ok {
					c.Failf("%sforged handle %x is removed", hist, f)
				}
			}
		}
		c.State(hist)
	}
}

func name(f, h uint64) string {
	if f == h {
		return "a handle"
	}
	return "an altered handle"
}

// many puts, gets and removes many instances.
func many(c *mc.Ctx) {
	n, window := mc.Pick(c, []int{9, 17, 33, 65, 129, 300, 1025, 5000}), mc.Pick(c, []int{0, 1, 16, 64, 256})
	order, order2 := c.Choose(4), c.Choose(4)
	l := invoke.NewLiveInstances[*small]()
	model := map[uint64]*small{}
	var hs []uint64
	put := func(i int) {
		v := new(small)
		*v = i
		h := l.Put(v)
		if model[h] != nil {
			c.Failf("instance %d of %d gets the handle of one that is still live", i, n)
		}
		model[h] = v
		hs = append(hs, h)
	}
	check := func(i int) {
		c.Step()
		h := hs[i]
		got, ok := l.Get(h)
		if want := model[h]; ok != (want != nil) || got != want {
			c.Failf("instance %d of %d: ok=%v, live: %v, the right one: %v", i, n, ok, want != nil, got == want)
		}
	}
	remove := func(i int) {
		h := hs[i]
		got, ok := l.Remove(h)
		if want := model[h]; ok != (want != nil) || got != want {
			c.Failf("removing instance %d of %d: ok=%v, live: %v, the right one: %v", i, n, ok, want != nil, got == want)
		}
		delete(model, h)
	}
	at := func(order, i int) int { return [...]int{i, n - 1 - i, i * 7 % n, (i%2*n + i) / 2}[order] }
	for i := 0; i < n; i++ {
		put(i)
		check(i / 2)
		if window > 0 && i >= window {
			remove(i - window)
		}
	}
	for i := range hs {
		check(i)
	}
	for i := 0; i < n/2; i++ {
		remove(at(order, i))
	}
	first := hs
	for i := 0; i < n/2; i++ { // those take the place of others
		put(n + i)
	}
	for i, h := range first {
		if i < n && model[h] == nil {
			if _, ok := l.Get(h); ok {
				c.Failf("a removed instance %d of %d is found", i, n)
			}
		}
	}
	for i := range hs {
		check(i)
	}
	for i := 0; i < n; i++ {
		remove(at(order2, i))
	}
	for i := range hs {
		check(i)
	}
}

type op struct {
	kind byte // 'P'ut, 'R'emove, 'G'et
	h    int  // index among the initial handles, or -1 for the thread's own
}

type event struct {
	op        op
	handle    uint64
	val       int // -1 none
	call, ret int
	done      bool
}

func linearizable(m map[uint64]int, evs []*event) bool {
	left := false
	minRet := int(^uint(0) >> 1)
	for _, e := range evs {
		if !e.done {
			left = true
			if e.ret < minRet {
				minRet = e.ret
			}
		}
	}
	if !left {
		return true
	}
	for _, e := range evs {
		if e.done || e.call > minRet {
			continue
		}
		old, live := m[e.handle]
		if !live {
			old = -1
		}
		switch e.op.kind {
		case 'P':
			if live {
				continue
			}
			m[e.handle] = e.val
		case 'R':
			if e.val != old {
				continue
			}
			delete(m, e.handle)
		case 'G':
			if e.val != old {
				continue
			}
		}
		e.done = true
		if linearizable(m, evs) {
			return true
		}
		e.done = false
		if live {
			m[e.handle] = old
		} else {
			delete(m, e.handle)
		}
	}
	return false
}

func concurrent(threads [][]op, pre int) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		vsched.Run(c, vsched.Options{Preemptions: pre, Fine: true}, func() {
			l := invoke.NewLiveInstances[*small]()
			m := map[uint64]int{}
			var hs []uint64
			var keep []*small
			for i := 0; i < 3; i++ {
				v := new(small)
				*v = i
				keep = append(keep, v)
				h := l.Put(v)
				hs = append(hs, h)
				m[h] = i
			}
			l.Remove(hs[2])
			delete(m, hs[2])
			clock := 0
			var evs []*event
			do := func(o op, own *uint64, val int) {
				e := &event{op: o, call: clock, ret: 1 << 30, val: -1}
				clock++
				evs = append(evs, e)
				e.handle = *own
				if o.h >= 0 {
					e.handle = hs[o.h]
				}
				switch o.kind {
				case 'P':
					v := new(small)
					*v = val
					e.val = val
					e.handle = l.Put(v)
					*own = e.handle
				case 'R':
					if v, ok := l.Remove(e.handle); ok {
						e.val = *v
					}
				case 'G':
					if v, ok := l.Get(e.handle); ok {
						e.val = *v
					}
				}
				e.ret = clock
				clock++
				vsched.Logf("%c -> %d", o.kind, e.val)
			}
			own := make([]uint64, len(threads)+1)
			for t, ops := range threads {
				t, ops := t, ops
				vsched.GoNamed(fmt.Sprintf("t%d", t), func() {
					for k, o := range ops {
						do(o, &own[t], 100*(t+1)+k)
					}
				})
			}
			vsched.Quiesce()
			if b := vsched.Blocked(); len(b) != 0 {
				c.Failf("stuck: %v", b)
			}
			for i := range hs {
				do(op{'G', i}, &own[len(threads)], 0)
			}
			for t := range threads {
				do(op{'G', -1}, &own[t], 0)
			}
			hist := ""
			for _, e := range evs {
				hist += fmt.Sprintf("%c%d[%d-%d]=%d ", e.op.kind, e.op.h, e.call, e.ret, e.val)
			}
			if !linearizable(m, evs) {
				c.Failf("no order of the calls explains the answers: %s", hist)
			}
			_ = keep
			c.State(hist)
		})
	}
}

var stale []uint64

// collected uses handles whose instances are gone, with a garbage collection
// at every possible moment.
func collected(c *mc.Ctx) {
	if stale == nil {
		old := invoke.NewLiveInstances[thing]()
		for i := 0; i < 60; i++ {
			stale = append(stale, old.Put(thing{v: i}))
		}
		for _, h := range stale {
			old.Remove(h)
		}
		runtime.GC()
		runtime.GC()
	}
	remove := c.Bool()
	vsched.Run(c, vsched.Options{Preemptions: mc.Bound(1, 2), Fine: true}, func() {
		l := invoke.NewLiveInstances[thing]()
		live := l.Put(thing{v: 7})
		vsched.GoNamed("user", func() {
			for i := 0; i < 6; i++ {
				h := stale[i*10]
				if h == live { // the instance has got the place of that one
					continue
				}
				var ok bool
				if remove {
					_, ok = l.Remove(h)
				} else {
					_, ok = l.Get(h)
				}
				if ok {
					c.Failf("a handle of another registry is accepted")
				}
			}
			if v, ok := l.Get(live); !ok || v.v != 7 {
				c.Failf("a live instance is lost after a garbage collection")
			}
		})
		vsched.GoNamed("collector", func() { runtime.GC() })
		vsched.Quiesce()
		c.State(remove)
	})
}

func main() {
	pre := mc.Bound(3, 5)
	P, R, G := byte('P'), byte('R'), byte('G')
	progs := [][][]op{
		{{{R, 0}}, {{R, 0}}},
		{{{R, 0}, {G, 0}}, {{G, 0}, {R, 0}}},
		{{{P, -1}, {G, -1}}, {{P, -1}, {R, -1}}},
		{{{P, -1}, {R, -1}, {G, -1}}, {{R, 0}, {R, 2}}},
		{{{R, 0}, {P, -1}}, {{G, 0}, {G, 1}}},
		{{{R, 0}}, {{G, 0}}, {{R, 0}}},
		{{{P, -1}}, {{P, -1}}, {{R, 1}}},
	}
	sc := []mc.Scenario{{Name: "sequences", Body: sequences(mc.Bound(6, 8))}}
	for i, p := range progs {
		b := pre
		if len(p) > 2 {
			b = 2
		}
		sc = append(sc, mc.Scenario{Name: fmt.Sprintf("concurrent %d", i), Body: concurrent(p, b)})
	}
	sc = append(sc, mc.Scenario{Name: "many instances", Body: many})
	sc = append(sc, mc.Scenario{Name: "collected instances", Body: collected})
	mc.Main(mc.Config{
		ID:          "C24",
		Rule:        "all histories of registrations, lookups and removals compared with a map, with forged handles after every step; all interleavings of small programs checked for linearizability by brute force; a garbage collection at every point of lookups with stale handles",
		Bounds:      fmt.Sprintf("histories of %d steps; 7 programs of 2-3 threads, <=%d preemptions at statement granularity; up to 5000 instances without", mc.Bound(6, 8), pre),
		Scenarios:   sc,
		Assumptions: []string{"the runtime may give a new instance the address, and so the handle, of one that was removed and collected"},
	})
}
