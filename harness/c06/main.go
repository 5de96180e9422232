// C06: the registry of open streams.
package main

import (
	"context"
	"fmt"

	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/proxy"
	"github.com/nanobus/iota/go/zzverif/mc"
	"github.com/nanobus/iota/go/zzverif/vsched"
)

type stream struct {
	id  uint32
	gen int
}

func (s *stream) Context() context.Context { return context.Background() }
func (s *stream) StreamID() uint32         { return s.id }
func (s *stream) OnNext(payload.Payload)   {}
func (s *stream) OnComplete()              {}
func (s *stream) OnError(error)            {}

// sequences runs every sequence of registry operations against a map.
func sequences(depth int, ids []uint32) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		var l proxy.Lookup
		model := map[uint32]proxy.Stream{}
		state := ""
		for d := 0; d < depth; d++ {
			id := mc.Pick(c, ids)
			if _, present := model[id]; present || c.Bool() {
				c.Logf("Remove(%d)", id)
				l.Remove(id)
				delete(model, id)
				state += fmt.Sprint("-", id)
			} else {
				s := &stream{id: id, gen: d}
				c.Logf("Add(%d)", id)
				l.Add(s)
				model[id] = s
				state += fmt.Sprint("+", id)
			}
			for _, id := range append(ids, 99) {
				c.Step()
				got, ok := l.Get(id)
				want, open := model[id]
				if ok != open {
					c.Failf("after %s: Get(%d) found=%v, stream open=%v", state, id, ok, open)
				}
				if ok && got != want {
					c.Failf("after %s: Get(%d) returned another stream", state, id)
				}
			}
		}
		c.State(state)
	}
}

// many fills and empties a registry of many streams.
func many(c *mc.Ctx) {
	n, stride, window := mc.Pick(c, []int{9, 17, 33, 65, 129, 257, 1025}), uint32(c.Choose(2)+1), mc.Pick(c, []int{0, 1, 8, 64})
	order, again := c.Choose(5), c.Bool()
	var l proxy.Lookup
	model := map[uint32]proxy.Stream{}
	id := func(i int) uint32 { return 1 + uint32(i)*stride }
	check := func(what string, i int) {
		c.Step()
		got, ok := l.Get(id(i))
		if want, open := model[id(i)]; ok != open || ok && got != want {
			c.Failf("%d streams, %s: Get(%d) found=%v, stream open=%v, another stream: %v", n, what, id(i), ok, open, got != want)
		}
	}
	all := func(what string) {
		for i := -1; i <= n; i++ {
			check(what, i)
		}
	}
	add := func(i int) {
		s := &stream{id: id(i), gen: i}
		l.Add(s)
		model[s.id] = s
		check("added", i)
		check("added one later", i/2)
	}
	remove := func(i int) {
		l.Remove(id(i))
		delete(model, id(i))
		check("removed", i)
		check("removed its neighbour", i+1)
		check("removed its neighbour", i-1)
		check("removed another", n-1-i)
	}
	for r := 0; r < 2; r++ {
		for i := 0; i < n; i++ {
			add(i)
			if window > 0 && i >= window {
				remove(i - window)
			}
			if n <= 65 {
				all("filling")
			}
		}
		all("filled")
		for i := 0; i < n; i++ {
			j := [...]int{i, n - 1 - i, i * 7 % n, (i%2*n + i) / 2, (i*(n/2+1) + 3) % n}[order]
			remove(j)
			if n <= 65 || i%64 == 0 {
				all("emptying")
			}
		}
		for i := 0; i < n; i++ { // what the orders did not reach
			remove(i)
		}
		all("emptied")
		if !again {
			break
		}
	}
}

type op struct {
	kind byte // 'A'dd, 'R'emove, 'G'et
	id   uint32
}

func (o op) String() string { return fmt.Sprintf("%c%d", o.kind, o.id) }

type event struct {
	op         op
	call, ret  int
	ok         bool
	s          *stream // added stream or returned stream
	linearised bool
}

// linearizable searches for an order of the calls that respects real time and
// that a map explains.
func linearizable(m map[uint32]*stream, evs []*event) bool {
	done := true
	minRet := int(^uint(0) >> 1)
	for _, e := range evs {
		if !e.linearised {
			done = false
			if e.ret < minRet {
				minRet = e.ret
			}
		}
	}
	if done {
		return true
	}
	for _, e := range evs {
		if e.linearised || e.call > minRet {
			continue
		}
		old := m[e.op.id]
		switch e.op.kind {
		case 'A':
			m[e.op.id] = e.s
		case 'R':
			delete(m, e.op.id)
		case 'G':
			if (old != nil) != e.ok || old != e.s {
				continue
			}
		}
		e.linearised = true
		if linearizable(m, evs) {
			return true
		}
		e.linearised = false
		if old == nil {
			delete(m, e.op.id)
		} else {
			m[e.op.id] = old
		}
	}
	return false
}

func concurrent(initial []uint32, threads [][]op, pre int) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		vsched.Run(c, vsched.Options{Preemptions: pre, Fine: true}, func() {
			var l proxy.Lookup
			m := map[uint32]*stream{}
			for _, id := range initial {
				s := &stream{id: id, gen: -1}
				l.Add(s)
				m[id] = s
			}
			clock := 0
			var evs []*event
			do := func(o op, gen int) {
				e := &event{op: o, call: clock, ret: 1 << 30}
				clock++
				evs = append(evs, e)
				switch o.kind {
				case 'A':
					e.s = &stream{id: o.id, gen: gen}
					l.Add(e.s)
				case 'R':
					l.Remove(o.id)
				case 'G':
					s, ok := l.Get(o.id)
					e.ok = ok
					if ok {
						e.s, _ = s.(*stream)
					}
				}
				e.ret = clock
				clock++
				vsched.Logf("%v ok=%v", o, e.ok)
			}
			for t, ops := range threads {
				t, ops := t, ops
				vsched.GoNamed(fmt.Sprintf("t%d", t), func() {
					for k, o := range ops {
						do(o, t*10+k)
					}
				})
			}
			vsched.Quiesce()
			if b := vsched.Blocked(); len(b) != 0 {
				c.Failf("stuck: %v", b)
			}
			// what is left, read sequentially
			for id := uint32(1); id <= 6; id++ {
				do(op{'G', id}, 0)
			}
			hist := ""
			for _, e := range evs {
				hist += fmt.Sprintf("%v[%d-%d]=%v ", e.op, e.call, e.ret, e.ok)
			}
			if !linearizable(m, evs) {
				c.Failf("no order of the calls explains the answers: start %v; %s", initial, hist)
			}
			c.State(hist)
		})
	}
}

func main() {
	pre := mc.Bound(2, 4)
	var sc []mc.Scenario
	sc = append(sc, mc.Scenario{Name: "sequences", Body: sequences(mc.Bound(8, 10), []uint32{1, 3, 5})})
	sc = append(sc, mc.Scenario{Name: "sequences of streams with ids alike", Body: sequences(mc.Bound(6, 7), []uint32{2, 2 + 1<<8, 2 + 1<<16, 2 + 1<<24, 2 + 1<<30})})
	sc = append(sc, mc.Scenario{Name: "sequences of 4 streams", Body: sequences(mc.Bound(7, 9), []uint32{2, 4, 6, 0x7ffffffe})})
	sc = append(sc, mc.Scenario{Name: "many streams", Body: many})
	A, R, G := byte('A'), byte('R'), byte('G')
	progs := [][][]op{
		{{{A, 1}, {G, 1}}, {{A, 2}, {G, 2}}},
		{{{A, 1}, {R, 1}}, {{A, 2}, {G, 1}}},
		{{{R, 1}, {G, 2}}, {{R, 2}, {G, 1}}},
		{{{R, 2}, {G, 3}}, {{R, 3}, {A, 4}}},
		{{{R, 1}, {A, 1}}, {{G, 1}, {G, 2}}},
		{{{R, 3}, {A, 4}}, {{A, 5}, {G, 4}}},
		{{{A, 4}}, {{A, 5}}, {{A, 6}}},
		{{{R, 1}}, {{R, 2}}, {{R, 3}}},
		{{{A, 4}}, {{R, 3}}, {{G, 3}}},
		{{{R, 1}}, {{R, 1}}, {{A, 4}}},
	}
	inits := [][]uint32{{}, {1}, {1, 2}, {1, 2, 3}}
	for i, p := range progs {
		for _, in := range inits {
			// do not add what is already there
			dup := false
			for _, t := range p {
				removed := map[uint32]bool{}
				for _, o := range t {
					if o.kind == R {
						removed[o.id] = true
					}
					if o.kind == A && !removed[o.id] {
						for _, x := range in {
							dup = dup || x == o.id
						}
					}
				}
			}
			if dup {
				continue
			}
			b := pre
			if len(p) > 2 && b > 3 {
				b = 3
			}
			sc = append(sc, mc.Scenario{Name: fmt.Sprintf("concurrent %d from %v", i, in), Body: concurrent(in, p, b)})
		}
	}
	mc.Main(mc.Config{
		ID:          "C06",
		Rule:        "all operation sequences compared with a map after every step; all interleavings (statement-level switches in the registry) of small concurrent programs checked for linearizability against a map by brute force",
		Bounds:      fmt.Sprintf("sequences of 7-8 (9-10) operations over 3 and 4 streams; 9-1025 streams in 5 orders; 10 programs of 2-3 threads x 1-2 operations from 4 initial registries, <=%d preemptions", pre),
		Scenarios:   sc,
		Assumptions: []string{"a stream is not registered twice without being removed in between", "sequentially consistent memory at statement granularity"},
	})
}
