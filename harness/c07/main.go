// C07: the unbounded hand-over queue.
package main

import (
	"fmt"

	"github.com/nanobus/iota/go/internal/buffer"
	"github.com/nanobus/iota/go/zzverif/mc"
	"github.com/nanobus/iota/go/zzverif/vsched"
)

// run explores producers putting values, one consumer following the documented
// Get/Load protocol and an optional concurrent Dispose.
func run(producers, per int, disposer string, pre int) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		vsched.Run(c, vsched.Options{Preemptions: pre, Fine: true}, func() {
			q := buffer.NewUnbounded[int]()
			accepted := make([][]int, producers)
			putsDone := 0
			var got []int
			closed := false
			for p := 0; p < producers; p++ {
				p := p
				vsched.GoNamed(fmt.Sprintf("producer%d", p), func() {
					for k := 0; k < per; k++ {
						v := p*100 + k
						ok := q.Put(v)
						vsched.Logf("Put(%d)=%v", v, ok)
						if ok {
							accepted[p] = append(accepted[p], v)
						}
					}
					putsDone++
				})
			}
			vsched.GoNamed("consumer", func() {
				ch := q.Get()
				for {
					v, ok := vsched.Recv2(ch)
					if !ok {
						vsched.Logf("closed")
						closed = true
						return
					}
					vsched.Logf("got %d", v)
					got = append(got, v)
					q.Load()
				}
			})
			disposed := false
			switch disposer {
			case "after":
				vsched.Wait("producers", func() bool { return putsDone == producers })
				q.Dispose()
				disposed = true
			case "during":
				q.Dispose()
				disposed = true
				vsched.Logf("disposed")
			case "twice":
				q.Dispose()
				q.Dispose()
				disposed = true
			}
			vsched.Quiesce()
			if putsDone != producers {
				c.Failf("a producer never finished: %v", vsched.Blocked())
			}
			if disposed && !closed {
				c.Failf("queue disposed but the consumer never saw the end: got %v of %v, blocked %v", got, accepted, vsched.Blocked())
			}
			if !disposed && closed {
				c.Failf("queue ended without Dispose")
			}
			// every accepted value exactly once, in each producer's order
			pos := make([]int, producers)
			for _, v := range got {
				p := v / 100
				if pos[p] >= len(accepted[p]) || accepted[p][pos[p]] != v {
					c.Failf("consumer saw %v, accepted %v", got, accepted)
				}
				pos[p]++
			}
			for p := range accepted {
				if pos[p] != len(accepted[p]) {
					c.Failf("accepted values lost: consumer saw %v, accepted %v", got, accepted)
				}
				if disposer != "during" && disposer != "twice" && len(accepted[p]) != per {
					c.Failf("Put refused before Dispose: accepted %v", accepted)
				}
				// accepted values are a prefix: once refused, always refused
				for k, v := range accepted[p] {
					if v != p*100+k {
						c.Failf("a value was accepted after one was refused: %v", accepted)
					}
				}
			}
			if disposed {
				if q.Put(7) {
					c.Failf("Put accepted after Dispose")
				}
			}
			c.State(fmt.Sprint(got, accepted, closed))
		})
	}
}

// long runs one goroutine that puts and takes in turns, and then ends the queue.
func long(c *mc.Ctx) {
	rounds, k, j := mc.Pick(c, []int{1, 2, 20, 150}), mc.Pick(c, []int{1, 2, 3, 7, 64, 300}), mc.Pick(c, []int{0, 1, 2, 5, 63, 64})
	take := c.Choose(3) // at the end: all, half of it, nothing before Dispose
	vsched.Run(c, vsched.Options{MaxSteps: 1000000}, func() {
		q := buffer.NewUnbounded[int]()
		ch := q.Get()
		put, got := 0, 0
		get := func(n int) {
			for i := 0; i < n && got < put; i++ {
				if v, ok := vsched.Recv2(ch); !ok || v != got {
					c.Failf("value %d of %d is %d, %v", got, put, v, ok)
				}
				got++
				q.Load()
			}
		}
		for i := 0; i < rounds; i++ {
			for x := 0; x < k; x++ {
				if !q.Put(put) {
					c.Failf("value %d was refused", put)
				}
				put++
			}
			get(j)
		}
		if take < 2 {
			get((put - got) / (take + 1))
		}
		q.Dispose()
		if q.Put(-1) {
			c.Failf("a value was taken after the end")
		}
		get(put - got)
		if v, ok := vsched.Recv2(ch); ok {
			c.Failf("%d after all %d values", v, put)
		}
	})
}

func main() {
	pre := mc.Bound(3, 5)
	mc.Main(mc.Config{
		ID:     "C07",
		Rule:   "stateless exploration of the real queue under a controlled scheduler: statement-level context switches in the queue, every schedule within the preemption bound",
		Bounds: fmt.Sprintf("1-3 producers, 1-4 values each, one consumer, Dispose never/after/concurrently/twice; up to 45000 values put and taken in turns by one goroutine; <=%d preemptions, all successor choices at blocking points", pre),
		Scenarios: []mc.Scenario{
			{Name: "1x4 no dispose", Body: run(1, 4, "", pre+1)},
			{Name: "1x3 dispose after", Body: run(1, 3, "after", pre+1)},
			{Name: "1x3 dispose during", Body: run(1, 3, "during", pre+1)},
			{Name: "2x2 no dispose", Body: run(2, 2, "", pre)},
			{Name: "2x2 dispose after", Body: run(2, 2, "after", pre)},
			{Name: "2x2 dispose during", Body: run(2, 2, "during", pre)},
			{Name: "2x2 dispose twice", Body: run(2, 2, "twice", pre)},
			{Name: "long histories", Body: long},
			{Name: "3x1 dispose during", Body: run(3, 1, "during", pre)},
		},
		Assumptions: []string{"sequentially consistent memory at statement granularity", "the consumer follows the documented Get/Load protocol"},
	})
}
