// C10: a request/stream delivers what its handler emits.
package main

import (
	"fmt"

	"github.com/nanobus/iota/go/zzverif/hpair"
	"github.com/nanobus/iota/go/zzverif/mc"
	. "github.com/nanobus/iota/go/zzverif/proto"
)

func pick(c *mc.Ctx, xs ...int) int { return mc.Pick(c, xs) }

var ends = []string{"complete", "error", "never"}

func main() {
	p1, p2 := mc.Bound(1, 2), mc.Bound(2, 3)
	mc.Main(mc.Config{
		ID:     "C10",
		Rule:   "all sources, subscribers, ways to cancel and ends, and all interleavings of both endpoints, the connection, the source and the subscriber",
		Bounds: fmt.Sprintf("0-%d values x 3 ends x 5 sources x 7 subscribers x 4 ways to cancel without preemption; 2 values, 4 sources, 4 subscribers, 3 ways to cancel, <=%d preemptions at statement granularity; some of them and two streams at once, <=%d; up to 130 streams, and 300 values, without", mc.Bound(3, 5), p1, p2),
		Scenarios: []mc.Scenario{
			{Name: "programs", Body: func(c *mc.Ctx) {
				f := &Flow{N: c.Choose(mc.Bound(4, 6)), End: mc.Pick(c, ends), Src: c.Choose(SFail + 1), Sub: c.Choose(UNone + 1), Cancel: c.Choose(4)}
				f.Legal(c)
				hpair.Run(c, 0, false, []int{c.Choose(2)}, &Call{Kind: RS, Out: f})
			}},
			{Name: "odd operations", Body: func(c *mc.Ctx) {
				f := &Flow{Sub: pick(c, UAuto, UOne, UHand, UPairs, UBlock, UAsync), Cancel: pick(c, CNever, CLater)}
				f.Legal(c)
				hpair.Run(c, p1, true, []int{c.Choose(2)}, &Call{Kind: RS, Op: 1 + c.Choose(4), Out: f})
			}},
			{Name: "schedules", Body: func(c *mc.Ctx) {
				f := &Flow{N: 2, End: mc.Pick(c, ends), Src: pick(c, SSync, SThread, SLate, SSlice), Sub: pick(c, UAuto, UOne, UPairs, UHand), Cancel: pick(c, CNever, CNext, CLater)}
				f.Legal(c)
				hpair.Run(c, p1, true, []int{c.Choose(2)}, &Call{Kind: RS, Out: f})
			}},
			{Name: "values that cannot be sent", Body: func(c *mc.Ctx) {
				f := &Flow{N: c.Choose(mc.Bound(3, 5)), End: mc.Pick(c, ends), Src: c.Choose(SFail + 1), Sub: c.Choose(UNone), Cancel: c.Choose(4)}
				f.Big = 1 + c.Choose(f.N+1)
				f.Legal(c)
				hpair.Run(c, 0, false, []int{c.Choose(2)}, &Call{Kind: RS, Out: f})
			}},
			{Name: "schedules with values that cannot be sent", Body: func(c *mc.Ctx) {
				f := &Flow{N: 1, End: "error", Src: pick(c, SSync, SThread), Sub: pick(c, UAuto, UOne, UAsync), Cancel: pick(c, CNever, CLater), Big: 1 + c.Choose(2)}
				f.Legal(c)
				hpair.Run(c, p1, true, []int{c.Choose(2)}, &Call{Kind: RS, Out: f})
			}},
			{Name: "deeper", Body: func(c *mc.Ctx) {
				f := &Flow{N: 1, End: "complete", Src: pick(c, SSync, SThread), Sub: pick(c, UAuto, UOne, UHand), Cancel: pick(c, CNever, CLater)}
				hpair.Run(c, p2, true, []int{0}, &Call{Kind: RS, Out: f})
			}},
			{Name: "handler waits for a request of its own", Body: func(c *mc.Ctx) {
				f := &Flow{N: 2, End: mc.Pick(c, ends), Src: pick(c, SSync, SThread), Sub: pick(c, UAuto, UOne), Cancel: pick(c, CNever, CLater)}
				hpair.Run(c, p1, true, []int{c.Choose(2)}, &Call{Kind: RS, Out: f, Waits: true, Nested: &Call{Kind: RR, Answer: pick(c, AJust, AThread)}})
			}},
			{Name: "source waits for a request of its own", Body: func(c *mc.Ctx) {
				f := &Flow{N: 2, End: mc.Pick(c, ends), Src: pick(c, SSync, SThread, SLate), Sub: pick(c, UOne, UPairs, UHand), Cancel: pick(c, CNever, CLater), WaitAt: 1 + c.Choose(2), Nested: &Call{Kind: RR, Answer: pick(c, AJust, AThread, AFail)}}
				hpair.Run(c, p1, true, []int{c.Choose(2)}, &Call{Kind: RS, Out: f})
			}},
			{Name: "two streams", Body: func(c *mc.Ctx) {
				f := &Flow{N: 1, End: "complete", Src: SSync, Sub: UAuto, Cancel: pick(c, CNever, CLater)}
				g := &Flow{N: 2, End: "error", Src: SThread, Sub: UOne}
				hpair.Run(c, p1, true, []int{0, c.Choose(2)}, &Call{Kind: RS, Out: f}, &Call{Kind: RS, Out: g})
			}},
			{Name: "two streams, deeper", Body: func(c *mc.Ctx) {
				f := &Flow{N: 1, End: "complete", Src: SSync, Sub: UAuto}
				g := &Flow{N: 1, End: "complete", Src: SSync, Sub: UAuto}
				hpair.Run(c, p2, true, []int{0, c.Choose(2)}, &Call{Kind: RS, Out: f}, &Call{Kind: RS, Out: g})
			}},
			{Name: "many values", Body: func(c *mc.Ctx) {
				hpair.Run(c, 0, false, []int{c.Choose(2)}, &Call{Kind: RS, Out: Long(c, SSync, SThread, SLate, SSlice)})
			}},
			{Name: "many streams at once", Body: func(c *mc.Ctx) {
				n, sides := pick(c, 5, 17, 33, 65, 130), [][]int{{0}, {1}, {0, 1}}[c.Choose(3)]
				hpair.Run(c, 0, false, sides, Many(n, RS, 0)...)
			}},
		},
		Assumptions: []string{"the connection delivers frames in order", "sources emit from one goroutine at a time, only what was asked for"},
	})
}
