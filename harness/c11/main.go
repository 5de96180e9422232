// C11: a request/channel carries both directions.
package main

import (
	"fmt"

	"github.com/nanobus/iota/go/zzverif/hpair"
	"github.com/nanobus/iota/go/zzverif/mc"
	. "github.com/nanobus/iota/go/zzverif/proto"
)

func pick(c *mc.Ctx, xs ...int) int { return mc.Pick(c, xs) }

var ends = []string{"complete", "error", "never"}

func main() {
	p1, p2 := mc.Bound(1, 2), mc.Bound(2, 3)
	mc.Main(mc.Config{
		ID:     "C11",
		Rule:   "all pairs of sources, subscribers, ways to cancel and ends in the two directions, and all interleavings of both endpoints, the connection, the sources and the subscribers",
		Bounds: fmt.Sprintf("0 or 2 values x 3 ends x 5 and 4 sources x 6 and 4 subscribers x 4 ways to cancel in each direction, and channels that send back their input, without preemption; 1 value each, <=%d preemptions at statement granularity; some of them <=%d; up to 130 channels, and 300 values, without", p1, p2),
		Scenarios: []mc.Scenario{
			{Name: "programs", Body: func(c *mc.Ctx) {
				f := &Flow{N: pick(c, 0, 2), End: mc.Pick(c, ends), Src: c.Choose(SFail + 1), Sub: pick(c, UAuto, UOne, UHand, UBlock, UAsync, UPairs), Cancel: c.Choose(4)}
				g := &Flow{N: pick(c, 0, 2), End: mc.Pick(c, ends), Src: pick(c, SSync, SThread, SLate, SSlice), Sub: pick(c, UAuto, UOne, UHand, UNone), Cancel: pick(c, CNever, CNext, CLater, CBefore)}
				f.Legal(c)
				g.Legal(c)
				hpair.Run(c, 0, false, []int{0}, &Call{Kind: RC, Out: f, In: g})
			}},
			{Name: "echo", Body: func(c *mc.Ctx) {
				f := &Flow{Src: SEcho, Sub: pick(c, UAuto, UOne, UHand, UBlock, UAsync, UPairs), Cancel: c.Choose(4)}
				g := &Flow{N: c.Choose(4), End: mc.Pick(c, ends), Src: c.Choose(SFail + 1)}
				f.Legal(c)
				g.Legal(c)
				hpair.Run(c, 0, false, []int{c.Choose(2)}, &Call{Kind: RC, Out: f, In: g})
			}},
			{Name: "odd operations", Body: func(c *mc.Ctx) {
				f := &Flow{Sub: pick(c, UAuto, UOne, UHand, UPairs, UBlock, UAsync), Cancel: pick(c, CNever, CLater)}
				g := &Flow{N: c.Choose(2), End: mc.Pick(c, ends), Src: pick(c, SSync, SThread)}
				f.Legal(c)
				hpair.Run(c, p1, true, []int{c.Choose(2)}, &Call{Kind: RC, Op: 1 + c.Choose(4), Out: f, In: g})
			}},
			{Name: "schedules", Body: func(c *mc.Ctx) {
				f := &Flow{N: 1, End: mc.Pick(c, ends), Src: pick(c, SSync, SThread), Sub: pick(c, UAuto, UOne), Cancel: pick(c, CNever, CNext, CLater)}
				g := &Flow{N: 1, End: mc.Pick(c, ends), Src: pick(c, SSync, SThread), Sub: pick(c, UAuto, UOne), Cancel: pick(c, CNever, CNext, CLater)}
				hpair.Run(c, p1, true, []int{0}, &Call{Kind: RC, Out: f, In: g})
			}},
			{Name: "echo schedules", Body: func(c *mc.Ctx) {
				f := &Flow{Src: SEcho, Sub: pick(c, UAuto, UOne, UHand), Cancel: pick(c, CNever, CNext, CLater)}
				g := &Flow{N: 1, End: mc.Pick(c, ends), Src: pick(c, SSync, SThread)}
				hpair.Run(c, p1, true, []int{1}, &Call{Kind: RC, Out: f, In: g})
			}},
			{Name: "handler waits for a request of its own", Body: func(c *mc.Ctx) {
				f := &Flow{N: 1, End: mc.Pick(c, ends), Src: SSync, Sub: pick(c, UAuto, UOne), Cancel: pick(c, CNever, CLater)}
				g := &Flow{N: 1, End: "complete", Src: pick(c, SSync, SThread), Sub: UAuto}
				hpair.Run(c, mc.Bound(0, 1), true, []int{c.Choose(2)}, &Call{Kind: RC, Out: f, In: g, Waits: true, Nested: &Call{Kind: RR, Answer: pick(c, AJust, AThread)}})
			}},
			{Name: "values that cannot be sent", Body: func(c *mc.Ctx) {
				f := &Flow{N: c.Choose(2), End: mc.Pick(c, ends), Src: pick(c, SSync, SThread, SSlice, SFail), Sub: pick(c, UAuto, UOne, UHand, UAsync), Cancel: pick(c, CNever, CLater)}
				g := &Flow{N: c.Choose(3), End: mc.Pick(c, ends), Src: pick(c, SSync, SThread, SSlice), Sub: pick(c, UAuto, UOne, UHand), Cancel: pick(c, CNever, CLater)}
				big := f
				if c.Bool() {
					big = g
				}
				big.Big = 1 + c.Choose(big.N+1)
				f.Legal(c)
				g.Legal(c)
				hpair.Run(c, 0, false, []int{c.Choose(2)}, &Call{Kind: RC, Out: f, In: g})
			}},
			{Name: "schedules with values that cannot be sent", Body: func(c *mc.Ctx) {
				f := &Flow{N: 1, End: "error", Src: pick(c, SSync, SThread), Sub: UAuto}
				g := &Flow{N: 1, End: "error", Src: pick(c, SSync, SThread), Sub: UAuto}
				big := f
				if c.Bool() {
					big = g
				}
				big.Big = 1 + c.Choose(2)
				hpair.Run(c, p1, true, []int{c.Choose(2)}, &Call{Kind: RC, Out: f, In: g})
			}},
			{Name: "source waits for a request of its own", Body: func(c *mc.Ctx) {
				f := &Flow{N: 2, End: mc.Pick(c, ends), Src: pick(c, SSync, SThread), Sub: pick(c, UOne, UHand), Cancel: pick(c, CNever, CLater)}
				g := &Flow{N: 2, End: "complete", Src: pick(c, SSync, SThread), Sub: pick(c, UOne, UHand)}
				w := mc.Pick(c, []*Flow{f, g})
				w.WaitAt, w.Nested = 1+c.Choose(2), &Call{Kind: RR, Answer: pick(c, AJust, AThread)}
				hpair.Run(c, mc.Bound(0, 1), true, []int{c.Choose(2)}, &Call{Kind: RC, Out: f, In: g})
			}},
			{Name: "deeper", Body: func(c *mc.Ctx) {
				f := &Flow{N: 1, End: mc.Pick(c, ends), Src: SSync, Sub: UAuto}
				g := &Flow{N: 1, End: "complete", Src: SSync, Sub: UAuto}
				hpair.Run(c, p2, true, []int{0}, &Call{Kind: RC, Out: f, In: g})
			}},
			{Name: "cancelled, deeper", Body: func(c *mc.Ctx) {
				f := &Flow{N: 0, End: mc.Pick(c, ends), Src: SSync, Sub: UAuto, Cancel: CLater}
				g := &Flow{N: 0, End: "complete", Src: SSync, Sub: UAuto}
				hpair.Run(c, p2, true, []int{0}, &Call{Kind: RC, Out: f, In: g})
			}},
			{Name: "many values", Body: func(c *mc.Ctx) {
				f, g := Long(c, SSync, SThread), &Flow{N: pick(c, 3, 129), End: "complete", Src: SThread, Sub: UOne}
				f.End = "complete"
				if c.Bool() {
					f, g = g, f
				}
				hpair.Run(c, 0, false, []int{0}, &Call{Kind: RC, Out: f, In: g})
			}},
			{Name: "echo of many values", Body: func(c *mc.Ctx) {
				f := &Flow{Src: SEcho, Sub: pick(c, UAuto, UOne, UBlock, UPairs)}
				hpair.Run(c, 0, false, []int{c.Choose(2)}, &Call{Kind: RC, Out: f, In: &Flow{N: pick(c, 65, 130, 300), End: "complete", Src: pick(c, SSync, SThread)}})
			}},
			{Name: "many channels at once", Body: func(c *mc.Ctx) {
				n, sides := pick(c, 5, 17, 33, 65, 130), [][]int{{0}, {1}, {0, 1}}[c.Choose(3)]
				hpair.Run(c, 0, false, sides, Many(n, RC, 0)...)
			}},
		},
		Assumptions: []string{"the connection delivers frames in order", "sources emit from one goroutine at a time, only what was asked for"},
	})
}
