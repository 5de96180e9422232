// C12: a fire and forget request reaches its handler once and nothing comes back.
package main

import (
	"fmt"

	"github.com/nanobus/iota/go/zzverif/hpair"
	"github.com/nanobus/iota/go/zzverif/mc"
	. "github.com/nanobus/iota/go/zzverif/proto"
)

func pick(c *mc.Ctx, xs ...int) int { return mc.Pick(c, xs) }

func main() {
	pre := mc.Bound(2, 3)
	mc.Main(mc.Config{
		ID:     "C12",
		Rule:   "all ways to name the operation, alone and next to other calls in either direction, and all interleavings",
		Bounds: fmt.Sprintf("1-3 calls, 3 operations, <=%d preemptions at statement granularity; up to 130 calls at once and 260 in turn without", pre),
		Scenarios: []mc.Scenario{
			{Name: "one", Body: func(c *mc.Ctx) {
				hpair.Run(c, pre, true, []int{c.Choose(2)}, &Call{Kind: FNF, Op: c.Choose(5)})
			}},
			{Name: "two", Body: func(c *mc.Ctx) {
				hpair.Run(c, pre, true, []int{0, c.Choose(2)}, &Call{Kind: FNF, Op: c.Choose(3)}, &Call{Kind: FNF, Op: c.Choose(3)})
			}},
			{Name: "three", Body: func(c *mc.Ctx) {
				hpair.Run(c, pre-1, true, []int{0, 1, 0}, &Call{Kind: FNF, Op: c.Choose(3)}, &Call{Kind: FNF, Op: c.Choose(3)}, &Call{Kind: FNF})
			}},
			{Name: "handler waits for a request of its own", Body: func(c *mc.Ctx) {
				hpair.Run(c, pre-1, true, []int{c.Choose(2)}, &Call{Kind: FNF, Waits: true, Nested: &Call{Kind: RR, Op: c.Choose(3), Answer: mc.Pick(c, []int{AJust, AFail, AThread})}})
			}},
			{Name: "with a request", Body: func(c *mc.Ctx) {
				hpair.Run(c, pre-1, true, []int{0, c.Choose(2)}, &Call{Kind: FNF, Op: c.Choose(3)}, &Call{Kind: RR, Op: c.Choose(3), Answer: c.Choose(7)})
			}},
			{Name: "what cannot be sent", Body: func(c *mc.Ctx) {
				hpair.Run(c, pre-1, true, []int{0, c.Choose(2)}, &Call{Kind: FNF, Op: OpBig}, &Call{Kind: FNF, Op: c.Choose(4)})
			}},
			{Name: "with a stream", Body: func(c *mc.Ctx) {
				hpair.Run(c, pre-1, true, []int{0, c.Choose(2)}, &Call{Kind: FNF, Op: c.Choose(3)}, &Call{Kind: RS, Op: c.Choose(3), Out: &Flow{N: 2, End: "complete", Sub: UOne}})
			}},
			{Name: "many calls at once", Body: func(c *mc.Ctx) {
				n, sides := pick(c, 5, 17, 33, 65, 130), [][]int{{0}, {1}, {0, 1}}[c.Choose(3)]
				hpair.Run(c, 0, false, sides, Many(n, pick(c, FNF, 4), 0)...)
			}},
			{Name: "many calls one after the other", Body: func(c *mc.Ctx) {
				n, sides := pick(c, 17, 65, 130, 260), [][]int{{0}, {1}, {0, 1}}[c.Choose(3)]
				calls, k := Many(n, pick(c, FNF, 4), 0), pick(c, 1, 2, 5)
				var lots [][]*Call
				for len(calls) > 0 {
					k = min(k, len(calls))
					lots, calls = append(lots, calls[:k]), calls[k:]
				}
				hpair.Rounds(c, 0, false, sides, lots...)
			}},
		},
		Assumptions: []string{"the connection delivers frames in order"},
	})
}
