// C09: a request/response settles once, with its own answer.
package main

import (
	"fmt"

	"github.com/nanobus/iota/go/zzverif/hpair"
	"github.com/nanobus/iota/go/zzverif/mc"
	. "github.com/nanobus/iota/go/zzverif/proto"
)

func pick(c *mc.Ctx, xs ...int) int { return mc.Pick(c, xs) }

func main() {
	p1, p2, p3 := mc.Bound(1, 2), mc.Bound(2, 3), mc.Bound(1, 2)
	mc.Main(mc.Config{
		ID:     "C09",
		Rule:   "all ways to answer, to name the operation and to wait for the response, and all interleavings of both endpoints, the connection, the answering goroutines and the callers",
		Bounds: fmt.Sprintf("one call: 3 operations x 7 answers x 4 ways of waiting, <=%d preemptions at statement granularity; two and three calls in one or both directions, <=%d and <=%d preemptions; up to 130 calls at once and 260 in turn without", p2, p1, p3),
		Scenarios: []mc.Scenario{
			{Name: "programs", Body: func(c *mc.Ctx) {
				hpair.Run(c, 0, false, []int{c.Choose(2)}, &Call{Kind: RR, Op: pick(c, OpOK, OpNone, OpShort, OpFar), Answer: c.Choose(7), Mode: c.Choose(4)})
			}},
			{Name: "one call", Body: func(c *mc.Ctx) {
				hpair.Run(c, p2, true, []int{c.Choose(2)}, &Call{Kind: RR, Op: c.Choose(3), Answer: c.Choose(7), Mode: c.Choose(4)})
			}},
			{Name: "two calls", Body: func(c *mc.Ctx) {
				hpair.Run(c, p1, true, []int{0, c.Choose(2)}, &Call{Kind: RR, Answer: c.Choose(7), Mode: c.Choose(4)}, &Call{Kind: RR, Answer: c.Choose(7), Mode: c.Choose(4)})
			}},
			{Name: "two calls, deeper", Body: func(c *mc.Ctx) {
				hpair.Run(c, p2, true, []int{0, c.Choose(2)}, &Call{Kind: RR, Answer: pick(c, AJust, AFail), Mode: MSub}, &Call{Kind: RR, Answer: pick(c, AJust, AThread), Mode: MSub})
			}},
			{Name: "three calls", Body: func(c *mc.Ctx) {
				hpair.Run(c, p3, true, []int{0, 1, 0}, &Call{Kind: RR, Answer: pick(c, AJust, AFail, ANever), Mode: MSub}, &Call{Kind: RR, Answer: pick(c, AThread, AThreadFail), Mode: MBlock}, &Call{Kind: RR, Answer: pick(c, AJust, AThread, AFail), Mode: MAsync})
			}},
			{Name: "handler waits for a request of its own", Body: func(c *mc.Ctx) {
				hpair.Run(c, p1, true, []int{c.Choose(2)}, &Call{Kind: RR, Answer: pick(c, AJust, AFail, AThread), Mode: c.Choose(4), Waits: true, Nested: &Call{Kind: RR, Op: c.Choose(3), Answer: pick(c, AJust, AFail, AThread)}})
			}},
			{Name: "what cannot be sent", Body: func(c *mc.Ctx) {
				call := &Call{Kind: RR, Op: OpBig, Mode: c.Choose(4)}
				if c.Bool() {
					call = &Call{Kind: RR, Big: true, Answer: c.Choose(ANever), Mode: c.Choose(4)}
				}
				side := c.Choose(2)
				if c.Bool() {
					hpair.Run(c, p1, true, []int{side}, call)
					return
				}
				hpair.Run(c, p1, true, []int{side, c.Choose(2)}, call, &Call{Kind: RR, Answer: pick(c, AJust, AThread)})
			}},
			{Name: "handler calls back", Body: func(c *mc.Ctx) {
				hpair.Run(c, p1, true, []int{c.Choose(2)}, &Call{Kind: RR, Answer: ANested, Mode: c.Choose(4), Nested: &Call{Kind: RR, Op: c.Choose(3), Answer: pick(c, AJust, AFail, ASync, AThread, AThreadFail)}})
			}},
			{Name: "many calls at once", Body: func(c *mc.Ctx) {
				n, sides := pick(c, 5, 17, 33, 65, 130), [][]int{{0}, {1}, {0, 1}}[c.Choose(3)]
				hpair.Run(c, 0, false, sides, Many(n, pick(c, RR, 4), c.Choose(5))...)
			}},
			{Name: "many calls one after the other", Body: func(c *mc.Ctx) {
				n, sides := pick(c, 17, 65, 130, 260), [][]int{{0}, {1}, {0, 1}}[c.Choose(3)]
				calls, k := Many(n, pick(c, RR, 4), 0), pick(c, 1, 2, 5)
				var lots [][]*Call
				for len(calls) > 0 {
					k = min(k, len(calls))
					lots, calls = append(lots, calls[:k]), calls[k:]
				}
				hpair.Rounds(c, 0, false, sides, lots...)
			}},
		},
		Assumptions: []string{"the connection delivers frames in order", "handlers answer at most once"},
	})
}
