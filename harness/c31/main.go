// C31: calls between a host and its guest are answered as the handlers say.
package main

import (
	"fmt"

	"github.com/nanobus/iota/go/zzverif/mc"
	. "github.com/nanobus/iota/go/zzverif/proto"
	"github.com/nanobus/iota/go/zzverif/wpair"
)

func pick(c *mc.Ctx, xs ...int) int { return mc.Pick(c, xs) }

var ends = []string{"complete", "error", "never"}

// guest skips what a guest cannot do.
func guest(c *mc.Ctx, bad bool) {
	if bad {
		c.Skip()
	}
}

func main() {
	p1, p2 := mc.Bound(1, 2), mc.Bound(2, 3)
	mc.Main(mc.Config{
		ID:     "C31",
		Rule:   "the packages of the guest, built as for WebAssembly, on a host instance: all ways to answer and to wait for calls of every kind, made by either side, and all interleavings of the host's goroutines with the guest's turns",
		Bounds: fmt.Sprintf("the programs of C09-C12 without preemption, some of them with <=%d preemptions at statement granularity and <=%d for the smallest; handlers that call back; two calls in one or both directions; up to 130 calls at once, 260 in turn and 300 values without preemption", p1, p2),
		Scenarios: []mc.Scenario{
			{Name: "responses", Body: func(c *mc.Ctx) {
				side, mode := c.Choose(2), c.Choose(4)
				guest(c, side == 0 && mode == MBlock)
				wpair.Run(c, p2, true, []int{side}, &Call{Kind: RR, Op: pick(c, OpOK, OpNone, OpShort, OpFar), Answer: c.Choose(7), Mode: mode})
			}},
			{Name: "handler calls back", Body: func(c *mc.Ctx) {
				side, mode := c.Choose(2), c.Choose(4)
				guest(c, side == 0 && mode == MBlock)
				wpair.Run(c, p1, true, []int{side}, &Call{Kind: RR, Answer: ANested, Mode: mode, Nested: &Call{Kind: RR, Op: c.Choose(3), Answer: pick(c, AJust, AFail, ASync, AThread, AThreadFail)}})
			}},
			{Name: "handler waits for a request of its own", Body: func(c *mc.Ctx) {
				// Only the host's can.
				nested := &Call{Kind: RR, Op: c.Choose(3), Answer: pick(c, AJust, AFail, AThread)}
				call := &Call{Kind: c.Choose(4), Answer: pick(c, AJust, AThread), Waits: true, Nested: nested}
				if call.Kind >= RS {
					call.Out = &Flow{N: 1, End: mc.Pick(c, ends), Src: pick(c, SSync, SThread), Sub: pick(c, UAuto, UOne), Cancel: pick(c, CNever, CLater)}
				}
				if call.Kind == RC {
					call.In = &Flow{N: 1, End: "complete", Src: pick(c, SSync, SThread), Sub: UAuto}
				}
				wpair.Run(c, p1, true, []int{0}, call)
			}},
			{Name: "source of a stream waits for a request of its own", Body: func(c *mc.Ctx) {
				f := &Flow{N: 2, End: mc.Pick(c, ends), Src: pick(c, SSync, SThread, SLate), Sub: pick(c, UOne, UPairs, UHand), Cancel: pick(c, CNever, CLater), WaitAt: 1 + c.Choose(2), Nested: &Call{Kind: RR, Answer: pick(c, AJust, AThread, AFail)}}
				wpair.Run(c, p1, true, []int{0}, &Call{Kind: RS, Out: f})
			}},
			{Name: "source of a channel waits for a request of its own", Body: func(c *mc.Ctx) {
				f := &Flow{N: 2, End: mc.Pick(c, ends), Src: pick(c, SSync, SThread), Sub: pick(c, UOne, UHand), Cancel: pick(c, CNever, CLater)}
				g := &Flow{N: 2, End: "complete", Src: pick(c, SSync, SThread), Sub: pick(c, UOne, UHand)}
				side := c.Choose(2)
				w := []*Flow{f, g}[side] // of the host
				w.WaitAt, w.Nested = 1+c.Choose(2), &Call{Kind: RR, Answer: pick(c, AJust, AThread)}
				wpair.Run(c, mc.Bound(0, 1), true, []int{side}, &Call{Kind: RC, Out: f, In: g})
			}},
			{Name: "two responses", Body: func(c *mc.Ctx) {
				s1, s2 := c.Choose(2), c.Choose(2)
				wpair.Run(c, p1, true, []int{s1, s2}, &Call{Kind: RR, Answer: c.Choose(7), Mode: MSub}, &Call{Kind: RR, Answer: c.Choose(7), Mode: pick(c, MSub, MAsync)})
			}},
			{Name: "fire and forget", Body: func(c *mc.Ctx) {
				s1, s2 := c.Choose(2), c.Choose(2)
				if c.Bool() {
					wpair.Run(c, p1, true, []int{s1}, &Call{Kind: FNF, Op: pick(c, OpOK, OpNone, OpShort, OpFar)})
					return
				}
				other := &Call{Kind: FNF, Op: c.Choose(3)}
				if c.Bool() {
					other = &Call{Kind: RR, Op: c.Choose(3), Answer: c.Choose(7)}
				}
				wpair.Run(c, p1, true, []int{s1, s2}, &Call{Kind: FNF, Op: c.Choose(3)}, other)
			}},
			{Name: "streams", Body: func(c *mc.Ctx) {
				side := c.Choose(2)
				f := &Flow{N: c.Choose(mc.Bound(4, 6)), End: mc.Pick(c, ends), Src: c.Choose(SFail + 1), Sub: c.Choose(UNone + 1), Cancel: c.Choose(4)}
				f.Legal(c)
				guest(c, side == 0 && f.Sub == UBlock)
				wpair.Run(c, 0, false, []int{side}, &Call{Kind: RS, Out: f})
			}},
			{Name: "stream schedules", Body: func(c *mc.Ctx) {
				f := &Flow{N: 2, End: mc.Pick(c, ends), Src: pick(c, SSync, SThread, SLate, SSlice), Sub: pick(c, UAuto, UOne, UPairs, UHand), Cancel: pick(c, CNever, CNext, CLater)}
				f.Legal(c)
				wpair.Run(c, p1, true, []int{c.Choose(2)}, &Call{Kind: RS, Out: f})
			}},
			{Name: "streams of odd operations", Body: func(c *mc.Ctx) {
				f := &Flow{Sub: pick(c, UAuto, UOne, UHand, UPairs, UAsync), Cancel: pick(c, CNever, CLater)}
				f.Legal(c)
				call := &Call{Kind: RS, Op: 1 + c.Choose(4), Out: f}
				if c.Bool() {
					call.Kind, call.In = RC, &Flow{N: c.Choose(2), End: mc.Pick(c, ends), Src: pick(c, SSync, SThread)}
				}
				wpair.Run(c, p1, true, []int{c.Choose(2)}, call)
			}},
			{Name: "channels", Body: func(c *mc.Ctx) {
				side := c.Choose(2)
				f := &Flow{N: pick(c, 0, 2), End: mc.Pick(c, ends), Src: c.Choose(SFail + 1), Sub: pick(c, UAuto, UOne, UHand, UBlock, UAsync, UPairs), Cancel: c.Choose(4)}
				g := &Flow{N: pick(c, 0, 2), End: mc.Pick(c, ends), Src: pick(c, SSync, SThread, SLate, SSlice), Sub: pick(c, UAuto, UOne, UHand, UNone), Cancel: pick(c, CNever, CNext, CLater, CBefore)}
				f.Legal(c)
				g.Legal(c)
				guest(c, side == 0 && f.Sub == UBlock)
				wpair.Run(c, 0, false, []int{side}, &Call{Kind: RC, Out: f, In: g})
			}},
			{Name: "echo", Body: func(c *mc.Ctx) {
				side := c.Choose(2)
				f := &Flow{Src: SEcho, Sub: pick(c, UAuto, UOne, UHand, UBlock, UAsync, UPairs), Cancel: c.Choose(4)}
				g := &Flow{N: c.Choose(4), End: mc.Pick(c, ends), Src: c.Choose(SFail + 1)}
				f.Legal(c)
				g.Legal(c)
				guest(c, side == 0 && f.Sub == UBlock)
				wpair.Run(c, 0, false, []int{side}, &Call{Kind: RC, Out: f, In: g})
			}},
			{Name: "channel schedules", Body: func(c *mc.Ctx) {
				f := &Flow{N: 1, End: mc.Pick(c, ends), Src: pick(c, SSync, SThread), Sub: pick(c, UAuto, UOne), Cancel: pick(c, CNever, CNext, CLater)}
				g := &Flow{N: 1, End: mc.Pick(c, ends), Src: pick(c, SSync, SThread), Sub: pick(c, UAuto, UOne), Cancel: pick(c, CNever, CNext, CLater)}
				wpair.Run(c, p1, true, []int{c.Choose(2)}, &Call{Kind: RC, Out: f, In: g})
			}},
			{Name: "requests and answers that cannot be sent", Body: func(c *mc.Ctx) {
				call := &Call{Kind: RR, Op: OpBig, Mode: c.Choose(4)}
				switch c.Choose(3) {
				case 0:
					call = &Call{Kind: RR, Big: true, Answer: c.Choose(ANever), Mode: c.Choose(4)}
				case 1:
					call = &Call{Kind: FNF, Op: OpBig}
				}
				side := c.Choose(2)
				guest(c, side == 0 && call.Mode == MBlock)
				wpair.Run(c, p1, true, []int{side, c.Choose(2)}, call, &Call{Kind: RR, Answer: pick(c, AJust, AThread)})
			}},
			{Name: "streams of values that cannot be sent", Body: func(c *mc.Ctx) {
				f := &Flow{N: c.Choose(mc.Bound(3, 5)), End: mc.Pick(c, ends), Src: c.Choose(SFail + 1), Sub: c.Choose(UNone), Cancel: c.Choose(4)}
				f.Big = 1 + c.Choose(f.N+1)
				f.Legal(c)
				side := c.Choose(2)
				guest(c, side == 0 && f.Sub == UBlock)
				wpair.Run(c, 0, false, []int{side}, &Call{Kind: RS, Out: f})
			}},
			{Name: "channel values that cannot be sent", Body: func(c *mc.Ctx) {
				f := &Flow{N: c.Choose(2), End: mc.Pick(c, ends), Src: pick(c, SSync, SThread, SSlice, SFail), Sub: pick(c, UAuto, UOne, UHand, UAsync), Cancel: pick(c, CNever, CLater)}
				g := &Flow{N: c.Choose(3), End: mc.Pick(c, ends), Src: pick(c, SSync, SThread, SSlice), Sub: pick(c, UAuto, UOne, UHand), Cancel: pick(c, CNever, CLater)}
				big := f
				if c.Bool() {
					big = g
				}
				big.Big = 1 + c.Choose(big.N+1)
				f.Legal(c)
				g.Legal(c)
				wpair.Run(c, 0, false, []int{c.Choose(2)}, &Call{Kind: RC, Out: f, In: g})
			}},
			{Name: "channel schedules with values that cannot be sent", Body: func(c *mc.Ctx) {
				f := &Flow{N: 1, End: "error", Src: pick(c, SSync, SThread), Sub: UAuto}
				g := &Flow{N: 1, End: "error", Src: pick(c, SSync, SThread), Sub: UAuto}
				big := f
				if c.Bool() {
					big = g
				}
				big.Big = 1 + c.Choose(2)
				wpair.Run(c, p1, true, []int{c.Choose(2)}, &Call{Kind: RC, Out: f, In: g})
			}},
			{Name: "stream and stream", Body: func(c *mc.Ctx) {
				f := &Flow{N: 1, End: "complete", Src: SSync, Sub: UAuto, Cancel: pick(c, CNever, CLater)}
				g := &Flow{N: 2, End: "error", Src: SThread, Sub: UOne}
				wpair.Run(c, p1, true, []int{c.Choose(2), c.Choose(2)}, &Call{Kind: RS, Out: f}, &Call{Kind: RS, Out: g})
			}},
			{Name: "many calls at once", Body: func(c *mc.Ctx) {
				n, sides := pick(c, 5, 17, 33, 65, 130), [][]int{{0}, {1}, {0, 1}}[c.Choose(3)]
				order := c.Choose(5)
				guest(c, order > 0 && len(sides) > 1) // answers at once
				wpair.Run(c, 0, false, sides, Many(n, c.Choose(5), order)...)
			}},
			{Name: "many calls one after the other", Body: func(c *mc.Ctx) {
				n, sides := pick(c, 17, 65, 130, 260), [][]int{{0}, {1}, {0, 1}}[c.Choose(3)]
				calls, k := Many(n, c.Choose(5), 0), pick(c, 1, 2, 5)
				var lots [][]*Call
				for len(calls) > 0 {
					k = min(k, len(calls))
					lots, calls = append(lots, calls[:k]), calls[k:]
				}
				wpair.Rounds(c, 0, false, sides, lots...)
			}},
			{Name: "streams of many values", Body: func(c *mc.Ctx) {
				side, f := c.Choose(2), Long(c, SSync, SThread, SLate, SSlice)
				guest(c, side == 0 && f.Sub == UBlock)
				wpair.Run(c, 0, false, []int{side}, &Call{Kind: RS, Out: f})
			}},
			{Name: "channels of many values", Body: func(c *mc.Ctx) {
				f, g := Long(c, SSync, SThread), &Flow{N: pick(c, 3, 129), End: "complete", Src: SThread, Sub: UOne}
				guest(c, f.Sub == UBlock)
				f.End = "complete"
				if c.Bool() {
					f, g = g, f
				}
				wpair.Run(c, 0, false, []int{c.Choose(2)}, &Call{Kind: RC, Out: f, In: g})
			}},
		},
		Assumptions: []string{"the guest runs only when the host calls it, on one thread", "sources emit only what was asked for; handlers answer at most once", "the WebAssembly engine is replaced: the guest's packages run natively, with a memory that moves at every call"},
	})
}
