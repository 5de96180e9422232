// C05: stream identifiers.
package main

import (
	"context"
	"fmt"

	"github.com/nanobus/iota/go/handler"
	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/socket"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/zzverif/mc"
	"github.com/nanobus/iota/go/zzverif/vsched"
)

var bg = context.Background()

const half = uint64(1) << 30 // identifiers of one parity

var starts = []uint64{0, 1, 2, 254, 1 << 16, 1<<29 - 3, half - 6, half - 5, half - 4, half - 3, half - 2, half - 1, half, half + 1,
	2*half - 4, 2*half - 2, 2*half - 1, 2 * half, 3*half - 2, 4*half - 2}

func next(server bool, ctr *uint64) (uint32, bool) {
	if server {
		return (*socket.ServerStreamIDs)(ctr).Next()
	}
	return (*socket.ClientStreamIDs)(ctr).Next()
}

func valid(c *mc.Ctx, server bool, id uint32) {
	if id == 0 {
		c.Failf("handed out stream 0, which belongs to the connection")
	}
	if id>>31 != 0 {
		c.Failf("identifier %#x needs 32 bits", id)
	}
	want := uint32(1)
	if server {
		want = 0
	}
	if id&1 != want {
		c.Failf("identifier %d has the other side's parity (server=%v)", id, server)
	}
}

// sequential walks runs of identifiers, the wrap-around included.
func sequential(c *mc.Ctx) {
	server := c.Bool()
	ctr := mc.Pick(c, starts)
	fresh := ctr == 0
	passes := ctr < half // still in the first pass over the identifiers
	c.Logf("server=%v counter=%d", server, ctr)
	n := 2000
	seen := map[uint32]bool{}
	var prev uint32
	wrapped := !passes
	for i := 0; i < n; i++ {
		c.Step()
		id, first := next(server, &ctr)
		valid(c, server, id)
		if seen[id] {
			c.Failf("identifier %d handed out twice within %d allocations", id, i)
		}
		seen[id] = true
		if i == 0 && fresh {
			want := uint32(1)
			if server {
				want = 2
			}
			if id != want {
				c.Failf("first identifier is %d, want %d", id, want)
			}
		}
		if i == 0 && !first && ctr > half {
			wrapped = true
		}
		if i > 0 {
			if id < prev {
				if prev < 0x7ffffffe {
					c.Failf("identifier %d follows %d before the space is used up", id, prev)
				}
				wrapped = true
			} else if id != prev+2 {
				c.Failf("identifier %d follows %d: not the next one", id, prev)
			}
			if first == wrapped {
				c.Failf("identifier %d: first-pass marker is %v, wrapped=%v", id, first, wrapped)
			}
		}
		prev = id
	}
	c.State(server, ctr, prev)
}

// concurrent: identifiers taken by several threads at once are all different.
func concurrent(threads, per, pre int) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		server := c.Bool()
		ctr := mc.Pick(c, []uint64{0, half - 2, half - 1, half})
		c.Logf("server=%v counter=%d", server, ctr)
		vsched.Run(c, vsched.Options{Preemptions: pre, Fine: true}, func() {
			seen := map[uint32]int{}
			order := ""
			for t := 0; t < threads; t++ {
				t := t
				vsched.GoNamed(fmt.Sprintf("t%d", t), func() {
					for k := 0; k < per; k++ {
						id, _ := next(server, &ctr)
						vsched.Logf("t%d got %d", t, id)
						valid(c, server, id)
						if o, dup := seen[id]; dup {
							c.Failf("identifier %d handed to two requests (threads %d and %d)", id, o, t)
						}
						seen[id] = t
						order += fmt.Sprint(t, ":", id, " ")
					}
				})
			}
			vsched.Quiesce()
			if len(seen) != threads*per {
				c.Failf("only %d identifiers from %d allocations: %v", len(seen), threads*per, vsched.Blocked())
			}
			c.State(order)
		})
	}
}

// handlers: requests issued through both ends of a connection never share a
// stream, and every frame of a request carries its own identifier.
func handlers(c *mc.Ctx) {
	mode := handler.ClientMode
	if c.Bool() {
		mode = handler.ServerMode
	}
	vsched.Run(c, vsched.Options{Preemptions: 2}, func() {
		h := handler.New(bg, mode)
		var ids []uint32
		h.SetFrameSender(func(f frames.Frame) error {
			if f.Type() < frames.FrameTypeRequestN {
				ids = append(ids, f.GetStreamID())
			}
			return nil
		})
		for t := 0; t < 2; t++ {
			t := t
			vsched.GoNamed(fmt.Sprintf("caller%d", t), func() {
				for k := 0; k < 2; k++ {
					call(h, (t+k)%4)
				}
			})
		}
		vsched.Quiesce()
		seen := map[uint32]bool{}
		for _, id := range ids {
			valid(c, mode == handler.ServerMode, id)
			if seen[id] {
				c.Failf("two requests on stream %d: %v", id, ids)
			}
			seen[id] = true
		}
		if len(ids) != 4 {
			c.Failf("%d requests sent, want 4: %v (blocked %v)", len(ids), ids, vsched.Blocked())
		}
		c.State(fmt.Sprint(ids))
	})
}

func call(h *handler.Handler, kind int) {
	p := payload.New([]byte("x"), make([]byte, 8))
	switch kind {
	case 0:
		h.RequestResponse(bg, p).Subscribe(mono.Subscribe[payload.Payload]{})
	case 1:
		h.FireAndForget(bg, p)
	case 2:
		h.RequestStream(bg, p).Subscribe(flux.Subscribe[payload.Payload]{})
	case 3:
		in := flux.FromSlice([]payload.Payload{})
		h.RequestChannel(bg, p, in).Subscribe(flux.Subscribe[payload.Payload]{})
	}
}

func main() {
	pre := mc.Bound(3, 6)
	mc.Main(mc.Config{
		ID:     "C05",
		Rule:   "exhaustive: every listed counter position walked for 2000 allocations on both sides; every interleaving of concurrent allocations and of concurrent requests within the preemption bound",
		Bounds: fmt.Sprintf("20 counter positions around every wrap of the 31-bit space; 2-3 threads x 1-2 allocations, <=%d preemptions; 2 callers x 2 requests of the four kinds, <=2 preemptions", pre),
		Scenarios: []mc.Scenario{
			{Name: "walk", Body: sequential},
			{Name: "2x2 concurrent", Body: concurrent(2, 2, pre)},
			{Name: "3x1 concurrent", Body: concurrent(3, 1, pre)},
			{Name: "requests", Body: handlers},
		},
		Assumptions: []string{"sequentially consistent memory at statement granularity"},
	})
}
