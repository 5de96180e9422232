// C21: the registry of exported and imported operations.
package main

import (
	"context"
	"fmt"
	"sync/atomic"

	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/zzverif/mc"
)

var kinds = []string{"request/response", "fire and forget", "request/stream", "request/channel"}

// called is set by the handler that was called.
var called int

func export(kind int, ns, op string, tag int) {
	switch kind {
	case 0:
		invoke.ExportRequestResponse(ns, op, func(context.Context, payload.Payload) mono.Mono[payload.Payload] { called = tag; return nil })
	case 1:
		invoke.ExportFireAndForget(ns, op, func(context.Context, payload.Payload) { called = tag })
	case 2:
		invoke.ExportRequestStream(ns, op, func(context.Context, payload.Payload) flux.Flux[payload.Payload] { called = tag; return nil })
	case 3:
		invoke.ExportRequestChannel(ns, op, func(context.Context, payload.Payload, flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
			called = tag
			return nil
		})
	}
}

// call runs the handler of an id; -1 if there is none.
func call(kind int, id uint32) int {
	called = -1
	ctx := context.Background()
	switch kind {
	case 0:
		if h := invoke.GetRequestResponseHandler(id); h != nil {
			h(ctx, nil)
		}
	case 1:
		if h := invoke.GetFireAndForgetHandler(id); h != nil {
			h(ctx, nil)
		}
	case 2:
		if h := invoke.GetRequestStreamHandler(id); h != nil {
			h(ctx, nil)
		}
	case 3:
		if h := invoke.GetRequestChannelHandler(id); h != nil {
			h(ctx, nil, nil)
		}
	}
	return called
}

func imp(kind int, ns, op string) uint32 {
	switch kind {
	case 0:
		return invoke.ImportRequestResponse(ns, op)
	case 1:
		return invoke.ImportFireAndForget(ns, op)
	case 2:
		return invoke.ImportRequestStream(ns, op)
	}
	return invoke.ImportRequestChannel(ns, op)
}

func lists() (r [2][4][]invoke.HandlerInfo) {
	o := invoke.GetOperations()
	for i, h := range []invoke.Handlers{o.Exported, o.Imported} {
		r[i] = [4][]invoke.HandlerInfo{h.RequestResponse, h.FireAndForget, h.RequestStream, h.RequestChannel}
	}
	return
}

var run atomic.Int64

// history drives every history of registrations; the registry is global, so
// each history works under names of its own and relative to what is there.
func history(depth, first, nk int, pairs [][2]string) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		prefix := fmt.Sprintf("%d/", run.Add(1))
		base := lists()
		model := base
		for i := range model {
			for k := range model[i] {
				model[i][k] = append([]invoke.HandlerInfo(nil), model[i][k]...)
			}
		}
		var handlers [4][]int
		ids := map[string]uint32{}
		hist := ""
		tag := 0
		for n := 0; n < depth; n++ {
			x := c.Choose(2 * nk * len(pairs))
			isImport := x%2 == 0
			k := first + x/2%nk
			p := pairs[x/2/nk]
			ns, op := prefix+p[0], p[1]
			c.Step()
			if isImport {
				hist += fmt.Sprintf("import %s %q %q; ", kinds[k], p[0], p[1])
				id := imp(k, ns, op)
				key := fmt.Sprintf("%d %q %q", k, ns, op)
				if old, ok := ids[key]; ok {
					if id != old {
						c.Failf("%simported again under id %d, first under %d", hist, id-uint32(len(base[1][k])), old-uint32(len(base[1][k])))
					}
				} else {
					ids[key] = id
					if id != uint32(len(model[1][k])) {
						c.Failf("%sgets id %d, want the next free one %d", hist, int(id)-len(base[1][k]), len(model[1][k])-len(base[1][k]))
					}
					model[1][k] = append(model[1][k], invoke.HandlerInfo{Namespace: ns, Operation: op})
				}
			} else {
				hist += fmt.Sprintf("export %s %q %q; ", kinds[k], p[0], p[1])
				tag++
				export(k, ns, op, tag)
				handlers[k] = append(handlers[k], tag)
				model[0][k] = append(model[0][k], invoke.HandlerInfo{Namespace: ns, Operation: op})
			}
			// the whole registry after every step
			now := lists()
			for i := range now {
				for k := range now[i] {
					if len(now[i][k]) != len(model[i][k]) {
						c.Failf("%s%s lists %d entries, want %d", hist, kinds[k], len(now[i][k])-len(base[i][k]), len(model[i][k])-len(base[i][k]))
					}
					for j := len(base[i][k]); j < len(now[i][k]); j++ {
						if now[i][k][j] != model[i][k][j] {
							c.Failf("%s%s entry %d is %v, want %v", hist, kinds[k], j-len(base[i][k]), now[i][k][j], model[i][k][j])
						}
					}
				}
			}
			for k := range kinds {
				b := uint32(len(base[0][k]))
				for j, want := range handlers[k] {
					if got := call(k, b+uint32(j)); got != want {
						c.Failf("%sid %d of %s calls handler %d, want %d", hist, j, kinds[k], got, want)
					}
				}
				end := b + uint32(len(handlers[k]))
				for _, id := range []uint32{end, end + 1, end + 2, end + 20, 1 << 16, 1<<31 - 1, 1 << 31, 1<<32 - 1} {
					if id >= end {
						if got := call(k, id); got != -1 {
							c.Failf("%sid %d of %s, never assigned, calls handler %d", hist, id-b, kinds[k], got)
						}
					}
				}
			}
			c.State(len(handlers[0]), len(handlers[1]), len(handlers[2]), len(handlers[3]), len(ids))
		}
		c.Logf("%s", hist)
	}
}

// many fills one kind past every capacity it was made with.
func many(c *mc.Ctx) {
	k := c.Choose(4)
	isImport := c.Bool()
	prefix := fmt.Sprintf("m%d/", run.Add(1))
	base := lists()
	first := lists()
	for i := 0; i < 100; i++ {
		c.Step()
		if isImport {
			for rep := 0; rep < 2; rep++ {
				for j := 0; j <= i; j++ {
					if id := imp(k, prefix, fmt.Sprint(j)); id != uint32(len(base[1][k])+j) {
						c.Failf("import %d of %s after %d imports gets id %d", j, kinds[k], i, int(id)-len(base[1][k]))
					}
				}
			}
		} else {
			export(k, prefix, fmt.Sprint(i), i)
			for j := 0; j <= i; j++ {
				if got := call(k, uint32(len(base[0][k])+j)); got != j {
					c.Failf("after %d exports of %s id %d calls handler %d", i+1, kinds[k], j, got)
				}
			}
		}
	}
	for i := range first {
		for k := range first[i] {
			for j := range first[i][k] {
				if first[i][k][j] != base[i][k][j] {
					c.Failf("a list handed out earlier has changed")
				}
			}
		}
	}
	c.State(k, isImport)
}

func main() {
	two := [][2]string{{"a", "b"}, {"a", "c"}}
	tricky := [][2]string{{"a", "b"}, {"b", "a"}, {"", "ab"}, {"ab", ""}, {"a", ""}, {"", ""}}
	mc.Main(mc.Config{
		ID:     "C21",
		Rule:   "all histories of imports and exports compared with a list model after every step; every id is called, assigned or not; what guests announce, compared with what they registered",
		Bounds: fmt.Sprintf("4 kinds x 2 names, %d steps; each kind x 6 names that collide when joined, %d steps; 100 registrations of each kind; guests with 0-2 operations of each kind and direction, and up to 300", mc.Bound(3, 4), mc.Bound(3, 4)),
		Scenarios: []mc.Scenario{
			{Name: "all kinds", Body: history(mc.Bound(3, 4), 0, 4, two)},
			{Name: "similar names of requests", Body: history(mc.Bound(3, 4), 0, 1, tricky)},
			{Name: "similar names of fire and forget", Body: history(mc.Bound(3, 4), 1, 1, tricky)},
			{Name: "similar names of streams", Body: history(mc.Bound(3, 4), 2, 1, tricky)},
			{Name: "similar names of channels", Body: history(mc.Bound(3, 4), 3, 1, tricky)},
			{Name: "many", Body: many},
			{Name: "guests", Body: guests},
			{Name: "guests with many", Body: manyOfGuests},
		},
		Assumptions: []string{"operations are registered by one goroutine, as generated code does at start-up"},
	})
}
