// C03: fragmentation.
package main

import (
	"fmt"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/zzverif/mc"
	"github.com/nanobus/iota/go/zzverif/wire"
)

func check(c *mc.Ctx, f wire.Frame, max int) {
	c.Step()
	impl := wire.ToImpl(f)
	fr, ok := impl.(interface {
		Fragment(uint32) []frames.Frame
	})
	if !ok {
		c.Failf("%v cannot be fragmented", f.Kind)
	}
	frags := fr.Fragment(uint32(max))
	whole := len(wire.Encode(f))
	desc := fmt.Sprintf("%v split at %d", f, max)
	if !wire.Same(wire.FromImpl(impl), f) {
		c.Failf("%s: the original frame was changed", desc)
	}
	if whole <= max {
		// nothing to split: nil, or the frame itself
		if len(frags) > 1 || (len(frags) == 1 && !wire.Same(wire.FromImpl(frags[0]), f)) {
			c.Failf("%s: fits in %d bytes but was split into %d", desc, whole, len(frags))
		}
		c.State("fits")
		return
	}
	if len(frags) < 2 {
		c.Failf("%s: needs %d bytes but was not split (%d fragments)", desc, whole, len(frags))
	}
	var md, data []byte
	for i, x := range frags {
		v := wire.FromImpl(x)
		b := wire.ImplEncode(x)
		if len(b) > max {
			c.Failf("%s: fragment %d takes %d bytes", desc, i, len(b))
		}
		// what the receiver sees
		w, ok := wire.Decode(b)
		if !ok {
			c.Failf("%s: fragment %d is not well formed: % x", desc, i, b)
		}
		if w.ID != f.ID {
			c.Failf("%s: fragment %d is for stream %d", desc, i, w.ID)
		}
		last := i == len(frags)-1
		if v.Follows != !last || w.Follows != !last {
			c.Failf("%s: fragment %d of %d has follows=%v (on the wire %v)", desc, i, len(frags), v.Follows, w.Follows)
		}
		if i == 0 && f.Kind.IsRequest() {
			if w.Kind != f.Kind {
				c.Failf("%s: first fragment is %v", desc, w.Kind)
			}
			if f.Kind.HasN() && w.N != f.N {
				c.Failf("%s: first fragment has initial n %d", desc, w.N)
			}
			if f.Kind == wire.RequestChannel && w.Complete {
				c.Failf("%s: first fragment is marked complete", desc)
			}
		} else {
			if w.Kind != wire.Payload {
				c.Failf("%s: fragment %d is %v", desc, i, w.Kind)
			}
			if !last && (w.Next || w.Complete) {
				c.Failf("%s: fragment %d carries next=%v complete=%v before the last one", desc, i, w.Next, w.Complete)
			}
			if last {
				if w.Complete != f.Complete {
					c.Failf("%s: last fragment complete=%v", desc, w.Complete)
				}
				if f.Kind == wire.Payload && w.Next != f.Next {
					c.Failf("%s: last fragment next=%v", desc, w.Next)
				}
			}
		}
		if len(w.Metadata) > 0 && len(data) > 0 {
			c.Failf("%s: metadata in fragment %d after data", desc, i)
		}
		if i > 0 && len(w.Metadata)+len(w.Data) == 0 {
			c.Failf("%s: fragment %d is empty", desc, i)
		}
		md = append(md, w.Metadata...)
		data = append(data, w.Data...)
	}
	if string(md) != string(f.Metadata) {
		c.Failf("%s: metadata reassembles to %d bytes %q, want %d", desc, len(md), clip(md), len(f.Metadata))
	}
	if string(data) != string(f.Data) {
		c.Failf("%s: data reassembles to %d bytes %q, want %d", desc, len(data), clip(data), len(f.Data))
	}
	c.State(f.Kind, len(frags), len(f.Metadata) > 0, len(f.Data) > 0)
}

func clip(b []byte) []byte {
	if len(b) > 40 {
		return b[:40]
	}
	return b
}

var kinds = []wire.Kind{wire.RequestResponse, wire.RequestFNF, wire.RequestStream, wire.RequestChannel, wire.Payload}

func frame(c *mc.Ctx) wire.Frame {
	f := wire.Frame{Kind: mc.Pick(c, kinds), ID: 0x01020304, N: 1, Complete: true}
	if f.Kind == wire.Payload {
		f.Next, f.Complete, f.N = c.Bool(), c.Bool(), 0
	}
	if f.Kind == wire.RequestChannel {
		f.Complete = c.Bool()
	}
	if f.Kind.HasN() {
		f.N = mc.Pick(c, []uint32{0, 7, 0x7fffffff})
	}
	return f
}

func small(c *mc.Ctx) {
	f := frame(c)
	n := mc.Bound(48, 90)
	max := 16 + c.Choose(mc.Bound(14, 30))
	m := c.Choose(n)
	f.Metadata = wire.Bytes(m, 1)
	for d := 0; d < n; d++ {
		f.Data = wire.Bytes(d, 2)
		check(c, f, max)
	}
	c.Logf("%v max %d, data 0..%d", f, max, n-1)
}

func large(c *mc.Ctx) {
	f := frame(c)
	max := mc.Pick(c, []int{64, 1024, 1033, 65535, 65536})
	around := func(n int) int { return n - 12 + c.Choose(25) }
	switch c.Choose(4) {
	case 0:
		f.Data = wire.Bytes(around(max), 2)
	case 1:
		f.Metadata = wire.Bytes(around(max), 1)
		f.Data = wire.Bytes(c.Choose(3), 2)
	case 2:
		f.Metadata = wire.Bytes(around(2*max), 1)
		f.Data = wire.Bytes(max, 2)
	case 3:
		f.Metadata = wire.Bytes(max/2, 1)
		f.Data = wire.Bytes(max+around(max/2), 2)
	}
	c.Logf("%v max %d", f, max)
	check(c, f, max)
}

func main() {
	mc.Main(mc.Config{
		ID:     "C03",
		Rule:   "exhaustive product of kind, flags, metadata length, data length and size limit; the fragments are encoded, parsed by an independent decoder and reassembled",
		Bounds: fmt.Sprintf("limits 16..%d with every metadata and data length 0..%d; limits up to 65536 with lengths within 12 bytes of each boundary", 16+mc.Bound(14, 30)-1, mc.Bound(48, 90)-1),
		Scenarios: []mc.Scenario{
			{Name: "small limits", Body: small},
			{Name: "large limits", Body: large},
		},
		Assumptions: []string{"the size limit is at least 16 bytes, more than any frame's fixed fields"},
	})
}
