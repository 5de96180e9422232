// C20: port data of flow-based components.
package main

import (
	"encoding/binary"
	"fmt"
	"strings"

	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/zzverif/mc"
	"github.com/nanobus/iota/go/zzverif/wire"
)

func show(b []byte) string {
	if len(b) > 40 {
		return fmt.Sprintf("% x... (%d bytes)", b[:40], len(b))
	}
	return fmt.Sprintf("% x", b)
}

// flag bits are the implementation's choice; which they are is learnt once
// and must then be the same everywhere and tell the four combinations apart.
var bits = map[[2]bool]byte{}

func learn(c *mc.Ctx) {
	for _, n := range []bool{false, true} {
		for _, k := range []bool{false, true} {
			f := invoke.PortIO{Next: n, Complete: k}
			b := f.Encode()
			if len(b) != 3 {
				c.Failf("empty port data takes %d bytes", len(b))
			}
			for o, v := range bits {
				if v == b[0] && o != [2]bool{n, k} {
					c.Failf("next=%v complete=%v is written like next=%v complete=%v", n, k, o[0], o[1])
				}
			}
			bits[[2]bool{n, k}] = b[0]
		}
	}
	if bits[[2]bool{}] != 0 {
		c.Failf("no flags are written as %x", bits[[2]bool{}])
	}
	if bits[[2]bool{true, true}] != bits[[2]bool{true, false}]|bits[[2]bool{false, true}] {
		c.Failf("the flags are not independent bits")
	}
	if bits[[2]bool{true, false}] != 1 {
		c.Failf("the next flag is written as %x", bits[[2]bool{true, false}])
	}
}

func roundTrip(c *mc.Ctx) {
	learn(c)
	f := invoke.PortIO{Next: c.Bool(), Complete: c.Bool()}
	lens := []int{0, 1, 2, 3, 127, 128, 255, 256, 257, 1000, 32767, 32768, 65534, 65535}
	f.Port = strings.Repeat("p", mc.Pick(c, lens))
	if len(f.Port) > 3 {
		f.Port = "in\x00ü" + f.Port[5:]
	}
	for _, n := range []int{0, 1, 2, 3, 255, 256, 65535, 65536, 65537, 1 << 20} {
		c.Step()
		f.Data = wire.Bytes(n, 7)
		desc := fmt.Sprintf("port of %d bytes, data of %d, next=%v complete=%v", len(f.Port), n, f.Next, f.Complete)
		want := []byte{bits[[2]bool{f.Next, f.Complete}]}
		want = binary.BigEndian.AppendUint16(want, uint16(len(f.Port)))
		want = append(want, f.Port...)
		want = append(want, f.Data...)
		g := f
		b := g.Encode()
		if string(b) != string(want) {
			c.Failf("%s: written as %s, want %s", desc, show(b), show(want))
		}
		if g.Port != f.Port || string(g.Data) != string(f.Data) || g.Next != f.Next || g.Complete != f.Complete {
			c.Failf("%s: writing changed it", desc)
		}
		h := invoke.PortIO{Port: "old", Data: []byte("old"), Next: true, Complete: true}
		if err := h.Decode(b); err != nil {
			c.Failf("%s: does not decode: %v", desc, err)
		}
		if h.Port != f.Port || string(h.Data) != string(f.Data) || h.Next != f.Next || h.Complete != f.Complete {
			c.Failf("%s: decodes to port of %d bytes, data of %d, next=%v complete=%v", desc, len(h.Port), len(h.Data), h.Next, h.Complete)
		}
		c.State(len(f.Port), n, f.Next, f.Complete)
	}
}

func decode(c *mc.Ctx) {
	learn(c)
	flags := c.Choose(256)
	pl := mc.Pick(c, []int{0, 1, 2, 3, 4, 5, 127, 128, 255, 256, 257, 0x7fff, 0x8000, 0xffff})
	for n := 0; n <= 300; n++ {
		c.Step()
		b := append([]byte{byte(flags), byte(pl >> 8), byte(pl)}, wire.Bytes(n, 3)...)
		if n < 3 { // inputs shorter than the header, too
			short := b[:n:n]
			var f invoke.PortIO
			if err := try(c, &f, short); err == nil {
				c.Failf("%d bytes % x decode to %+v", n, short, f)
			}
		}
		b = b[:len(b):len(b)]
		f := invoke.PortIO{Port: "old", Data: []byte("old")}
		err := try(c, &f, b)
		if n < pl {
			if err == nil {
				c.Failf("%s: a port of %d bytes is announced, yet this decodes to %d bytes of port", show(b), pl, len(f.Port))
			}
			continue
		}
		if err != nil {
			c.Failf("%s: refused: %v", show(b), err)
		}
		nb, cb := bits[[2]bool{true, false}], bits[[2]bool{false, true}]
		if f.Port != string(b[3:3+pl]) || string(f.Data) != string(b[3+pl:]) || f.Next != (byte(flags)&nb != 0) || f.Complete != (byte(flags)&cb != 0) {
			c.Failf("%s: decodes to %+v", show(b), f)
		}
		c.State(n >= pl, f.Next, f.Complete)
	}
}

func try(c *mc.Ctx, f *invoke.PortIO, b []byte) (err error) {
	defer func() {
		if r := recover(); r != nil {
			c.Failf("decoding %d bytes %s panics: %v", len(b), show(b), r)
		}
	}()
	return f.Decode(b)
}

func main() {
	mc.Main(mc.Config{
		ID:          "C20",
		Rule:        "exhaustive product of flags, port names and data, and of every header with every short body, against an independent rendering of the layout",
		Bounds:      "4 flag combinations x 14 port lengths x 10 data lengths to 1 MiB; all 256 flag bytes x 14 announced port lengths x all real lengths 0-300",
		Scenarios:   []mc.Scenario{{Name: "round trip", Body: roundTrip}, {Name: "any bytes", Body: decode}},
		Assumptions: []string{"port names of at most 65535 bytes, as the format requires"},
	})
}
