// C01: the frame codec round-trips and follows the RSocket layout.
package main

import (
	"bytes"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/u24"
	"github.com/nanobus/iota/go/zzverif/mc"
	"github.com/nanobus/iota/go/zzverif/wire"
)

var ids = []uint32{1, 2, 3, 0xff, 0x100, 0x10000, 0x01020304, 0x7ffffffe, 0x7fffffff}
var ns = []uint32{0, 1, 2, 255, 256, 65536, 0x01020304, 0x7fffffff, 0x80000000, 0xffffffff}
var lens = []int{0, 1, 2, 3, 4, 5, 7, 255, 256, 257, 65535, 65536, 65537}
var codes = []uint32{0, 1, 0x101, 0x201, 0x12345678, 0xffffffff}

// check compares one frame value with the oracle in both directions.
func check(c *mc.Ctx, f wire.Frame) {
	c.Step()
	want := wire.Encode(f)
	impl := wire.ToImpl(f)
	if got := int(impl.Size()); got != len(want) {
		c.Failf("%v: Size()=%d, layout needs %d", f, got, len(want))
	}
	if got := impl.GetStreamID(); got != f.ID {
		c.Failf("%v: GetStreamID()=%d", f, got)
	}
	if got := wire.Kind(impl.Type()); got != f.Kind {
		c.Failf("%v: Type()=%d", f, got)
	}
	// exact buffer, with a guard behind it; dirty, because buffers are reused
	buf := make([]byte, len(want)+8)
	for i := range buf {
		buf[i] = 0xa5
	}
	impl.Encode(buf[:len(want):len(want)])
	if !bytes.Equal(buf[:len(want)], want) {
		c.Failf("%v: encoded as % x, want % x", f, clip(buf[:len(want)]), clip(want))
	}
	for i := range buf {
		buf[i] = 0x5a
	}
	impl.Encode(buf)
	if !bytes.Equal(buf[:len(want)], want) || !bytes.Equal(buf[len(want):], bytes.Repeat([]byte{0x5a}, 8)) {
		c.Failf("%v: encoding into a larger buffer wrote outside its Size(): % x", f, clip(buf))
	}
	before := wire.FromImpl(impl)
	if !wire.Same(before, f) {
		c.Failf("%v: encoding changed the frame to %v", f, before)
	}
	raw := append([]byte(nil), want...)
	back, err := wire.ImplDecode(raw)
	if err != nil {
		c.Failf("%v: its own encoding does not decode: %v", f, err)
	}
	exp, ok := wire.Decode(want)
	if !ok {
		panic("oracle")
	}
	if got := wire.FromImpl(back); !wire.Same(got, exp) {
		c.Failf("%v: decodes to %v", f, got)
	}
	if got := wire.FromImpl(back); !wire.Same(got, f) {
		c.Failf("%v: does not survive the round trip: %v", f, got)
	}
	if !bytes.Equal(raw, want) {
		c.Failf("%v: decoding modified its input", f)
	}
	c.State(f.Kind, len(f.Metadata), len(f.Data), f.Follows, f.Complete, f.Next)
}

func clip(b []byte) []byte {
	if len(b) > 64 {
		return b[:64]
	}
	return b
}

// values enumerates frame values.
func values(c *mc.Ctx) {
	k := mc.Pick(c, wire.Kinds)
	f := wire.Frame{Kind: k, ID: mc.Pick(c, ids)}
	switch {
	case k == wire.RequestN:
		f.N = mc.Pick(c, ns)
	case k == wire.Cancel:
	case k == wire.Error:
		f.Code = mc.Pick(c, codes)
		f.Data = wire.Bytes(mc.Pick(c, lens), 3)
	default:
		f.Metadata = wire.Bytes(mc.Pick(c, lens), 1)
		f.Follows = c.Bool()
		f.Complete = true
		f.N = 1
		if k == wire.Payload {
			f.Complete, f.Next, f.N = c.Bool(), c.Bool(), 0
		}
		if k == wire.RequestChannel {
			f.Complete = c.Bool()
		}
		if k.HasN() {
			f.N = mc.Pick(c, ns)
		}
		for _, n := range lens {
			f.Data = wire.Bytes(n, 2)
			check(c, f)
		}
		c.Logf("%v, %d data lengths", f, len(lens))
		return
	}
	c.Logf("%v", f)
	check(c, f)
}

// big exercises the 24-bit metadata length boundary.
func big(c *mc.Ctx) {
	k := mc.Pick(c, []wire.Kind{wire.RequestResponse, wire.RequestChannel, wire.Payload})
	n := mc.Pick(c, []int{1<<17 + 3, 1<<20 + 5, 1<<23 + 1})
	f := wire.Frame{Kind: k, ID: 9, Complete: true, N: 1, Metadata: wire.Bytes(n, 4), Data: wire.Bytes(mc.Pick(c, []int{0, 1, 70000}), 5)}
	if k == wire.Payload {
		f.N = 0
	}
	check(c, f)
}

// foreign decodes every flag pattern another implementation may send.
func foreign(c *mc.Ctx) {
	k := mc.Pick(c, wire.Kinds)
	hi := c.Bool() // reserved top bit of the stream id
	body := mc.Pick(c, bodies)
	for fl := 0; fl < 1024; fl++ {
		t := int(k)<<10 | fl
		b := []byte{0, 0, 1, 5, byte(t >> 8), byte(t)}
		if hi {
			b[0] = 0x80
		}
		b = append(b, body...)
		want, ok := wire.Decode(b)
		if !ok {
			continue
		}
		c.Step()
		got, err := wire.ImplDecode(append([]byte(nil), b...))
		if err != nil {
			c.Failf("% x is a well-formed %v but was refused: %v", b, want, err)
		}
		if g := wire.FromImpl(got); !wire.Same(g, want) {
			c.Failf("% x decodes to %v, want %v", b, g, want)
		}
		h := frames.ParseFrameHeader(b)
		if int(h.Flag()) != fl || int(h.Type()) != int(k) || h.StreamID() != 0x105 {
			c.Failf("header % x parsed as %v", b[:6], h)
		}
		c.State(k, fl&0x1e0, len(body))
	}
	c.Logf("kind %v, 1024 flag patterns, body % x", k, body)
}

var bodies = [][]byte{
	{}, {0, 0, 0}, {0, 0, 1, 9}, {0, 0, 1, 9, 8}, {0, 0, 0, 7}, {0, 0, 0, 1, 0, 0, 0}, {1, 2, 3, 4, 0, 0, 2, 5, 6},
	{0xff, 0xff, 0xff, 0xff, 0, 0, 1, 1, 2, 3}, {0, 0, 2, 1, 2, 3, 4, 5}, {0, 0, 3, 0, 0, 0, 1, 2},
}

// small renders the parts all frames share by every function that writes them:
// three byte integers and headers.
func small(c *mc.Ctx) {
	hi := c.Choose(256)
	if c.Bool() {
		for lo := 0; lo < 1<<16; lo++ {
			n := hi<<16 | lo
			u, err := u24.NewUint24(uint32(n))
			b := []byte{byte(n >> 16), byte(n >> 8), byte(n)}
			if err != nil || u.AsInt() != n || !bytes.Equal(u.Bytes(), b) || u24.ReadUint24ToInt(b) != n ||
				u24.NewUint24Bytes(b) != u || u24.MustNewUint24(uint32(n)) != u {
				c.Failf("the three byte integer %d is not % x in every rendering", n, b)
			}
		}
		var w bytes.Buffer
		if err := u24.WriteUint24(&w, uint32(hi<<16|0x1234)); err != nil || !bytes.Equal(w.Bytes(), []byte{byte(hi), 0x12, 0x34}) {
			c.Failf("the three byte integer %d is written as % x: %v", hi<<16|0x1234, w.Bytes(), err)
		}
		if _, err := u24.NewUint24(uint32(1<<24 + hi<<8)); !u24.IsExceedMaximumUint24Error(err) {
			c.Failf("%d is taken for a three byte integer: %v", 1<<24+hi<<8, err)
		}
		c.Steps(1 << 16)
		return
	}
	for _, k := range wire.Kinds {
		for _, id := range []uint32{0, 1, 2, 255, 256, 65535, 1 << 24, 1<<31 - 1} {
			for _, fl := range []int{hi, hi << 2} {
				t := int(k)<<10 | fl
				want := []byte{byte(id >> 24), byte(id >> 16), byte(id >> 8), byte(id), byte(t >> 8), byte(t)}
				h := frames.NewFrameHeader(id, frames.FrameType(k), frames.FrameFlag(fl))
				var w1, w2 bytes.Buffer
				n, e1 := h.WriteTo(&w1)
				e2 := frames.WriteFrameHeader(&w2, id, frames.FrameType(k), frames.FrameFlag(fl))
				r := []byte{1, 2, 3, 4, 5, 6, 7}
				frames.ResetFrameHeader(r, id, frames.FrameType(k), frames.FrameFlag(fl))
				if n != 6 || e1 != nil || e2 != nil || !bytes.Equal(h.Bytes(), want) || !bytes.Equal(w1.Bytes(), want) || !bytes.Equal(w2.Bytes(), want) ||
					!bytes.Equal(r[:6], want) || r[6] != 7 {
					c.Failf("the header of kind %d, stream %d, flags %x is % x, % x, % x, % x and not % x in every rendering", k, id, fl, h.Bytes(), w1.Bytes(), w2.Bytes(), r, want)
				}
				c.Step()
			}
		}
	}
}

func main() {
	mc.Main(mc.Config{
		ID:     "C01",
		Rule:   "exhaustive product of frame kind, stream id, request counts, flags and field lengths; each value is encoded and decoded by the implementation and compared byte for byte with an independent rendering of the frame layout",
		Bounds: "9 stream ids, 10 request counts, 13x13 metadata/data lengths up to 65537 (plus lengths to 2^23+1), all 1024 flag patterns with 10 bodies per kind; every three byte integer, every header of 8 ids x 512 flag patterns",
		Scenarios: []mc.Scenario{
			{Name: "values", Body: values},
			{Name: "large metadata", Body: big},
			{Name: "flag patterns", Body: foreign},
			{Name: "headers and three byte integers", Body: small},
		},
		Assumptions: []string{"stream ids below 2^31 and metadata below 2^24 bytes, as the wire format requires"},
	})
}
