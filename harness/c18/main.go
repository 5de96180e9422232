// C18: the MessagePack decoder on arbitrary bytes.
package main

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"time"

	"github.com/nanobus/iota/go/msgpack"
	"github.com/nanobus/iota/go/zzverif/mc"
	"github.com/nanobus/iota/go/zzverif/mp"
)

type reader struct {
	name string
	// read reports the value read, in the form mp.Same understands
	read func(*msgpack.Decoder) (any, error)
	// want gives the expected value for a well-formed v: exp=false means the
	// property leaves it open, err=true that an error is required.
	want func(v mp.Value) (x any, err, exp bool)
}

func ints(name string, lo, hi *big.Int, f func(*msgpack.Decoder) (any, error)) reader {
	return reader{name, f, func(v mp.Value) (any, bool, bool) {
		if v.Kind != mp.Int {
			return nil, true, true
		}
		return v, v.I.Cmp(lo) < 0 || v.I.Cmp(hi) > 0, true
	}}
}

func rng(lo int64, hi uint64) (*big.Int, *big.Int) {
	return big.NewInt(lo), new(big.Int).SetUint64(hi)
}

func kind(k mp.Kind, open ...mp.Kind) func(mp.Value) (any, bool, bool) {
	return func(v mp.Value) (any, bool, bool) {
		for _, o := range open {
			if v.Kind == o {
				return nil, false, false
			}
		}
		return v, v.Kind != k, true
	}
}

func a[T any](v T, err error) (any, error) { return v, err }

func p[T any](v *T, err error) (any, error) {
	if v == nil {
		return nil, err
	}
	return *v, err
}

var readers = func() []reader {
	var out []reader
	add := func(name string, lo int64, hi uint64, f, nf func(*msgpack.Decoder) (any, error)) {
		l, h := rng(lo, hi)
		out = append(out, ints("Read"+name, l, h, f))
		r := ints("ReadNillable"+name, l, h, nf)
		w := r.want
		r.want = nillable(w)
		out = append(out, r)
	}
	add("Int8", -128, 127, func(d *msgpack.Decoder) (any, error) { return a(d.ReadInt8()) }, func(d *msgpack.Decoder) (any, error) { return p(d.ReadNillableInt8()) })
	add("Int16", -32768, 32767, func(d *msgpack.Decoder) (any, error) { return a(d.ReadInt16()) }, func(d *msgpack.Decoder) (any, error) { return p(d.ReadNillableInt16()) })
	add("Int32", math.MinInt32, math.MaxInt32, func(d *msgpack.Decoder) (any, error) { return a(d.ReadInt32()) }, func(d *msgpack.Decoder) (any, error) { return p(d.ReadNillableInt32()) })
	add("Int64", math.MinInt64, math.MaxInt64, func(d *msgpack.Decoder) (any, error) { return a(d.ReadInt64()) }, func(d *msgpack.Decoder) (any, error) { return p(d.ReadNillableInt64()) })
	add("Uint8", 0, 255, func(d *msgpack.Decoder) (any, error) { return a(d.ReadUint8()) }, func(d *msgpack.Decoder) (any, error) { return p(d.ReadNillableUint8()) })
	add("Uint16", 0, 65535, func(d *msgpack.Decoder) (any, error) { return a(d.ReadUint16()) }, func(d *msgpack.Decoder) (any, error) { return p(d.ReadNillableUint16()) })
	add("Uint32", 0, math.MaxUint32, func(d *msgpack.Decoder) (any, error) { return a(d.ReadUint32()) }, func(d *msgpack.Decoder) (any, error) { return p(d.ReadNillableUint32()) })
	add("Uint64", 0, math.MaxUint64, func(d *msgpack.Decoder) (any, error) { return a(d.ReadUint64()) }, func(d *msgpack.Decoder) (any, error) { return p(d.ReadNillableUint64()) })
	pair := func(name string, f, nf func(*msgpack.Decoder) (any, error), w func(mp.Value) (any, bool, bool)) {
		out = append(out, reader{"Read" + name, f, w}, reader{"ReadNillable" + name, nf, nillable(w)})
	}
	pair("Bool", func(d *msgpack.Decoder) (any, error) { return a(d.ReadBool()) }, func(d *msgpack.Decoder) (any, error) { return p(d.ReadNillableBool()) }, kind(mp.Bool))
	// old encoders wrote strings and binaries with array headers: left open
	pair("String", func(d *msgpack.Decoder) (any, error) { return a(d.ReadString()) }, func(d *msgpack.Decoder) (any, error) { return p(d.ReadNillableString()) }, kind(mp.Str, mp.Arr))
	pair("ByteArray", func(d *msgpack.Decoder) (any, error) { return a(d.ReadByteArray()) }, func(d *msgpack.Decoder) (any, error) {
		b, err := d.ReadNillableByteArray()
		if b == nil {
			return nil, err
		}
		return b, err
	}, kind(mp.Bin, mp.Arr, mp.Nil))
	pair("Float32", func(d *msgpack.Decoder) (any, error) { return a(d.ReadFloat32()) }, func(d *msgpack.Decoder) (any, error) { return p(d.ReadNillableFloat32()) }, func(v mp.Value) (any, bool, bool) {
		if v.Kind == mp.F64 && v.F == v.F {
			x := float32(v.F)
			return mp.Value{Kind: mp.F32, F: float64(x), Bits: uint64(math.Float32bits(x))}, false, true
		}
		return v, v.Kind != mp.F32, v.Kind != mp.F64
	})
	pair("Float64", func(d *msgpack.Decoder) (any, error) { return a(d.ReadFloat64()) }, func(d *msgpack.Decoder) (any, error) { return p(d.ReadNillableFloat64()) }, func(v mp.Value) (any, bool, bool) {
		if v.Kind == mp.F32 && v.F == v.F {
			return mp.Value{Kind: mp.F64, F: v.F, Bits: math.Float64bits(v.F)}, false, true
		}
		return v, v.Kind != mp.F64, v.Kind != mp.F32
	})
	tm := func(v mp.Value) (any, bool, bool) {
		switch v.Kind {
		case mp.Ext:
			if _, ok := v.Time(); ok {
				return v, false, true
			}
			return nil, true, v.Code != 13
		case mp.Arr, mp.Str:
			return nil, false, false
		}
		return nil, true, true
	}
	pair("Time", func(d *msgpack.Decoder) (any, error) { return a(d.ReadTime()) }, func(d *msgpack.Decoder) (any, error) { return p(d.ReadNillableTime()) }, tm)
	out = append(out, reader{"ReadAny", func(d *msgpack.Decoder) (any, error) { return d.ReadAny() }, func(v mp.Value) (any, bool, bool) {
		return v, !mp.Supported(v), v.Kind != mp.Ext || v.Code != 13
	}})
	return out
}()

func nillable(w func(mp.Value) (any, bool, bool)) func(mp.Value) (any, bool, bool) {
	return func(v mp.Value) (any, bool, bool) {
		if v.Kind == mp.Nil {
			return v, false, true
		}
		return w(v)
	}
}

// rest checks that d stands exactly at b.
func rest(c *mc.Ctx, what string, d *msgpack.Decoder, b []byte) {
	// two sentinels follow every input
	if len(b) < 2 {
		c.Failf("%s: oracle consumed a sentinel", what)
	}
	for i, x := range b {
		if x >= 0x80 {
			// step over arbitrary bytes one at a time through a boolean read,
			// which consumes exactly its first byte whatever it is
			d.ReadBool()
			continue
		}
		if got, err := d.ReadUint8(); err != nil || got != x {
			c.Failf("%s: after reading it, byte %d of the remaining % x reads as %v, %v: the reader did not stop at the end of the value", what, i, b, got, err)
		}
	}
	if _, err := d.ReadUint8(); err == nil {
		c.Failf("%s: read past the end of the input", what)
	}
}

var sentinel = []byte{0x2a, 0x2b}

// try applies every reader to b, which ends with the sentinels.
func try(c *mc.Ctx, body []byte) {
	c.Step()
	b := append(append(make([]byte, 0, len(body)+2), body...), sentinel...)
	v, n, ok := mp.Decode(b)
	if ok && n > len(body) {
		// the sentinels became part of the value: look at the bytes alone
		v, n, ok = mp.Decode(body)
		b = body
	}
	keep := append([]byte(nil), b...)
	for i := range readers {
		r := &readers[i]
		d := msgpack.NewDecoder(b)
		got, err := r.read(&d)
		if !ok {
			// truncated or unknown: a complete scalar can never come out
			if err == nil && r.name != "ReadTime" && r.name != "ReadNillableTime" && len(b) > 0 && b[0]&0xf0 != 0x90 && b[0] != 0xdc && b[0] != 0xdd {
				c.Failf("% x is not a complete value but %s returned %v", b, r.name, got)
			}
			continue
		}
		want, wantErr, exp := r.want(v)
		if !exp {
			continue
		}
		if wantErr {
			if err == nil {
				c.Failf("% x is %v but %s returned %v without an error", b, v, r.name, got)
			}
			continue
		}
		if err != nil {
			c.Failf("% x is %v but %s failed: %v", b, v, r.name, err)
		}
		w := want.(mp.Value)
		if !mp.Same(got, w) {
			c.Failf("% x is %v but %s returned %T %v", b, v, r.name, got, got)
		}
		if len(b) > len(body) {
			rest(c, fmt.Sprintf("% x: %s", b, r.name), &d, b[n:])
		}
	}
	// Skip
	d := msgpack.NewDecoder(b)
	err := d.Skip()
	if ok && err != nil {
		c.Failf("% x is a complete %v but Skip failed: %v", b, v, err)
	}
	if !ok && err == nil {
		c.Failf("% x is not a complete value but Skip succeeded", b)
	}
	if ok && len(b) > len(body) {
		rest(c, fmt.Sprintf("% x: Skip", b), &d, b[n:])
	}
	// sizes: the header alone decides, the elements need not be there
	sizeOf(c, "ReadArraySize", b, 0x90, 0xdc, func(d *msgpack.Decoder) (uint32, error) { return d.ReadArraySize() })
	sizeOf(c, "ReadMapSize", b, 0x80, 0xde, func(d *msgpack.Decoder) (uint32, error) { return d.ReadMapSize() })
	// nil test does not consume anything else
	if len(b) > 0 {
		d = msgpack.NewDecoder(b)
		isNil, err := d.IsNextNil()
		if err != nil || isNil != (b[0] == 0xc0) {
			c.Failf("% x: IsNextNil gives %v, %v", b, isNil, err)
		}
		if !isNil && ok && v.Kind == mp.Bool {
			if x, err := d.ReadBool(); err != nil || x != v.B {
				c.Failf("% x: IsNextNil consumed the value", b)
			}
		}
	}
	if !bytes.Equal(b, keep) {
		c.Failf("% x: decoding changed its input", keep)
	}
	if ok {
		c.State(v.Kind, n)
	}
}

func sizeOf(c *mc.Ctx, name string, b []byte, fix, wide byte, f func(*msgpack.Decoder) (uint32, error)) {
	d := msgpack.NewDecoder(b)
	got, err := f(&d)
	if len(b) == 0 {
		if err == nil {
			c.Failf("empty input: %s gives %d", name, got)
		}
		return
	}
	var want uint32
	ok := true
	switch {
	case b[0]&0xf0 == fix:
		want = uint32(b[0] & 15)
	case b[0] == wide && len(b) >= 3:
		want = uint32(b[1])<<8 | uint32(b[2])
	case b[0] == wide+1 && len(b) >= 5:
		want = uint32(b[1])<<24 | uint32(b[2])<<16 | uint32(b[3])<<8 | uint32(b[4])
	case b[0] == 0xc0:
		want = 0
	default:
		ok = false
	}
	if ok != (err == nil) || (ok && got != want) {
		c.Failf("% x: %s gives %d, %v; want %d, ok=%v", b, name, got, err, want, ok)
	}
}

var tails = []byte{0x00, 0x01, 0x02, 0x05, 0x7f, 0x80, 0x81, 0x91, 0x92, 0xa1, 0xc0, 0xc1, 0xc3, 0xc4, 0xc7, 0xd4, 0xdf, 0xff}

// short: every byte string up to length 2, and every third byte.
func short(c *mc.Ctx) {
	x := c.Choose(257)
	if x == 256 {
		try(c, nil)
		return
	}
	b := []byte{byte(x)}
	try(c, b)
	for y := 0; y < 256; y++ {
		b := []byte{byte(x), byte(y)}
		try(c, b)
		for _, z := range tails {
			try(c, append(b[:2:2], z))
		}
	}
	if mc.Thorough() {
		for y := 0; y < 256; y++ {
			for z := 0; z < 256; z++ {
				try(c, []byte{byte(x), byte(y), byte(z)})
			}
		}
	}
}

// long: every lead byte with every tail over an alphabet.
func long(n int, alpha []byte) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		b := []byte{byte(c.Choose(256))}
		for i := 0; i < 2; i++ {
			b = append(b, mc.Pick(c, alpha))
		}
		var rec func(b []byte, left int)
		rec = func(b []byte, left int) {
			try(c, b)
			if left > 0 {
				for _, x := range alpha {
					rec(append(b[:len(b):len(b)], x), left-1)
				}
			}
		}
		rec(b, n-3)
	}
}

// lengths: every length format with declared and real lengths around it.
func lengths(c *mc.Ctx) {
	lead := mc.Pick(c, []byte{0xc4, 0xc5, 0xc6, 0xc7, 0xc8, 0xc9, 0xd9, 0xda, 0xdb, 0xdc, 0xdd, 0xde, 0xdf, 0xd4, 0xd5, 0xd6, 0xd7, 0xd8, 0x8f, 0x9f, 0xbf, 0xa0, 0xb0})
	w := map[byte]int{0xc4: 1, 0xc5: 2, 0xc6: 4, 0xc7: 1, 0xc8: 2, 0xc9: 4, 0xd9: 1, 0xda: 2, 0xdb: 4, 0xdc: 2, 0xdd: 4, 0xde: 2, 0xdf: 4}[lead]
	declared := []uint64{0}
	if w > 0 {
		declared = []uint64{0, 1, 2, 3, 4, 8, 12, 15, 16, 17, 31, 32, 127, 128, 129, 200, 254, 255, 256, 257, 1000, 0x7fff, 0x8000, 0xfffe, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffff0, 0xfffffffe, 0xffffffff}
	}
	l := mc.Pick(c, declared)
	if w < 4 && l >= 1<<(8*w) && w > 0 {
		c.Skip()
	}
	fill := mc.Pick(c, []byte{0xff, 0x00, 0x0d})
	head := []byte{lead}
	for i := w - 1; i >= 0; i-- {
		head = append(head, byte(l>>(8*i)))
	}
	c.Logf("% x filled with %02x", head, fill)
	reals := []int{0, 1, 2, 3, 5, 9, 13, 16, 17, 18, 30, 31, 32, 33}
	for d := -3; d <= 3; d++ {
		if x := int(l) + d; l < 70000 && x >= 0 {
			reals = append(reals, x, 2*x)
		}
	}
	for _, n := range reals {
		b := append(append([]byte(nil), head...), bytes.Repeat([]byte{fill}, n)...)
		if (lead == 0xc7 || lead == 0xc8 || lead == 0xc9 || lead >= 0xd4 && lead <= 0xd8) && n > 0 {
			b[len(head)] = 0xff // timestamp
		}
		try(c, b)
	}
	// many nested hostile lengths must not make it allocate without bound
	deep := bytes.Repeat(head, 200)
	try(c, deep)
}

// nesting: deep values neither crash nor hang.
func nesting(c *mc.Ctx) {
	unit := mc.Pick(c, [][]byte{{0x91}, {0x81, 0x01}, {0x81}, {0xdc, 0, 1}, {0xdd, 0, 0, 0, 1}, {0xdf, 0, 0, 0, 1, 0xa0}, {0x92, 0x05}, {0x9f}, {0xdd, 0xff, 0xff, 0xff, 0xff}})
	n := mc.Pick(c, []int{10, 1000, 5000, 1 << 20, 1 << 22})
	c.Logf("% x nested %d deep", unit, n)
	b := append(bytes.Repeat(unit, n), 0xc0)
	complete := len(unit) == 1 && unit[0] == 0x91 || len(unit) == 2 && unit[0] == 0x81 || len(unit) == 3 || len(unit) == 5 && unit[1] == 0 || len(unit) == 6 || len(unit) == 2 && unit[0] == 0x92
	for i := 0; i < 2; i++ {
		c.Step()
		d := msgpack.NewDecoder(b)
		var err error
		if i == 0 {
			err = d.Skip()
		} else {
			_, err = d.ReadAny()
		}
		if err == nil && !complete {
			c.Failf("% x nested %d deep is incomplete but was accepted", unit, n)
		}
		if err != nil && complete && n <= 5000 {
			c.Failf("% x nested %d deep: %v", unit, n, err)
		}
	}
	c.State(unit, n)
}

var _ = time.Now

func main() {
	small := []byte{0x00, 0x01, 0x7f, 0x81, 0x92, 0xa1, 0xc0, 0xc4, 0xd4, 0xdd, 0xff}
	mc.Main(mc.Config{
		ID:     "C18",
		Rule:   "exhaustive enumeration of byte strings; every reader and Skip is compared with an independent decoder, the stop position included",
		Bounds: fmt.Sprintf("every byte string of length <=2 (3), length 3 over 18 last bytes; every lead byte with every tail up to length %d over 11 bytes; 23 length formats x 32 declared lengths x ~28 real lengths x 3 fillings; nesting to 4194304 levels", mc.Bound(5, 6)),
		Scenarios: []mc.Scenario{
			{Name: "short inputs", Body: short},
			{Name: "long inputs", Body: long(mc.Bound(5, 6), small)},
			{Name: "declared lengths", Body: lengths},
			{Name: "nesting", Body: nesting},
		},
	})
}
