// C16: typed MessagePack values.
package main

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"time"

	"github.com/nanobus/iota/go/msgpack"
	"github.com/nanobus/iota/go/zzverif/mc"
	"github.com/nanobus/iota/go/zzverif/mp"
	"github.com/nanobus/iota/go/zzverif/wire"
)

// item is one typed write with the reads that must give it back.
type item struct {
	desc  string
	write func(msgpack.Writer)
	match func(mp.Value) bool
	read  func(msgpack.Reader) error
}

// encode sizes and encodes items back to back and checks the bytes.
func encode(c *mc.Ctx, items []item) []byte {
	c.Step()
	sizer := msgpack.NewSizer()
	for _, it := range items {
		it.write(&sizer)
	}
	if err := sizer.Err(); err != nil {
		c.Failf("%s: sizing failed: %v", descs(items), err)
	}
	n := int(sizer.Len())
	// a larger dirty buffer shows both overruns and underruns
	buf := bytes.Repeat([]byte{0xc1}, n+16)
	enc := msgpack.NewEncoder(buf[: n : n+16])
	for _, it := range items {
		it.write(&enc)
	}
	if err := enc.Err(); err != nil {
		c.Failf("%s: sized as %d bytes, encoding into that failed: %v", descs(items), n, err)
	}
	for _, b := range buf[n:] {
		if b != 0xc1 {
			c.Failf("%s: encoder wrote beyond the %d bytes it was given", descs(items), n)
		}
	}
	out := buf[:n]
	at := 0
	for _, it := range items {
		v, k, ok := mp.Decode(out[at:])
		if !ok {
			c.Failf("%s: sized %d, not well-formed MessagePack at byte %d: % x", descs(items), n, at, clip(out))
		}
		if !it.match(v) {
			c.Failf("%s: encoded as %v (% x)", it.desc, v, clip(out[at:]))
		}
		at += k
	}
	if at != n {
		c.Failf("%s: sized as %d bytes but takes %d", descs(items), n, at)
	}
	return out
}

func descs(items []item) string {
	s := ""
	for _, it := range items {
		s += it.desc + " "
	}
	return s
}

func clip(b []byte) []byte {
	if len(b) > 40 {
		return b[:40]
	}
	return b
}

// decode reads the items back and then expects the end.
func decode(c *mc.Ctx, items []item, b []byte) {
	keep := append([]byte(nil), b...)
	d := msgpack.NewDecoder(b)
	for _, it := range items {
		if err := it.read(&d); err != nil {
			c.Failf("%s: reading back %s from % x: %v", descs(items), it.desc, clip(b), err)
		}
	}
	if _, err := d.ReadBool(); err == nil {
		c.Failf("%s: bytes left after reading everything", descs(items))
	}
	if !bytes.Equal(keep, b) {
		c.Failf("%s: decoding changed the input", descs(items))
	}
}

func round(c *mc.Ctx, items ...item) []byte {
	b := encode(c, items)
	decode(c, items, b)
	return b
}

func eq[T comparable](want T, f func() (T, error)) error {
	got, err := f()
	if err != nil {
		return err
	}
	if got != want {
		return fmt.Errorf("got %v, want %v", got, want)
	}
	return nil
}

func eqp[T comparable](want *T, f func() (*T, error)) error {
	got, err := f()
	if err != nil {
		return err
	}
	if (got == nil) != (want == nil) {
		return fmt.Errorf("got nil=%v, want nil=%v", got == nil, want == nil)
	}
	if got != nil && *got != *want {
		return fmt.Errorf("got %v, want %v", *got, *want)
	}
	return nil
}

func isBig(x *big.Int) func(mp.Value) bool {
	return func(v mp.Value) bool { return v.Kind == mp.Int && v.I.Cmp(x) == 0 }
}

// intItems lists every writer that can hold x, plain and nillable.
func intItems(x *big.Int) []item {
	var out []item
	m := isBig(x)
	add := func(name string, w func(msgpack.Writer), r func(msgpack.Reader) error) {
		out = append(out, item{fmt.Sprintf("%s(%v)", name, x), w, m, r})
	}
	if x.IsInt64() {
		v := x.Int64()
		add("Int64", func(w msgpack.Writer) { w.WriteInt64(v) }, func(r msgpack.Reader) error { return eq(v, r.ReadInt64) })
		add("NillableInt64", func(w msgpack.Writer) { w.WriteNillableInt64(&v) }, func(r msgpack.Reader) error { return eqp(&v, r.ReadNillableInt64) })
		if v := int32(v); int64(v) == x.Int64() {
			add("Int32", func(w msgpack.Writer) { w.WriteInt32(v) }, func(r msgpack.Reader) error { return eq(v, r.ReadInt32) })
			add("NillableInt32", func(w msgpack.Writer) { w.WriteNillableInt32(&v) }, func(r msgpack.Reader) error { return eqp(&v, r.ReadNillableInt32) })
		}
		if v := int16(v); int64(v) == x.Int64() {
			add("Int16", func(w msgpack.Writer) { w.WriteInt16(v) }, func(r msgpack.Reader) error { return eq(v, r.ReadInt16) })
			add("NillableInt16", func(w msgpack.Writer) { w.WriteNillableInt16(&v) }, func(r msgpack.Reader) error { return eqp(&v, r.ReadNillableInt16) })
		}
		if v := int8(v); int64(v) == x.Int64() {
			add("Int8", func(w msgpack.Writer) { w.WriteInt8(v) }, func(r msgpack.Reader) error { return eq(v, r.ReadInt8) })
			add("NillableInt8", func(w msgpack.Writer) { w.WriteNillableInt8(&v) }, func(r msgpack.Reader) error { return eqp(&v, r.ReadNillableInt8) })
		}
	}
	if x.IsUint64() {
		v := x.Uint64()
		add("Uint64", func(w msgpack.Writer) { w.WriteUint64(v) }, func(r msgpack.Reader) error { return eq(v, r.ReadUint64) })
		add("NillableUint64", func(w msgpack.Writer) { w.WriteNillableUint64(&v) }, func(r msgpack.Reader) error { return eqp(&v, r.ReadNillableUint64) })
		if v := uint32(v); uint64(v) == x.Uint64() {
			add("Uint32", func(w msgpack.Writer) { w.WriteUint32(v) }, func(r msgpack.Reader) error { return eq(v, r.ReadUint32) })
			add("NillableUint32", func(w msgpack.Writer) { w.WriteNillableUint32(&v) }, func(r msgpack.Reader) error { return eqp(&v, r.ReadNillableUint32) })
		}
		if v := uint16(v); uint64(v) == x.Uint64() {
			add("Uint16", func(w msgpack.Writer) { w.WriteUint16(v) }, func(r msgpack.Reader) error { return eq(v, r.ReadUint16) })
			add("NillableUint16", func(w msgpack.Writer) { w.WriteNillableUint16(&v) }, func(r msgpack.Reader) error { return eqp(&v, r.ReadNillableUint16) })
		}
		if v := uint8(v); uint64(v) == x.Uint64() {
			add("Uint8", func(w msgpack.Writer) { w.WriteUint8(v) }, func(r msgpack.Reader) error { return eq(v, r.ReadUint8) })
			add("NillableUint8", func(w msgpack.Writer) { w.WriteNillableUint8(&v) }, func(r msgpack.Reader) error { return eqp(&v, r.ReadNillableUint8) })
		}
	}
	return out
}

type intReader struct {
	name     string
	min, max *big.Int
	read     func(msgpack.Reader) (*big.Int, error)
}

func sRange(bits uint) (*big.Int, *big.Int) {
	h := new(big.Int).Lsh(big.NewInt(1), bits-1)
	return new(big.Int).Neg(h), new(big.Int).Sub(h, big.NewInt(1))
}
func uRange(bits uint) (*big.Int, *big.Int) {
	h := new(big.Int).Lsh(big.NewInt(1), bits)
	return big.NewInt(0), h.Sub(h, big.NewInt(1))
}

func s64[T int8 | int16 | int32 | int64](f func() (T, error)) (*big.Int, error) {
	v, err := f()
	return big.NewInt(int64(v)), err
}
func u64[T uint8 | uint16 | uint32 | uint64](f func() (T, error)) (*big.Int, error) {
	v, err := f()
	return new(big.Int).SetUint64(uint64(v)), err
}

var intReaders = func() []intReader {
	var out []intReader
	add := func(name string, signed bool, bits uint, f func(msgpack.Reader) (*big.Int, error)) {
		lo, hi := uRange(bits)
		if signed {
			lo, hi = sRange(bits)
		}
		out = append(out, intReader{name, lo, hi, f})
	}
	add("ReadInt8", true, 8, func(r msgpack.Reader) (*big.Int, error) { return s64(r.ReadInt8) })
	add("ReadInt16", true, 16, func(r msgpack.Reader) (*big.Int, error) { return s64(r.ReadInt16) })
	add("ReadInt32", true, 32, func(r msgpack.Reader) (*big.Int, error) { return s64(r.ReadInt32) })
	add("ReadInt64", true, 64, func(r msgpack.Reader) (*big.Int, error) { return s64(r.ReadInt64) })
	add("ReadUint8", false, 8, func(r msgpack.Reader) (*big.Int, error) { return u64(r.ReadUint8) })
	add("ReadUint16", false, 16, func(r msgpack.Reader) (*big.Int, error) { return u64(r.ReadUint16) })
	add("ReadUint32", false, 32, func(r msgpack.Reader) (*big.Int, error) { return u64(r.ReadUint32) })
	add("ReadUint64", false, 64, func(r msgpack.Reader) (*big.Int, error) { return u64(r.ReadUint64) })
	return out
}()

// cross reads x's encoding with every integer reader.
func cross(c *mc.Ctx, what string, x *big.Int, b []byte) {
	for _, r := range intReaders {
		d := msgpack.NewDecoder(b)
		got, err := r.read(&d)
		fits := x.Cmp(r.min) >= 0 && x.Cmp(r.max) <= 0
		if fits && (err != nil || got.Cmp(x) != 0) {
			c.Failf("%s encoded as % x: %s gives %v, %v", what, b, r.name, got, err)
		}
		if !fits && err == nil {
			c.Failf("%s does not fit but %s returned %v without an error", what, r.name, got)
		}
	}
}

func checkInt(c *mc.Ctx, x *big.Int) {
	for _, it := range intItems(x) {
		b := round(c, it)
		cross(c, it.desc, x, b)
	}
	// every format another encoder may choose
	for w := 0; w < 4; w++ {
		bits := uint(8 << w)
		lo, hi := uRange(bits)
		if x.Cmp(lo) >= 0 && x.Cmp(hi) <= 0 {
			cross(c, fmt.Sprintf("%v as uint%d", x, bits), x, append([]byte{0xcc + byte(w)}, fixed(x, bits)...))
		}
		lo, hi = sRange(bits)
		if x.Cmp(lo) >= 0 && x.Cmp(hi) <= 0 {
			cross(c, fmt.Sprintf("%v as int%d", x, bits), x, append([]byte{0xd0 + byte(w)}, fixed(x, bits)...))
		}
	}
}

func fixed(x *big.Int, bits uint) []byte {
	y := new(big.Int).Set(x)
	if y.Sign() < 0 {
		y.Add(y, new(big.Int).Lsh(big.NewInt(1), bits))
	}
	b := make([]byte, bits/8)
	return y.FillBytes(b)
}

func ints16(c *mc.Ctx) {
	block := c.Choose(256 + 128)
	lo := -32768 + 256*block
	c.Logf("integers %d..%d", lo, lo+255)
	for i := 0; i < 256; i++ {
		checkInt(c, big.NewInt(int64(lo+i)))
	}
	c.State(block)
}

func intsWide(c *mc.Ctx) {
	k := c.Choose(65)
	neg := c.Bool()
	p := new(big.Int).Lsh(big.NewInt(1), uint(k))
	if neg {
		p.Neg(p)
	}
	c.Logf("integers near %v", p)
	span := int64(mc.Bound(40, 2000))
	lo, _ := sRange(64)
	_, hi := uRange(64)
	for d := -span; d <= span; d++ {
		x := new(big.Int).Add(p, big.NewInt(d))
		if x.Cmp(lo) >= 0 && x.Cmp(hi) <= 0 {
			checkInt(c, x)
		}
	}
	c.State(k, neg)
}

var lengths = func() []int {
	var out []int
	for i := 0; i <= 300; i++ {
		out = append(out, i)
	}
	return append(out, 4095, 65533, 65534, 65535, 65536, 65537, 65538, 1<<20+1, 1<<24+3)
}()

func strItem(s string, nillable bool) item {
	m := func(v mp.Value) bool { return v.Kind == mp.Str && string(v.S) == s }
	if nillable {
		return item{fmt.Sprintf("NillableString[%d]", len(s)), func(w msgpack.Writer) { w.WriteNillableString(&s) }, m, func(r msgpack.Reader) error { return eqp(&s, r.ReadNillableString) }}
	}
	return item{fmt.Sprintf("String[%d]", len(s)), func(w msgpack.Writer) { w.WriteString(s) }, m, func(r msgpack.Reader) error { return eq(s, r.ReadString) }}
}

func binItem(b []byte, nillable bool) item {
	cmp := func(got []byte, err error) error {
		if err != nil {
			return err
		}
		if !bytes.Equal(got, b) {
			return fmt.Errorf("got %d bytes % x, want %d bytes % x", len(got), clip(got), len(b), clip(b))
		}
		if nillable && (got == nil) != (b == nil) {
			return fmt.Errorf("got nil=%v, want nil=%v", got == nil, b == nil)
		}
		return nil
	}
	m := func(v mp.Value) bool {
		if nillable && b == nil {
			return v.Kind == mp.Nil
		}
		return v.Kind == mp.Bin && bytes.Equal(v.S, b)
	}
	if nillable {
		return item{fmt.Sprintf("NillableByteArray[%d]", len(b)), func(w msgpack.Writer) { w.WriteNillableByteArray(b) }, m, func(r msgpack.Reader) error { return cmp(r.ReadNillableByteArray()) }}
	}
	return item{fmt.Sprintf("ByteArray[%d]", len(b)), func(w msgpack.Writer) { w.WriteByteArray(b) }, m, func(r msgpack.Reader) error { return cmp(r.ReadByteArray()) }}
}

func sizeItem(n uint32, isMap bool) item {
	if isMap {
		return item{fmt.Sprintf("MapSize(%d)", n), func(w msgpack.Writer) { w.WriteMapSize(n) }, nil, func(r msgpack.Reader) error { return eq(n, r.ReadMapSize) }}
	}
	return item{fmt.Sprintf("ArraySize(%d)", n), func(w msgpack.Writer) { w.WriteArraySize(n) }, nil, func(r msgpack.Reader) error { return eq(n, r.ReadArraySize) }}
}

func stringsAndBytes(c *mc.Ctx) {
	n := mc.Pick(c, lengths)
	c.Logf("length %d", n)
	b := wire.Bytes(n, byte(n+1))
	tail := strItem("end", false)
	round(c, strItem(string(b), false), tail)
	round(c, strItem(string(b), true), tail)
	round(c, binItem(b, false), tail)
	round(c, binItem(b, true), tail)
	if n == 0 {
		round(c, binItem(nil, true), tail)
		round(c, binItem(nil, false), tail)
		round(c, binItem([]byte{}, true), tail)
	}
	// a foreign encoder may use any longer length format
	for w := 1; w <= 4; w *= 2 {
		if w < 4 && n >= 1<<(8*w) {
			continue
		}
		l := fixed(big.NewInt(int64(n)), uint(8*w))
		code := map[int]byte{1: 0, 2: 1, 4: 2}[w]
		d := msgpack.NewDecoder(append(append([]byte{0xd9 + code}, l...), b...))
		if err := eq(string(b), d.ReadString); err != nil {
			c.Failf("string of %d bytes with a %d byte length: %v", n, w, err)
		}
		d = msgpack.NewDecoder(append(append([]byte{0xc4 + code}, l...), b...))
		if got, err := d.ReadByteArray(); err != nil || !bytes.Equal(got, b) {
			c.Failf("binary of %d bytes with a %d byte length: % x, %v", n, w, clip(got), err)
		}
	}
	c.State(n)
}

func sizes(c *mc.Ctx) {
	k := c.Choose(33)
	isMap := c.Bool()
	for d := int64(-20); d <= 20; d++ {
		x := int64(1)<<uint(k) + d
		if x < 0 || x > math.MaxUint32 {
			continue
		}
		n := uint32(x)
		it := sizeItem(n, isMap)
		c.Step()
		s := msgpack.NewSizer()
		it.write(&s)
		b := make([]byte, s.Len())
		e := msgpack.NewEncoder(b)
		it.write(&e)
		if err := e.Err(); err != nil {
			c.Failf("%s: sized %d: %v", it.desc, s.Len(), err)
		}
		fix := byte(0x90)
		if isMap {
			fix = 0x80
		}
		var want []byte
		switch {
		case n < 16:
			want = []byte{fix | byte(n)}
		case n < 1<<16:
			want = append([]byte{0xdc}, fixed(big.NewInt(x), 16)...)
		default:
			want = append([]byte{0xdd}, fixed(big.NewInt(x), 32)...)
		}
		if isMap && n >= 16 {
			want[0] += 2
		}
		if !bytes.Equal(b, want) {
			c.Failf("%s: encoded as % x, want % x", it.desc, b, want)
		}
		dec := msgpack.NewDecoder(b)
		if err := it.read(&dec); err != nil {
			c.Failf("%s: % x: %v", it.desc, b, err)
		}
	}
	c.State(k, isMap)
}

var f32bits = []uint32{0, 1, 0x80000000, 0x3f800000, 0xbf800000, 0x7f7fffff, 0x00800000, 0x7f800000, 0xff800000, 0x7fc00000, 0x40490fdb, 0x01020304}
var f64bits = []uint64{0, 1, 1 << 63, 0x3ff0000000000000, 0xbff0000000000000, 0x7fefffffffffffff, 0x0010000000000000, 0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000000, 0x400921fb54442d18, 0x0102030405060708, 0x3ff0000000000001}

func f32Item(x float32, nillable bool) item {
	bits := math.Float32bits(x)
	m := func(v mp.Value) bool { return v.Kind == mp.F32 && v.Bits == uint64(bits) }
	chk := func(got float32, err error) error {
		if err == nil && math.Float32bits(got) != bits {
			return fmt.Errorf("got %x want %x", math.Float32bits(got), bits)
		}
		return err
	}
	if nillable {
		return item{"NillableFloat32", func(w msgpack.Writer) { w.WriteNillableFloat32(&x) }, m, func(r msgpack.Reader) error {
			p, err := r.ReadNillableFloat32()
			if err != nil || p == nil {
				return fmt.Errorf("%v %v", p, err)
			}
			return chk(*p, nil)
		}}
	}
	return item{"Float32", func(w msgpack.Writer) { w.WriteFloat32(x) }, m, func(r msgpack.Reader) error { return chk(r.ReadFloat32()) }}
}

func f64Item(x float64, nillable bool) item {
	bits := math.Float64bits(x)
	m := func(v mp.Value) bool { return v.Kind == mp.F64 && v.Bits == bits }
	chk := func(got float64, err error) error {
		if err == nil && math.Float64bits(got) != bits {
			return fmt.Errorf("got %x want %x", math.Float64bits(got), bits)
		}
		return err
	}
	if nillable {
		return item{"NillableFloat64", func(w msgpack.Writer) { w.WriteNillableFloat64(&x) }, m, func(r msgpack.Reader) error {
			p, err := r.ReadNillableFloat64()
			if err != nil || p == nil {
				return fmt.Errorf("%v %v", p, err)
			}
			return chk(*p, nil)
		}}
	}
	return item{"Float64", func(w msgpack.Writer) { w.WriteFloat64(x) }, m, func(r msgpack.Reader) error { return chk(r.ReadFloat64()) }}
}

func boolItem(x bool, nillable bool) item {
	m := func(v mp.Value) bool { return v.Kind == mp.Bool && v.B == x }
	if nillable {
		return item{fmt.Sprintf("NillableBool(%v)", x), func(w msgpack.Writer) { w.WriteNillableBool(&x) }, m, func(r msgpack.Reader) error { return eqp(&x, r.ReadNillableBool) }}
	}
	return item{fmt.Sprintf("Bool(%v)", x), func(w msgpack.Writer) { w.WriteBool(x) }, m, func(r msgpack.Reader) error { return eq(x, r.ReadBool) }}
}

func floats(c *mc.Ctx) {
	nil1 := c.Bool()
	for _, x := range f32bits {
		round(c, f32Item(math.Float32frombits(x), nil1), f32Item(1, false))
	}
	for k := 0; k < 32; k++ {
		round(c, f32Item(math.Float32frombits(1<<k|0x00800000), nil1))
	}
	for _, x := range f64bits {
		round(c, f64Item(math.Float64frombits(x), nil1), f64Item(1, false))
	}
	for k := 0; k < 64; k++ {
		round(c, f64Item(math.Float64frombits(1<<k|0x0010000000000000), nil1))
	}
	for _, x := range f32bits {
		f := math.Float32frombits(x)
		b := round(c, f32Item(f, nil1))
		d := msgpack.NewDecoder(b)
		g, err := d.ReadFloat64()
		if err != nil || (g != float64(f) && f == f) {
			c.Failf("float32 %v read as a double: %v, %v", f, g, err)
		}
		b = round(c, f64Item(float64(f), nil1))
		d = msgpack.NewDecoder(b)
		h, err := d.ReadFloat32()
		if err != nil || (h != f && f == f) {
			c.Failf("double %v read as float32: %v, %v", f, h, err)
		}
	}
	round(c, boolItem(true, nil1), boolItem(false, nil1), boolItem(true, nil1))
	c.State(nil1)
}

var secs = []int64{0, 1, -1, 1600000000, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<34 - 1, 1 << 34, 1<<34 + 1, -62135596800, -62135596801, -1 << 34, 253402300799, 1 << 40, 1 << 33}
var nanos = []int64{0, 1, 500, 999, 1000000, 123456789, 999999999}
var zones = []*time.Location{time.UTC, time.FixedZone("a", 3600*5+1800), time.FixedZone("b", -3600*11)}

func timeItem(t time.Time, nillable bool) item {
	m := func(v mp.Value) bool { x, ok := v.Time(); return ok && x.Equal(t) }
	chk := func(g time.Time, err error) error {
		if err == nil && (!g.Equal(t) || g.IsZero() != t.IsZero()) {
			return fmt.Errorf("got %v want %v", g, t)
		}
		return err
	}
	if nillable {
		return item{"NillableTime " + t.String(), func(w msgpack.Writer) { w.WriteNillableTime(&t) }, m, func(r msgpack.Reader) error {
			p, err := r.ReadNillableTime()
			if err != nil || p == nil {
				return fmt.Errorf("%v %v", p, err)
			}
			return chk(*p, nil)
		}}
	}
	return item{"Time " + t.String(), func(w msgpack.Writer) { w.WriteTime(t) }, m, func(r msgpack.Reader) error { return chk(r.ReadTime()) }}
}

func times(c *mc.Ctx) {
	t := time.Unix(mc.Pick(c, secs), mc.Pick(c, nanos)).In(mc.Pick(c, zones))
	c.Logf("%v", t)
	tail := boolItem(true, false)
	round(c, timeItem(t, false), tail)
	round(c, timeItem(t, true), tail)
	// text form
	if y := t.UTC().Year(); y >= 1 && y <= 9999 && t.Year() >= 0 && t.Year() <= 9999 {
		s := t.Format(time.RFC3339Nano)
		b := round(c, strItem(s, false))
		d := msgpack.NewDecoder(b)
		g, err := d.ReadTime()
		if err != nil || !g.Equal(t) {
			c.Failf("time text %q read as %v, %v", s, g, err)
		}
	}
	// another implementation's choice of form: ext8, and id 13
	s := t.Unix()
	body := append(fixed(big.NewInt(int64(t.Nanosecond())), 32), fixed(big.NewInt(s), 64)...)
	for _, id := range []byte{0xff, 13} {
		d := msgpack.NewDecoder(append([]byte{0xc7, 12, id}, body...))
		if g, err := d.ReadTime(); err != nil || !g.Equal(t) {
			c.Failf("time %v as a 96 bit extension (id %d) read as %v, %v", t, int8(id), g, err)
		}
	}
	c.State(t)
}

func nilItem(k int) item {
	m := func(v mp.Value) bool { return v.Kind == mp.Nil }
	type rw struct {
		n string
		w func(msgpack.Writer)
		r func(msgpack.Reader) error
	}
	l := []rw{
		{"nil Bool", func(w msgpack.Writer) { w.WriteNillableBool(nil) }, func(r msgpack.Reader) error { return eqp(nil, r.ReadNillableBool) }},
		{"nil Int8", func(w msgpack.Writer) { w.WriteNillableInt8(nil) }, func(r msgpack.Reader) error { return eqp(nil, r.ReadNillableInt8) }},
		{"nil Int16", func(w msgpack.Writer) { w.WriteNillableInt16(nil) }, func(r msgpack.Reader) error { return eqp(nil, r.ReadNillableInt16) }},
		{"nil Int32", func(w msgpack.Writer) { w.WriteNillableInt32(nil) }, func(r msgpack.Reader) error { return eqp(nil, r.ReadNillableInt32) }},
		{"nil Int64", func(w msgpack.Writer) { w.WriteNillableInt64(nil) }, func(r msgpack.Reader) error { return eqp(nil, r.ReadNillableInt64) }},
		{"nil Uint8", func(w msgpack.Writer) { w.WriteNillableUint8(nil) }, func(r msgpack.Reader) error { return eqp(nil, r.ReadNillableUint8) }},
		{"nil Uint16", func(w msgpack.Writer) { w.WriteNillableUint16(nil) }, func(r msgpack.Reader) error { return eqp(nil, r.ReadNillableUint16) }},
		{"nil Uint32", func(w msgpack.Writer) { w.WriteNillableUint32(nil) }, func(r msgpack.Reader) error { return eqp(nil, r.ReadNillableUint32) }},
		{"nil Uint64", func(w msgpack.Writer) { w.WriteNillableUint64(nil) }, func(r msgpack.Reader) error { return eqp(nil, r.ReadNillableUint64) }},
		{"nil Float32", func(w msgpack.Writer) { w.WriteNillableFloat32(nil) }, func(r msgpack.Reader) error { return eqp(nil, r.ReadNillableFloat32) }},
		{"nil Float64", func(w msgpack.Writer) { w.WriteNillableFloat64(nil) }, func(r msgpack.Reader) error { return eqp(nil, r.ReadNillableFloat64) }},
		{"nil String", func(w msgpack.Writer) { w.WriteNillableString(nil) }, func(r msgpack.Reader) error { return eqp(nil, r.ReadNillableString) }},
		{"nil Time", func(w msgpack.Writer) { w.WriteNillableTime(nil) }, func(r msgpack.Reader) error {
			p, err := r.ReadNillableTime()
			if err == nil && p != nil {
				err = fmt.Errorf("got %v", *p)
			}
			return err
		}},
		{"nil ByteArray", func(w msgpack.Writer) { w.WriteNillableByteArray(nil) }, func(r msgpack.Reader) error {
			p, err := r.ReadNillableByteArray()
			if err == nil && p != nil {
				err = fmt.Errorf("got %v", p)
			}
			return err
		}},
		{"Nil", func(w msgpack.Writer) { w.WriteNil() }, func(r msgpack.Reader) error { return eq(true, r.IsNextNil) }},
	}
	x := l[k%len(l)]
	return item{x.n, x.w, m, x.r}
}

const nNil = 15

// alphabet for record-like sequences
func alphabet() []item {
	out := []item{boolItem(true, false), boolItem(false, true), strItem("", true), strItem("abc", false), strItem(string(wire.Bytes(40, 2)), true),
		binItem(nil, true), binItem([]byte{1, 2}, true), binItem(wire.Bytes(255, 1), false), binItem(wire.Bytes(256, 1), false), f32Item(1.5, true), f64Item(-2.5, false),
		timeItem(time.Unix(5, 0), false), timeItem(time.Unix(5, 7), true), timeItem(time.Time{}, false)}
	for i := 0; i < nNil; i++ {
		out = append(out, nilItem(i))
	}
	for _, x := range []int64{0, -1, 127, 128, -32, -33, 40000, -40000, 1 << 40} {
		its := intItems(big.NewInt(x))
		out = append(out, its[0], its[len(its)-1])
	}
	return out
}

func sequences(n int) func(*mc.Ctx) {
	al := alphabet()
	return func(c *mc.Ctx) {
		var items []item
		for i := 0; i < n; i++ {
			items = append(items, al[c.Choose(len(al))])
		}
		c.Logf("%s", descs(items))
		b := round(c, items...)
		c.State(string(b))
	}
}

// short gives the encoder every buffer that is too small: an error, no panic,
// nothing outside the buffer.
func short(c *mc.Ctx) {
	al := append(alphabet(), strItem(string(wire.Bytes(300, 1)), false), binItem(wire.Bytes(70000, 1), false))
	it := al[c.Choose(len(al))]
	c.Logf("%s", it.desc)
	s := msgpack.NewSizer()
	it.write(&s)
	n := int(s.Len())
	for cut := 0; cut < n && cut < 400; cut++ {
		c.Step()
		buf := bytes.Repeat([]byte{0xc1}, cut+32)
		e := msgpack.NewEncoder(buf[: cut : cut+32])
		it.write(&e)
		if e.Err() == nil {
			c.Failf("%s needs %d bytes; encoding into %d reported nothing", it.desc, n, cut)
		}
		for _, b := range buf[cut:] {
			if b != 0xc1 {
				c.Failf("%s: wrote outside a buffer of %d bytes", it.desc, cut)
			}
		}
	}
	// truncated input is refused
	full := encode(c, []item{it})
	for cut := 0; cut < n && cut < 400; cut++ {
		c.Step()
		d := msgpack.NewDecoder(append([]byte(nil), full[:cut]...))
		if err := it.read(&d); err == nil {
			c.Failf("%s: read back from only %d of %d bytes", it.desc, cut, n)
		}
	}
	c.State(it.desc, n)
}

// record is a composite type as the code generator writes them.
type record struct {
	A string
	B *int32
	C []byte
	D []string
	E map[string]uint16
	F *record
}

func (r *record) Encode(e msgpack.Writer) error {
	e.WriteMapSize(6)
	e.WriteString("a")
	e.WriteString(r.A)
	e.WriteString("b")
	e.WriteNillableInt32(r.B)
	e.WriteString("c")
	e.WriteNillableByteArray(r.C)
	e.WriteString("d")
	e.WriteArraySize(uint32(len(r.D)))
	for _, x := range r.D {
		e.WriteString(x)
	}
	e.WriteString("e")
	e.WriteMapSize(uint32(len(r.E)))
	for k, x := range r.E {
		e.WriteString(k)
		e.WriteUint16(x)
	}
	e.WriteString("f")
	if r.F == nil {
		e.WriteNil()
	} else {
		return r.F.Encode(e)
	}
	return nil
}

func (r *record) Decode(d msgpack.Reader) error {
	n, err := d.ReadMapSize()
	if err != nil {
		return err
	}
	for ; n > 0; n-- {
		k, err := d.ReadString()
		if err != nil {
			return err
		}
		switch k {
		case "a":
			r.A, err = d.ReadString()
		case "b":
			r.B, err = d.ReadNillableInt32()
		case "c":
			r.C, err = d.ReadNillableByteArray()
		case "d":
			var l uint32
			l, err = d.ReadArraySize()
			for ; l > 0 && err == nil; l-- {
				var x string
				x, err = d.ReadString()
				r.D = append(r.D, x)
			}
		case "e":
			var l uint32
			l, err = d.ReadMapSize()
			r.E = map[string]uint16{}
			for ; l > 0 && err == nil; l-- {
				var x string
				x, err = d.ReadString()
				if err == nil {
					r.E[x], err = d.ReadUint16()
				}
			}
		case "f":
			r.F, err = msgpack.DecodeNillable[record](d)
		default:
			err = d.Skip()
		}
		if err != nil {
			return err
		}
	}
	return nil
}

func records(c *mc.Ctx) {
	mk := func() *record {
		r := &record{A: mc.Pick(c, []string{"", "x", string(wire.Bytes(33, 1))})}
		if c.Bool() {
			x := mc.Pick(c, []int32{-1, 70000})
			r.B = &x
		}
		switch c.Choose(3) {
		case 1:
			r.C = []byte{}
		case 2:
			r.C = wire.Bytes(255, 3)
		}
		for i := mc.Pick(c, []int{0, 1, 16}); i > 0; i-- {
			r.D = append(r.D, fmt.Sprint(i))
		}
		r.E = map[string]uint16{}
		for i := mc.Pick(c, []int{0, 2, 17}); i > 0; i-- {
			r.E[fmt.Sprint(i)] = uint16(i * 4000)
		}
		return r
	}
	r := mk()
	if c.Bool() {
		r.F = mk()
	}
	b, err := msgpack.ToBytes(r)
	if err != nil {
		c.Failf("%+v: %v", r, err)
	}
	c.Step()
	v, n, ok := mp.Decode(b)
	if !ok || n != len(b) {
		c.Failf("%+v: not exactly one well-formed value: %d of %d bytes, %v", r, n, len(b), v)
	}
	d := msgpack.NewDecoder(b)
	got, err := msgpack.Decode[record](&d)
	if err != nil {
		c.Failf("%+v: %v", r, err)
	}
	if a, b := show(r), show(&got); a != b {
		c.Failf("%s came back as %s", a, b)
	}
	// a reader that knows none of the fields skips exactly the value
	d = msgpack.NewDecoder(append(b, 0x2a))
	if err := d.Skip(); err != nil {
		c.Failf("%s: Skip: %v", show(r), err)
	}
	if x, err := d.ReadUint8(); err != nil || x != 42 {
		c.Failf("%s: after Skip the next value is %v, %v", show(r), x, err)
	}
	c.State(show(r))
}

func show(r *record) string {
	s := fmt.Sprintf("%q C=%v/%v D=%q E=%v", r.A, r.C == nil, clip(r.C), r.D, r.E)
	if r.B != nil {
		s += fmt.Sprint(" B=", *r.B)
	}
	if r.F != nil {
		s += " F{" + show(r.F) + "}"
	}
	return s
}

// helpers checks the one-value conversion functions.
func helpers(c *mc.Ctx) {
	i := c.Choose(len(cases))
	d := cases[i]
	b, err := d.enc()
	c.Step()
	if err != nil {
		c.Failf("%s: %v", d.name, err)
	}
	v, n, ok := mp.Decode(b)
	if !ok || n != len(b) || !mp.Same(d.want, v) {
		c.Failf("%s: % x is %v", d.name, clip(b), v)
	}
	c.State(d.name)
}

type hcase struct {
	name string
	enc  func() ([]byte, error)
	want any
}

var cases = func() (out []hcase) {
	add := func(n string, w any, f func() ([]byte, error)) {
		out = append(out, hcase{fmt.Sprintf("%s #%d", n, len(out)), f, w})
	}
	for _, x := range []int64{0, 1, -1, 127, -128, 128, -129, 32767, -32768, 1 << 20, -1 << 40, math.MaxInt64, math.MinInt64} {
		x := x
		add("I8ToBytes", int8(x), func() ([]byte, error) { return msgpack.I8ToBytes(int8(x)) })
		add("I16ToBytes", int16(x), func() ([]byte, error) { return msgpack.I16ToBytes(int16(x)) })
		add("I32ToBytes", int32(x), func() ([]byte, error) { return msgpack.I32ToBytes(int32(x)) })
		add("I64ToBytes", x, func() ([]byte, error) { return msgpack.I64ToBytes(x) })
		add("U8ToBytes", uint8(x), func() ([]byte, error) { return msgpack.U8ToBytes(uint8(x)) })
		add("U16ToBytes", uint16(x), func() ([]byte, error) { return msgpack.U16ToBytes(uint16(x)) })
		add("U32ToBytes", uint32(x), func() ([]byte, error) { return msgpack.U32ToBytes(uint32(x)) })
		add("U64ToBytes", uint64(x), func() ([]byte, error) { return msgpack.U64ToBytes(uint64(x)) })
		add("F32ToBytes", float32(x), func() ([]byte, error) { return msgpack.F32ToBytes(float32(x)) })
		add("F64ToBytes", float64(x), func() ([]byte, error) { return msgpack.F64ToBytes(float64(x)) })
	}
	for _, x := range []bool{true, false} {
		x := x
		add("BoolToBytes", x, func() ([]byte, error) { return msgpack.BoolToBytes(x) })
	}
	for _, n := range []int{0, 1, 31, 32, 255, 256, 65535, 65536} {
		b := wire.Bytes(n, 1)
		add("StringToBytes", string(b), func() ([]byte, error) { return msgpack.StringToBytes(string(b)) })
		add("BytesToBytes", b, func() ([]byte, error) { return msgpack.BytesToBytes(b) })
	}
	return
}()

func main() {
	mc.Main(mc.Config{
		ID:     "C16",
		Rule:   "exhaustive enumeration of typed values; each encoding is decoded by an independent decoder and by every typed reader that might meet it",
		Bounds: fmt.Sprintf("every integer in [-32768, 65535] and within 40 (2000) of each power of two, all writers x all readers x all foreign formats; every length 0-300 and around 2^16, 2^20, 2^24; every size near a power of two; float and time grids; all sequences of %d values over 47; every truncated buffer", mc.Bound(3, 3)),
		Scenarios: []mc.Scenario{
			{Name: "16-bit integers", Body: ints16},
			{Name: "wide integers", Body: intsWide},
			{Name: "strings and bytes", Body: stringsAndBytes},
			{Name: "sizes", Body: sizes},
			{Name: "floats", Body: floats},
			{Name: "times", Body: times},
			{Name: "sequences", Body: sequences(3)},
			{Name: "short buffers", Body: short},
			{Name: "records", Body: records},
			{Name: "helpers", Body: helpers},
		},
	})
}
