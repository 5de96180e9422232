// C26: payload transforms, codecs and conversions.
package main

import (
	"errors"
	"fmt"
	"math"
	"reflect"
	"strings"
	"time"

	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/msgpack"
	"github.com/nanobus/iota/go/msgpack/convert"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/transform"
	"github.com/nanobus/iota/go/zzverif/mc"
	"github.com/nanobus/iota/go/zzverif/mp"
)

// entry is one transform with its types erased.
type entry struct {
	name   string
	values []any
	encode func(any) ([]byte, error)
	decode func([]byte) (any, error)
	// want says what the value v on the wire is for this transform; strict
	// tells that anything else must be refused.
	want func(v mp.Value) (x any, ok, strict bool)
	kind mp.Kind
}

func of[T any](name string, t transform.Transform[T], want func(mp.Value) (any, bool, bool), values ...T) entry {
	e := entry{name: name, want: want}
	for _, v := range values {
		e.values = append(e.values, v)
	}
	e.encode = func(v any) ([]byte, error) {
		p, err := t.Encode(v.(T))
		if err != nil {
			return nil, err
		}
		if p.Metadata() != nil {
			return nil, fmt.Errorf("unexpected metadata % x", p.Metadata())
		}
		return p.Data(), nil
	}
	e.decode = func(b []byte) (any, error) {
		v, err := t.Decode(payload.New(b, []byte("meta")))
		return v, err
	}
	return e
}

func signed[T int | int8 | int16 | int32 | int64](min, max int64) func(mp.Value) (any, bool, bool) {
	return func(v mp.Value) (any, bool, bool) {
		if v.Kind != mp.Int {
			return nil, false, v.Kind != mp.Nil
		}
		if !v.I.IsInt64() || v.I.Int64() < min || v.I.Int64() > max {
			return nil, false, true
		}
		return T(v.I.Int64()), true, true
	}
}

func unsigned[T uint | uint8 | uint16 | uint32 | uint64](max uint64) func(mp.Value) (any, bool, bool) {
	return func(v mp.Value) (any, bool, bool) {
		if v.Kind != mp.Int {
			return nil, false, v.Kind != mp.Nil
		}
		if !v.I.IsUint64() || v.I.Uint64() > max {
			return nil, false, true
		}
		return T(v.I.Uint64()), true, true
	}
}

type (
	myInt32  int32
	myInt64  int64
	myUint64 uint64
	myString string
)

var stringsUsed = []string{"", "a", "ü€😀", "nul\x00", strings.Repeat("x", 31), strings.Repeat("x", 32), strings.Repeat("y", 255), strings.Repeat("y", 256), strings.Repeat("z", 65535), strings.Repeat("z", 65536), "2024-02-29T12:34:56.789Z", "2024-02-30T00:00:00Z", "\xff\xfe"}

var i64s = []int64{0, 1, -1, 31, 32, -32, -33, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536, 1<<31 - 1, 1 << 31, -1 << 31, -1<<31 - 1, 1<<32 - 1, 1 << 32, math.MaxInt64, math.MinInt64}

func ints[T int | int8 | int16 | int32 | int64]() (r []T) {
	for _, v := range i64s {
		if int64(T(v)) == v {
			r = append(r, T(v))
		}
	}
	return
}
func uints[T uint | uint8 | uint16 | uint32 | uint64]() (r []T) {
	for _, v := range append(i64s, -2) {
		if uint64(T(v)) == uint64(v) {
			r = append(r, T(v))
		}
	}
	return
}

func wantString[T ~string](v mp.Value) (any, bool, bool) {
	return T(v.S), v.Kind == mp.Str, v.Kind != mp.Nil && v.Kind != mp.Bin && v.Kind != mp.Arr
}

func wantTime(v mp.Value) (any, bool, bool) {
	if v.Kind != mp.Str {
		return nil, false, v.Kind != mp.Nil && v.Kind != mp.Bin && v.Kind != mp.Arr
	}
	t, err := time.Parse(time.RFC3339Nano, string(v.S))
	return t, err == nil, true
}

var entries []entry

func init() {
	times := []time.Time{time.Unix(0, 0).UTC(), time.Unix(-1, 999999999).UTC(), time.Date(1, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(9999, 12, 31, 23, 59, 59, 999999999, time.UTC), time.Date(2024, 2, 29, 1, 2, 3, 450000000, time.FixedZone("", -5*3600-1800)), time.Date(2024, 6, 1, 0, 0, 0, 1, time.FixedZone("", 14*3600))}
	f64 := func(v mp.Value) (any, bool, bool) {
		return v.F, v.Kind == mp.F64, v.Kind != mp.Nil && v.Kind != mp.F32 && v.Kind != mp.Int
	}
	f32 := func(v mp.Value) (any, bool, bool) {
		return float32(v.F), v.Kind == mp.F32, v.Kind != mp.Nil && v.Kind != mp.F64 && v.Kind != mp.Int
	}
	entries = []entry{
		of("String", transform.String, wantString[string], stringsUsed...),
		of("Int", transform.Int, signed[int](math.MinInt64, math.MaxInt64), ints[int]()...),
		of("Int64", transform.Int64, signed[int64](math.MinInt64, math.MaxInt64), ints[int64]()...),
		of("Int32", transform.Int32, signed[int32](math.MinInt32, math.MaxInt32), ints[int32]()...),
		of("Int16", transform.Int16, signed[int16](math.MinInt16, math.MaxInt16), ints[int16]()...),
		of("Int8", transform.Int8, signed[int8](math.MinInt8, math.MaxInt8), ints[int8]()...),
		of("Uint", transform.Uint, unsigned[uint](math.MaxUint64), uints[uint]()...),
		of("Uint64", transform.Uint64, unsigned[uint64](math.MaxUint64), uints[uint64]()...),
		of("Uint32", transform.Uint32, unsigned[uint32](math.MaxUint32), uints[uint32]()...),
		of("Uint16", transform.Uint16, unsigned[uint16](math.MaxUint16), uints[uint16]()...),
		of("Uint8", transform.Uint8, unsigned[uint8](math.MaxUint8), uints[uint8]()...),
		of("Float64", transform.Float64, f64, 0, math.Copysign(0, -1), 1.5, -2, math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(1), math.Inf(-1), math.Pi),
		of("Float32", transform.Float32, f32, 0, 1.5, -2, math.MaxFloat32, math.SmallestNonzeroFloat32, float32(math.Inf(1)), math.Pi),
		of("Bytes", transform.Bytes, func(v mp.Value) (any, bool, bool) {
			return append([]byte{}, v.S...), v.Kind == mp.Bin, v.Kind != mp.Nil && v.Kind != mp.Str && v.Kind != mp.Arr
		}, []byte{}, []byte{0}, []byte("abc"), make([]byte, 255), make([]byte, 256), make([]byte, 65535), make([]byte, 65536)),
		of("Bool", transform.Bool, func(v mp.Value) (any, bool, bool) { return v.B, v.Kind == mp.Bool, v.Kind != mp.Nil }, true, false),
		of("Time", transform.Time, wantTime, times...),
		of("Int32Encode", transform.Transform[myInt32]{Encode: transform.Int32Encode[myInt32], Decode: transform.Int32Decode[myInt32]}, func(v mp.Value) (any, bool, bool) {
			x, ok, s := signed[int32](math.MinInt32, math.MaxInt32)(v)
			if ok {
				x = myInt32(x.(int32))
			}
			return x, ok, s
		}, 0, -1, 127, 128, math.MaxInt32, math.MinInt32),
		of("Int64Encode", transform.Transform[myInt64]{Encode: transform.Int64Encode[myInt64], Decode: transform.Int64Decode[myInt64]}, func(v mp.Value) (any, bool, bool) {
			x, ok, s := signed[int64](math.MinInt64, math.MaxInt64)(v)
			if ok {
				x = myInt64(x.(int64))
			}
			return x, ok, s
		}, 0, -1, 127, 128, math.MaxInt64, math.MinInt64),
		of("Uint64Encode", transform.Transform[myUint64]{Encode: transform.Uint64Encode[myUint64], Decode: transform.Uint64Decode[myUint64]}, func(v mp.Value) (any, bool, bool) {
			x, ok, s := unsigned[uint64](math.MaxUint64)(v)
			if ok {
				x = myUint64(x.(uint64))
			}
			return x, ok, s
		}, 0, 127, 128, 256, 1<<32, math.MaxUint64),
		of("StringEncode", transform.Transform[myString]{Encode: transform.StringEncode[myString], Decode: transform.StringDecode[myString]}, wantString[myString], "", "a", "ü", myString(strings.Repeat("q", 40))),
	}
}

func equal(a, b any) bool {
	switch x := a.(type) {
	case time.Time:
		y, ok := b.(time.Time)
		_, o1 := x.Zone()
		_, o2 := y.Zone()
		return ok && x.Equal(y) && o1 == o2
	case []byte:
		y, ok := b.([]byte)
		return ok && string(x) == string(y)
	case float64:
		y, ok := b.(float64)
		return ok && (x == y && math.Signbit(x) == math.Signbit(y) || x != x && y != y)
	case float32:
		y, ok := b.(float32)
		return ok && (x == y && math.Signbit(float64(x)) == math.Signbit(float64(y)) || x != x && y != y)
	}
	return a == b
}

func decode(c *mc.Ctx, e entry, b []byte) (v any, err error) {
	defer func() {
		if r := recover(); r != nil {
			c.Failf("%s: decoding % x panics: %v", e.name, clip(b), r)
		}
	}()
	return e.decode(b)
}

func clip(b []byte) []byte {
	if len(b) > 32 {
		return b[:32]
	}
	return b
}

// transforms encodes every value and reads the bytes with every transform.
func transforms(c *mc.Ctx) {
	e := mc.Pick(c, entries)
	v := mc.Pick(c, e.values)
	b, err := e.encode(v)
	if err != nil {
		c.Failf("%s(%.60v): %v", e.name, v, err)
	}
	w, n, ok := mp.Decode(b)
	if !ok || n != len(b) {
		c.Failf("%s(%.60v) is encoded as % x, not one MessagePack value", e.name, v, clip(b))
	}
	x, ok, _ := e.want(w)
	if !ok || !equal(x, v) {
		c.Failf("%s(%.60v) is encoded as % x, which denotes %.60v", e.name, v, clip(b), w)
	}
	for _, o := range entries {
		cross(c, o, w, b)
	}
	step := 1
	if len(b) > 600 {
		step = len(b) / 300
	}
	for i := 0; i < len(b); i += step {
		c.Step()
		if got, err := decode(c, e, b[:i:i]); err == nil {
			c.Failf("%s: the first %d of %d bytes of %.60v decode to %.60v", e.name, i, len(b), v, got)
		}
	}
	c.State(e.name, fmt.Sprintf("%.40v", v))
}

func cross(c *mc.Ctx, o entry, w mp.Value, b []byte) {
	c.Step()
	b = b[:len(b):len(b)]
	want, ok, strict := o.want(w)
	got, err := decode(c, o, b)
	switch {
	case ok && err != nil:
		c.Failf("%s cannot read % x (%.60v): %v", o.name, clip(b), w, err)
	case ok && !equal(got, want):
		c.Failf("%s reads % x (%.60v) as %.60v", o.name, clip(b), w, got)
	case !ok && strict && err == nil:
		c.Failf("%s reads % x (%.60v) as %.60v instead of reporting an error", o.name, clip(b), w, got)
	}
}

// foreign reads every short byte string with every transform.
func foreign(c *mc.Ctx) {
	o := mc.Pick(c, entries)
	lead := c.Choose(256)
	alpha := []byte{0, 1, 2, 0x20, 0x7f, 0x80, 0xff}
	try := func(b []byte) {
		w, _, ok := mp.Decode(b)
		if !ok {
			c.Step()
			// strings and byte strings also read the byte-per-element arrays of old encoders
			arr := len(b) > 0 && (b[0]&0xf0 == 0x90 || b[0] == 0xdc || b[0] == 0xdd) && (strings.HasPrefix(o.name, "String") || o.name == "Bytes" || o.name == "Time")
			if got, err := decode(c, o, b[:len(b):len(b)]); err == nil && !arr {
				c.Failf("%s reads % x, which is no complete value, as %.60v", o.name, b, got)
			}
			return
		}
		cross(c, o, w, b)
	}
	try(nil)
	try([]byte{byte(lead)})
	for _, x := range alpha {
		try([]byte{byte(lead), x})
		for _, y := range alpha {
			try([]byte{byte(lead), x, y})
			for _, z := range alpha {
				try([]byte{byte(lead), x, y, z})
				try([]byte{byte(lead), x, y, z, x})
				try([]byte{byte(lead), x, y, z, x, y, z, x, y})
			}
		}
	}
	c.State(o.name, lead>>4)
}

// rec is a generated-style codec that can be told to fail.
type rec struct {
	A    int64
	B    string
	X    any
	Fail string // "size", "write": the call that fails
	seen int
}

var errCodec = errors.New("codec failed")

func (r *rec) Encode(w msgpack.Writer) error {
	if _, sizing := w.(*msgpack.Sizer); sizing && r.Fail == "size" || !sizing && r.Fail == "write" {
		return errCodec
	}
	w.WriteMapSize(3)
	w.WriteString("a")
	w.WriteInt64(r.A)
	w.WriteString("b")
	w.WriteString(r.B)
	w.WriteString("x")
	w.WriteAny(r.X)
	return nil
}

func (r *rec) Decode(d msgpack.Reader) error {
	n, err := d.ReadMapSize()
	for ; err == nil && n > 0; n-- {
		var k string
		if k, err = d.ReadString(); err != nil {
			return err
		}
		switch k {
		case "a":
			if r.A, err = d.ReadInt64(); err == nil && r.A == 666 {
				return errCodec
			}
		case "b":
			r.B, err = d.ReadString()
		case "x":
			r.X, err = d.ReadAny()
		default:
			err = d.Skip()
		}
	}
	return err
}

func pick(c *mc.Ctx, i int) rec {
	return mc.Pick(c, []rec{
		{A: int64(i), B: "ok"},
		{A: -70000, B: strings.Repeat("l", 300), X: []any{true, "s"}},
		{A: 5, B: "f", Fail: "size"},
		{A: 5, B: "f", Fail: "write"},
		{A: 5, B: "f", X: make(chan int)},
		{A: 666, B: "undecodable"},
	})
}

func sameRec(a, b rec) bool {
	return a.A == b.A && a.B == b.B && reflect.DeepEqual(a.X, b.X)
}

func codecs(c *mc.Ctx) {
	n := c.Choose(mc.Bound(4, 5))
	var items []rec
	bad, undecodable := -1, -1
	for i := 0; i < n; i++ {
		r := pick(c, i)
		if _, isChan := r.X.(chan int); (r.Fail != "" || isChan) && bad < 0 {
			bad = i
		}
		if r.A == 666 && undecodable < 0 {
			undecodable = i
		}
		items = append(items, r)
	}
	judge := func(how string, p payload.Payload, err error, bad int) bool {
		c.Step()
		if bad >= 0 {
			if err == nil {
				c.Failf("%s: item %d of %d cannot be encoded, yet no error", how, bad, len(items))
			}
			if p != nil && !reflect.ValueOf(p).IsNil() {
				c.Failf("%s: an error and a payload", how)
			}
			return false
		}
		if err != nil {
			c.Failf("%s: %v", how, err)
		}
		return true
	}
	// one by one
	for i, r := range items {
		b1 := -1
		if _, isChan := r.X.(chan int); r.Fail != "" || isChan {
			b1 = i
		}
		p, err := transform.MsgPackEncode[rec](r)
		if judge("MsgPackEncode", p, err, b1) {
			q, err := transform.CodecEncode(&r)
			if err != nil || string(q.Data()) != string(p.Data()) {
				c.Failf("CodecEncode: %v, other bytes than MsgPackEncode", err)
			}
			raw, err := msgpack.ToBytes(&r)
			if err != nil || string(raw) != string(p.Data()) {
				c.Failf("ToBytes: %v, other bytes than MsgPackEncode", err)
			}
			if _, k, ok := mp.Decode(p.Data()); !ok || k != len(p.Data()) {
				c.Failf("MsgPackEncode: % x is not one value", clip(p.Data()))
			}
			for cut := 0; cut <= len(p.Data()); cut++ {
				b := p.Data()[:cut:cut]
				c.Step()
				got, err := transform.MsgPackDecode[rec](payload.New(b))
				var other rec
				err2 := transform.CodecDecode(payload.New(b), &other)
				wantErr := cut < len(p.Data()) || r.A == 666
				if (err != nil) != wantErr || (err2 != nil) != wantErr {
					c.Failf("decoding %d of %d bytes of %+v: %v, %v", cut, len(p.Data()), r, err, err2)
				}
				if !wantErr && (!sameRec(got, r) || !sameRec(other, r)) {
					c.Failf("%+v comes back as %+v, %+v", r, got, other)
				}
			}
		} else if raw, err := msgpack.ToBytes(&r); err == nil || raw != nil {
			c.Failf("ToBytes of an unencodable value: % x, %v", clip(raw), err)
		}
	}
	p, err := transform.SliceEncode[rec](items)
	if !judge("SliceEncode", p, err, bad) {
		return
	}
	whole := p.Data()
	w, k, ok := mp.Decode(whole)
	if !ok || k != len(whole) || w.Kind != mp.Arr || len(w.Elems) != n {
		c.Failf("SliceEncode of %d items writes % x", n, clip(whole))
	}
	for cut := 0; cut <= len(whole); cut++ {
		c.Step()
		got, err := transform.SliceDecode[rec](payload.New(whole[:cut:cut]))
		wantErr := cut < len(whole) || undecodable >= 0
		if (err != nil) != wantErr {
			c.Failf("SliceDecode of %d of %d bytes (%d items): %v, want error=%v", cut, len(whole), n, err, wantErr)
		}
		if err == nil {
			if len(got) != n {
				c.Failf("SliceDecode: %d items, want %d", len(got), n)
			}
			for i := range got {
				if !sameRec(got[i], items[i]) {
					c.Failf("SliceDecode: item %d is %+v, want %+v", i, got[i], items[i])
				}
			}
		} else if len(got) != 0 {
			c.Failf("SliceDecode: an error and %d items", len(got))
		}
	}
	c.State(n, bad, undecodable)
}

// hugeSlice announces many items and holds few.
func hugeSlice(c *mc.Ctx) {
	n := mc.Pick(c, []uint32{1 << 16, 1 << 20, 1 << 28, 1<<32 - 1})
	b := []byte{0xdd, byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n), 0x80, 0x80}
	got, err := transform.SliceDecode[rec](payload.New(b))
	if err == nil || len(got) != 0 {
		c.Failf("a slice announcing %d items in %d bytes decodes to %d items, %v", n, len(b), len(got), err)
	}
	c.State(n)
}

func toBytes(c *mc.Ctx) {
	same := func(name string, v any, b []byte, err error) {
		c.Step()
		if err != nil {
			c.Failf("%s(%.60v): %v", name, v, err)
		}
		w, n, ok := mp.Decode(b)
		if !ok || n != len(b) || !mp.Same(v, w) {
			c.Failf("%s(%.60v) = % x", name, v, clip(b))
		}
		a, err := msgpack.AnyToBytes(v)
		if err != nil || string(a) != string(b) {
			c.Failf("AnyToBytes(%.60v) = % x, %v; %s gives % x", v, clip(a), err, name, clip(b))
		}
		c.State(name, len(b))
	}
	for _, v := range ints[int8]() {
		b, err := msgpack.I8ToBytes(v)
		same("I8ToBytes", v, b, err)
	}
	for _, v := range ints[int16]() {
		b, err := msgpack.I16ToBytes(v)
		same("I16ToBytes", v, b, err)
	}
	for _, v := range ints[int32]() {
		b, err := msgpack.I32ToBytes(v)
		same("I32ToBytes", v, b, err)
	}
	for _, v := range ints[int64]() {
		b, err := msgpack.I64ToBytes(v)
		same("I64ToBytes", v, b, err)
	}
	for _, v := range uints[uint8]() {
		b, err := msgpack.U8ToBytes(v)
		same("U8ToBytes", v, b, err)
	}
	for _, v := range uints[uint16]() {
		b, err := msgpack.U16ToBytes(v)
		same("U16ToBytes", v, b, err)
	}
	for _, v := range uints[uint32]() {
		b, err := msgpack.U32ToBytes(v)
		same("U32ToBytes", v, b, err)
	}
	for _, v := range uints[uint64]() {
		b, err := msgpack.U64ToBytes(v)
		same("U64ToBytes", v, b, err)
	}
	for _, v := range []float32{0, 1.5, -1, math.MaxFloat32} {
		b, err := msgpack.F32ToBytes(v)
		same("F32ToBytes", v, b, err)
	}
	for _, v := range []float64{0, 1.5, -1, math.MaxFloat64} {
		b, err := msgpack.F64ToBytes(v)
		same("F64ToBytes", v, b, err)
	}
	for _, v := range []bool{true, false} {
		b, err := msgpack.BoolToBytes(v)
		same("BoolToBytes", v, b, err)
	}
	for _, v := range stringsUsed {
		b, err := msgpack.StringToBytes(v)
		same("StringToBytes", v, b, err)
		b, err = msgpack.BytesToBytes([]byte(v))
		same("BytesToBytes", []byte(v), b, err)
	}
}

type numT int16

var errIn = errors.New("decoding failed")

// nilable checks a conversion of optional values: error, absent, present.
func nilable[I, T comparable](c *mc.Ctx, name string, f func(*I, error) (*T, error), in I, out T) {
	c.Step()
	got, err := f(&in, nil)
	if err != nil || got == nil || *got != out {
		c.Failf("%s of %v: %v, %v", name, in, got, err)
	}
	if got, err := f(nil, nil); err != nil || got != nil {
		c.Failf("%s of an absent value: %v, %v", name, got, err)
	}
	if got, err := f(nil, errIn); err != errIn || got != nil {
		c.Failf("%s of an error: %v, %v", name, got, err)
	}
	if got, err := f(&in, errIn); err != errIn || got != nil {
		c.Failf("%s of a value with an error: %v, %v", name, got, err)
	}
}

func plain[I, T any](c *mc.Ctx, name string, f func(I, error) (T, error), in I, out T) {
	c.Step()
	if got, err := f(in, nil); err != nil || !reflect.DeepEqual(got, out) {
		c.Failf("%s of %v: %v, %v", name, in, got, err)
	}
	if _, err := f(in, errIn); err != errIn {
		c.Failf("%s of an error: %v", name, err)
	}
}

func conversions(c *mc.Ctx) {
	for _, s := range stringsUsed {
		plain(c, "String", convert.String[myString], s, myString(s))
		nilable(c, "NillableString", convert.NillableString[myString], s, myString(s))
		plain(c, "ByteArray", convert.ByteArray[[]byte, []byte], []byte(s), []byte(s))
	}
	type myBool bool
	for _, b := range []bool{true, false} {
		plain(c, "Bool", convert.Bool[myBool], b, myBool(b))
		nilable(c, "NillableBool", convert.NillableBool[myBool], b, myBool(b))
	}
	for _, v := range []int32{0, 1, -1, 32767, -32768} {
		plain(c, "Numeric", convert.Numeric[numT, int32], v, numT(v))
		nilable(c, "NillableNumeric", convert.NillableNumeric[numT, int32], v, numT(v))
	}
	fail := errors.New("no such thing")
	parse := func(s string) (myInt32, error) {
		if s == "bad" {
			return 7, fail
		}
		return myInt32(len(s)), nil
	}
	plain(c, "Parse", convert.Parse(parse), "abc", 3)
	nilable(c, "NillableParse", convert.NillableParse(parse), "abc", 3)
	if _, err := convert.Parse(parse)("bad", nil); err != fail {
		c.Failf("Parse does not report that parsing failed: %v", err)
	}
	bad := "bad"
	if got, err := convert.NillableParse(parse)(&bad, nil); err != fail || got != nil {
		c.Failf("NillableParse of an unparsable value: %v, %v", got, err)
	}
	format := convert.Format(func(v *myInt32) string { return fmt.Sprint(*v) })
	seven := myInt32(7)
	if s := format(&seven); s == nil || *s != "7" {
		c.Failf("Format of 7: %v", s)
	}
	if s := format(nil); s != nil {
		c.Failf("Format of an absent value: %q", *s)
	}
	for _, e := range entries {
		if e.name != "Time" {
			continue
		}
		for _, v := range e.values {
			c.Step()
			t := v.(time.Time)
			s := convert.TimeToString(t)
			back, err := convert.StringToTime(s, nil)
			if err != nil || !equal(back, t) || s != t.Format(time.RFC3339Nano) {
				c.Failf("time %v is formatted as %q and comes back as %v, %v", t, s, back, err)
			}
			if _, err := convert.StringToTime(s, errIn); err != errIn {
				c.Failf("StringToTime of an error: %v", err)
			}
			ps := convert.TimeToStringPtr(&t)
			if ps == nil || *ps != s {
				c.Failf("TimeToStringPtr(%v) = %v", t, ps)
			}
			pt, err := convert.StringToTimePtr(ps, nil)
			if err != nil || pt == nil || !equal(*pt, t) {
				c.Failf("StringToTimePtr(%q) = %v, %v", s, pt, err)
			}
			if pt, err := convert.StringToTimePtr(ps, errIn); err != errIn || pt != nil {
				c.Failf("StringToTimePtr of an error: %v, %v", pt, err)
			}
		}
	}
	if convert.TimeToStringPtr(nil) != nil {
		c.Failf("TimeToStringPtr of an absent time")
	}
	if pt, err := convert.StringToTimePtr(nil, nil); pt != nil || err != nil {
		c.Failf("StringToTimePtr of an absent text: %v, %v", pt, err)
	}
	for _, s := range []string{"", "x", "2024-02-30T00:00:00Z", "2024-01-01", "2024-01-01T00:00:00"} {
		if _, err := convert.StringToTime(s, nil); err == nil {
			c.Failf("StringToTime(%q) succeeds", s)
		}
		if _, err := convert.StringToTimePtr(&s, nil); err == nil {
			c.Failf("StringToTimePtr(%q) succeeds", s)
		}
	}
	c.State("conversions")
}

// handles passes instances through payloads.
func handles(c *mc.Ctx) {
	tr := invoke.NewLiveInstances[*rec]()
	enc := transform.InterfaceEncode(tr)
	var hs []uint64
	var is []*rec
	for i := 0; i < 5; i++ {
		c.Step()
		r := &rec{A: int64(i)}
		p, err := enc(r)
		if err != nil {
			c.Failf("InterfaceEncode: %v", err)
		}
		w, n, ok := mp.Decode(p.Data())
		if !ok || n != len(p.Data()) || w.Kind != mp.Int || !w.I.IsUint64() {
			c.Failf("InterfaceEncode writes % x", p.Data())
		}
		hs = append(hs, w.I.Uint64())
		is = append(is, r)
		for j, h := range hs {
			if got, ok := tr.Get(h); !ok || got != is[j] {
				c.Failf("the handle sent for instance %d finds %v, %v", j, got, ok)
			}
		}
	}
	// nothing is registered under a handle that is sent for nothing
	if v, err := transform.Void.Encode(struct{}{}); err != nil || len(v.Data()) != 0 {
		c.Failf("Void encodes to % x, %v", v.Data(), err)
	}
	for _, b := range [][]byte{nil, {}, {0xc0}, {1, 2}} {
		if _, err := transform.Void.Decode(payload.New(b)); err != nil {
			c.Failf("Void decodes % x with %v", b, err)
		}
	}
	c.State("handles")
}

func main() {
	mc.Main(mc.Config{
		ID:     "C26",
		Rule:   "exhaustive: every transform x every value, its bytes read by every transform and truncated everywhere; every short byte string; all slices of codecs over failing and sound items; every conversion helper with value, absence and error",
		Bounds: fmt.Sprintf("20 transforms, 2-27 values each, 20x cross reading; 256 lead bytes x tails over 7 values to 9 bytes; slices of up to %d items of 6 kinds, every truncation", mc.Bound(3, 4)),
		Scenarios: []mc.Scenario{
			{Name: "transforms", Body: transforms},
			{Name: "short inputs", Body: foreign},
			{Name: "codecs and slices", Body: codecs},
			{Name: "announced lengths", Body: hugeSlice},
			{Name: "typed byte functions", Body: toBytes},
			{Name: "conversions", Body: conversions},
			{Name: "handles", Body: handles},
		},
		Assumptions: []string{"what a transform does with nil, and with a string for bytes, an array for either or an integer for a float, is left open", "bytes after the first value of a payload are ignored"},
	})
}
