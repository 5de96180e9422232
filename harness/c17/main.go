// C17: dynamically typed MessagePack values.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"time"

	"github.com/nanobus/iota/go/msgpack"
	"github.com/nanobus/iota/go/zzverif/mc"
	"github.com/nanobus/iota/go/zzverif/mp"
	"github.com/nanobus/iota/go/zzverif/wire"
)

var scalars = []any{
	nil, true, false, int8(-128), int8(5), int16(-129), int16(300), int32(-70000), int32(70000), int64(-1 << 40), int64(1 << 40), int(-1), int(200),
	uint8(0), uint8(200), uint16(60000), uint32(4000000000), uint64(1 << 63), uint(7), float32(1.5), float64(-2.25),
	"", "key", string(wire.Bytes(40, 1)), []byte{}, []byte{1, 2, 3}, wire.Bytes(255, 1), wire.Bytes(256, 1),
	time.Unix(100, 0), time.Unix(100, 5), time.Unix(-5, 5),
}

// norm describes a Go value the way the wire can: integers by value.
func norm(v any) any {
	arr := func(n int, f func(int) any) any {
		out := make([]any, n)
		for i := range out {
			out[i] = norm(f(i))
		}
		return out
	}
	switch x := v.(type) {
	case []any:
		return arr(len(x), func(i int) any { return x[i] })
	case []string:
		return arr(len(x), func(i int) any { return x[i] })
	case []bool:
		return arr(len(x), func(i int) any { return x[i] })
	case []int:
		return arr(len(x), func(i int) any { return x[i] })
	case []int8:
		return arr(len(x), func(i int) any { return x[i] })
	case []int16:
		return arr(len(x), func(i int) any { return x[i] })
	case []int32:
		return arr(len(x), func(i int) any { return x[i] })
	case []int64:
		return arr(len(x), func(i int) any { return x[i] })
	case []uint:
		return arr(len(x), func(i int) any { return x[i] })
	case []uint16:
		return arr(len(x), func(i int) any { return x[i] })
	case []uint32:
		return arr(len(x), func(i int) any { return x[i] })
	case []uint64:
		return arr(len(x), func(i int) any { return x[i] })
	case []time.Time:
		return arr(len(x), func(i int) any { return x[i] })
	case map[string]string:
		return mapNorm(x)
	case map[string]any:
		return mapNorm(x)
	case map[int]any:
		return mapNorm(x)
	case map[int8]any:
		return mapNorm(x)
	case map[int16]any:
		return mapNorm(x)
	case map[int32]any:
		return mapNorm(x)
	case map[int64]any:
		return mapNorm(x)
	case map[uint]any:
		return mapNorm(x)
	case map[uint8]any:
		return mapNorm(x)
	case map[uint16]any:
		return mapNorm(x)
	case map[uint32]any:
		return mapNorm(x)
	case map[uint64]any:
		return mapNorm(x)
	case map[any]any:
		return mapNorm(x)
	case codec:
		return norm([]any{int(x), "codec"})
	}
	return v
}

func mapNorm[K comparable, V any](m map[K]V) any {
	out := map[any]any{}
	for k, v := range m {
		out[any(k)] = norm(v)
	}
	return out
}

// codec is a type that writes itself.
type codec int

var errCodec = errors.New("refused")

func (x codec) Encode(w msgpack.Writer) error {
	if x < 0 {
		return errCodec
	}
	w.WriteArraySize(2)
	w.WriteInt64(int64(x))
	w.WriteString("codec")
	return nil
}

func (x codec) Decode(msgpack.Reader) error { return nil }

func check(c *mc.Ctx, v any) {
	c.Step()
	b, err := msgpack.AnyToBytes(v)
	if err != nil {
		c.Failf("%T %v: %v", v, show(v), err)
	}
	o, n, ok := mp.Decode(b)
	if !ok || n != len(b) {
		c.Failf("%T %v: encoded as % x: not exactly one well-formed value", v, show(v), clip(b))
	}
	if !mp.Same(norm(v), o) {
		c.Failf("%T %v: encoded as %v", v, show(v), o)
	}
	keep := append([]byte(nil), b...)
	d := msgpack.NewDecoder(append(b, 0x2a))
	got, err := d.ReadAny()
	if !mp.Supported(o) {
		if err == nil {
			c.Failf("%v: read without an error as %v", o, got)
		}
		c.State("unsupported", o)
		return
	}
	if err != nil {
		c.Failf("%T %v: reading % x back: %v", v, show(v), clip(b), err)
	}
	if !mp.Same(got, o) {
		c.Failf("%T %v: came back as %T %v", v, show(v), got, got)
	}
	if x, err := d.ReadUint8(); err != nil || x != 42 {
		c.Failf("%v: the reader did not stop at its end: %v, %v", o, x, err)
	}
	if !bytes.Equal(keep, b) {
		c.Failf("%v: reading changed the input", o)
	}
	// what was read encodes again to the same value
	b2, err := msgpack.AnyToBytes(got)
	if err != nil {
		c.Failf("%v: read back as %T %v, which does not encode: %v", o, got, got, err)
	}
	o2, n2, ok := mp.Decode(b2)
	if !ok || n2 != len(b2) || !mp.Same(got, o2) {
		c.Failf("%v: second encoding is %v", o, o2)
	}
	c.State(fmt.Sprintf("%T", v), o)
}

func clip(b []byte) []byte {
	if len(b) > 40 {
		return b[:40]
	}
	return b
}

func show(v any) string {
	s := fmt.Sprint(v)
	if len(s) > 60 {
		s = s[:60]
	}
	return s
}

var counts = []int{0, 1, 2, 15, 16, 17, 300, 65535, 65536}

func slice[T any](n int, f func(int) T) []T {
	out := make([]T, n)
	for i := range out {
		out[i] = f(i)
	}
	return out
}

func mapOf[K comparable](n int, f func(int) K) map[K]any {
	out := map[K]any{}
	for i := 0; i < n; i++ {
		out[f(i)] = scalars[i%len(scalars)]
	}
	return out
}

// shapes: every supported container type with every size class.
func shapes(c *mc.Ctx) {
	n := mc.Pick(c, counts)
	c.Logf("%d elements", n)
	small := n
	if small > 128 {
		small = 128
	}
	w := func(i int) int64 { return int64(i) * int64(i) * 37 * int64(1-2*(i%2)) }
	for _, v := range []any{
		slice(n, func(i int) any { return scalars[i%len(scalars)] }),
		slice(n, func(i int) string { return string(wire.Bytes(i%40, byte(i))) }),
		slice(n, func(i int) bool { return i%3 == 0 }),
		slice(n, func(i int) int { return int(w(i)) }),
		slice(n, func(i int) int8 { return int8(w(i)) }),
		slice(n, func(i int) int16 { return int16(w(i)) }),
		slice(n, func(i int) int32 { return int32(w(i)) }),
		slice(n, func(i int) int64 { return w(i) << 20 }),
		slice(n, func(i int) uint { return uint(i * 300) }),
		slice(n, func(i int) uint8 { return uint8(i) }),
		slice(n, func(i int) uint16 { return uint16(i * 99) }),
		slice(n, func(i int) uint32 { return uint32(w(i)) }),
		slice(n, func(i int) uint64 { return uint64(w(i)) }),
		slice(n, func(i int) time.Time { return time.Unix(int64(i), int64(i%2)) }),
		func() map[string]string {
			m := map[string]string{}
			for i := 0; i < n; i++ {
				m[fmt.Sprint(i)] = string(wire.Bytes(i%40, byte(i)))
			}
			return m
		}(),
		mapOf(n, func(i int) string { return fmt.Sprint("k", i) }),
		mapOf(n, func(i int) int { return i - 20 }),
		mapOf(small, func(i int) int8 { return int8(i - 20) }),
		mapOf(small, func(i int) int16 { return int16(i*200 - 100) }),
		mapOf(n, func(i int) int32 { return int32(i*70000 - 10) }),
		mapOf(n, func(i int) int64 { return int64(i)<<33 - 10 }),
		mapOf(n, func(i int) uint { return uint(i * 3) }),
		mapOf(small, func(i int) uint8 { return uint8(i * 2) }),
		mapOf(small, func(i int) uint16 { return uint16(i * 300) }),
		mapOf(n, func(i int) uint32 { return uint32(i * 60000) }),
		mapOf(n, func(i int) uint64 { return uint64(i) << 40 }),
		mapOf(n, func(i int) any {
			return []any{fmt.Sprint(i), i, float64(i) + 0.5, i%2 == 0, nil, time.Unix(int64(i), 0)}[i%6]
		}),
	} {
		check(c, v)
	}
}

func gen(c *mc.Ctx, depth, width int) any {
	kinds := 2
	if depth > 0 {
		kinds = 6
	}
	switch c.Choose(kinds) {
	case 1:
		return codec(300)
	case 2:
		out := []any{}
		for n := c.Choose(width + 1); n > 0; n-- {
			out = append(out, gen(c, depth-1, width))
		}
		return out
	case 3:
		out := map[string]any{}
		for n := c.Choose(width + 1); n > 0; n-- {
			out[fmt.Sprint(n)] = gen(c, depth-1, width)
		}
		return out
	case 4:
		out := map[any]any{}
		for n := c.Choose(width + 1); n > 0; n-- {
			out[[]any{"a", 1, nil}[n%3]] = gen(c, depth-1, width)
		}
		return out
	case 5:
		return map[uint8]any{200: gen(c, depth-1, width)}
	}
	return mc.Pick(c, few)
}

var few = []any{nil, int64(-1), "s", []byte{1}}

func nested(depth, width int) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		v := gen(c, depth, width)
		c.Logf("%v", show(v))
		check(c, v)
	}
}

func one(c *mc.Ctx) {
	v := mc.Pick(c, scalars)
	check(c, v)
	// pairs: sizing and encoding stay aligned
	for _, w := range scalars {
		check(c, []any{v, w, v})
		check(c, map[string]any{"x": v, "y": w})
		check(c, []any{map[any]any{"k": []any{v}}, w})
	}
}

type opaque struct{ x int }

// refused: what cannot be represented is reported, at any depth.
func refused(c *mc.Ctx) {
	s := "x"
	bad := []any{opaque{1}, &opaque{1}, &s, make(chan int), func() {}, []opaque{{1}}, map[string]opaque{"a": {1}}, complex(1, 2), struct{}{}, codec(-1)}
	i := c.Choose(len(bad))
	v := bad[i]
	for depth := 0; depth < 4; depth++ {
		c.Step()
		b, err := msgpack.AnyToBytes(v)
		if err == nil {
			c.Failf("%T at depth %d: encoded as % x without an error", bad[i], depth, clip(b))
		}
		switch c.Choose(3) {
		case 0:
			v = []any{1, v, 2}
		case 1:
			v = map[string]any{"k": v}
		case 2:
			v = map[any]any{"k": v, 2: 3}
		}
	}
	c.State(i)
}

func main() {
	d := mc.Bound(2, 3)
	mc.Main(mc.Config{
		ID:     "C17",
		Rule:   "exhaustive enumeration of dynamically typed values; encodings checked against an independent decoder, read back, and encoded again",
		Bounds: fmt.Sprintf("31 scalars alone, in pairs and nested; 27 container types x 9 size classes up to 65536; all nested values of depth %d and width 2 over 4 leaves and 5 container kinds; 10 unrepresentable values at 4 depths", d),
		Scenarios: []mc.Scenario{
			{Name: "scalars", Body: one},
			{Name: "containers", Body: shapes},
			{Name: "nested", Body: nested(2, 2)},
			{Name: "nested narrow", Body: nested(mc.Bound(3, 4), 1)},
			{Name: "unrepresentable", Body: refused},
		},
	})
}
