// Package mp is an independent MessagePack decoder, written from the format
// specification, used as the oracle.
package mp

import (
	"encoding/binary"
	"fmt"
	"math"
	"math/big"
	"time"
)

type Kind int

const (
	Nil Kind = iota
	Bool
	Int
	F32
	F64
	Str
	Bin
	Arr
	Map
	Ext
)

func (k Kind) String() string {
	return [...]string{"nil", "bool", "int", "float32", "float64", "str", "bin", "array", "map", "ext"}[k]
}

// Value is one decoded value; the elements of a map alternate keys and values.
type Value struct {
	Kind  Kind
	B     bool
	I     *big.Int
	F     float64
	Bits  uint64 // raw float bits
	S     []byte // str, bin, ext body
	Code  int8
	Elems []Value
}

// Decode reads one value and the number of bytes it takes; ok is false if b
// does not start with a complete well-formed value.
func Decode(b []byte) (v Value, n int, ok bool) { return decode(b, 0) }

func decode(b []byte, depth int) (v Value, n int, ok bool) {
	if len(b) == 0 || depth > 200 {
		return
	}
	c := b[0]
	num := func(at, w int) (uint64, bool) {
		if len(b) < at+w {
			return 0, false
		}
		var x uint64
		for _, y := range b[at : at+w] {
			x = x<<8 | uint64(y)
		}
		return x, true
	}
	raw := func(k Kind, at int, l uint64) (Value, int, bool) {
		if uint64(len(b)) < uint64(at)+l {
			return Value{}, 0, false
		}
		return Value{Kind: k, S: b[at : at+int(l)]}, at + int(l), true
	}
	many := func(k Kind, at int, l uint64) (Value, int, bool) {
		if k == Map {
			l *= 2
		}
		out := Value{Kind: k}
		for ; l > 0; l-- {
			e, m, ok := decode(b[at:], depth+1)
			if !ok {
				return Value{}, 0, false
			}
			out.Elems = append(out.Elems, e)
			at += m
		}
		return out, at, true
	}
	ext := func(at int, l uint64) (Value, int, bool) {
		if uint64(len(b)) < uint64(at)+1+l {
			return Value{}, 0, false
		}
		return Value{Kind: Ext, Code: int8(b[at]), S: b[at+1 : at+1+int(l)]}, at + 1 + int(l), true
	}
	sint := func(x int64, n int) (Value, int, bool) { return Value{Kind: Int, I: big.NewInt(x)}, n, true }
	uintv := func(x uint64, n int) (Value, int, bool) {
		return Value{Kind: Int, I: new(big.Int).SetUint64(x)}, n, true
	}
	switch {
	case c < 0x80:
		return sint(int64(c), 1)
	case c >= 0xe0:
		return sint(int64(int8(c)), 1)
	case c < 0x90:
		return many(Map, 1, uint64(c&15))
	case c < 0xa0:
		return many(Arr, 1, uint64(c&15))
	case c < 0xc0:
		return raw(Str, 1, uint64(c&31))
	}
	switch c {
	case 0xc0:
		return Value{Kind: Nil}, 1, true
	case 0xc2, 0xc3:
		return Value{Kind: Bool, B: c == 0xc3}, 1, true
	case 0xc4, 0xc5, 0xc6:
		w := 1 << (c - 0xc4)
		if l, ok := num(1, w); ok {
			return raw(Bin, 1+w, l)
		}
	case 0xc7, 0xc8, 0xc9:
		w := 1 << (c - 0xc7)
		if l, ok := num(1, w); ok {
			return ext(1+w, l)
		}
	case 0xca:
		if x, ok := num(1, 4); ok {
			return Value{Kind: F32, F: float64(math.Float32frombits(uint32(x))), Bits: x}, 5, true
		}
	case 0xcb:
		if x, ok := num(1, 8); ok {
			return Value{Kind: F64, F: math.Float64frombits(x), Bits: x}, 9, true
		}
	case 0xcc, 0xcd, 0xce, 0xcf:
		w := 1 << (c - 0xcc)
		if x, ok := num(1, w); ok {
			return uintv(x, 1+w)
		}
	case 0xd0, 0xd1, 0xd2, 0xd3:
		w := 1 << (c - 0xd0)
		if x, ok := num(1, w); ok {
			sh := uint(64 - 8*w)
			return sint(int64(x<<sh)>>sh, 1+w)
		}
	case 0xd4, 0xd5, 0xd6, 0xd7, 0xd8:
		return ext(1, 1<<(c-0xd4))
	case 0xd9, 0xda, 0xdb:
		w := 1 << (c - 0xd9)
		if l, ok := num(1, w); ok {
			return raw(Str, 1+w, l)
		}
	case 0xdc, 0xdd:
		w := 2 << (c - 0xdc)
		if l, ok := num(1, w); ok {
			return many(Arr, 1+w, l)
		}
	case 0xde, 0xdf:
		w := 2 << (c - 0xde)
		if l, ok := num(1, w); ok {
			return many(Map, 1+w, l)
		}
	}
	return Value{}, 0, false
}

// Time interprets an extension as a timestamp.
func (v Value) Time() (time.Time, bool) {
	if v.Kind != Ext || v.Code != -1 {
		return time.Time{}, false
	}
	switch len(v.S) {
	case 4:
		return time.Unix(int64(binary.BigEndian.Uint32(v.S)), 0), true
	case 8:
		x := binary.BigEndian.Uint64(v.S)
		return time.Unix(int64(x&(1<<34-1)), int64(x>>34)), true
	case 12:
		return time.Unix(int64(binary.BigEndian.Uint64(v.S[4:])), int64(binary.BigEndian.Uint32(v.S))), true
	}
	return time.Time{}, false
}

func (v Value) String() string {
	switch v.Kind {
	case Nil:
		return "nil"
	case Bool:
		return fmt.Sprint(v.B)
	case Int:
		return v.I.String()
	case F32, F64:
		return fmt.Sprintf("%v:%x", v.Kind, v.Bits)
	case Str:
		if len(v.S) > 20 {
			return fmt.Sprintf("str[%d]", len(v.S))
		}
		return fmt.Sprintf("%q", v.S)
	case Bin:
		if len(v.S) > 20 {
			return fmt.Sprintf("bin[%d]", len(v.S))
		}
		return fmt.Sprintf("bin %x", v.S)
	case Ext:
		return fmt.Sprintf("ext %d %x", v.Code, v.S)
	}
	if len(v.Elems) > 20 {
		return fmt.Sprintf("%v[%d]", v.Kind, len(v.Elems))
	}
	return fmt.Sprintf("%v%v", v.Kind, v.Elems)
}

// Same compares a value of the real decoder with an oracle value. Integer
// widths are not distinguished.
func Same(got any, v Value) bool {
	switch x := got.(type) {
	case nil:
		return v.Kind == Nil
	case bool:
		return v.Kind == Bool && x == v.B
	case int8:
		return isInt(v, int64(x))
	case int16:
		return isInt(v, int64(x))
	case int32:
		return isInt(v, int64(x))
	case int64:
		return isInt(v, x)
	case int:
		return isInt(v, int64(x))
	case uint8:
		return isUint(v, uint64(x))
	case uint16:
		return isUint(v, uint64(x))
	case uint32:
		return isUint(v, uint64(x))
	case uint64:
		return isUint(v, x)
	case uint:
		return isUint(v, uint64(x))
	case float32:
		return v.Kind == F32 && uint64(math.Float32bits(x)) == v.Bits
	case float64:
		return v.Kind == F64 && math.Float64bits(x) == v.Bits
	case string:
		return v.Kind == Str && x == string(v.S)
	case []byte:
		return v.Kind == Bin && string(x) == string(v.S)
	case time.Time:
		t, ok := v.Time()
		return ok && t.Equal(x)
	case []any:
		if v.Kind != Arr || len(x) != len(v.Elems) {
			return false
		}
		for i := range x {
			if !Same(x[i], v.Elems[i]) {
				return false
			}
		}
		return true
	case map[any]any:
		if v.Kind != Map {
			return false
		}
		// last value of a repeated key wins; NaN keys are all different
		left := len(x)
		last := map[string]Value{}
		nan := 0
		for i := 0; i < len(v.Elems); i += 2 {
			if f := v.Elems[i]; (f.Kind == F32 || f.Kind == F64) && f.F != f.F {
				nan++
				continue
			}
			last[goKey(v.Elems[i])] = v.Elems[i+1]
		}
		for k, e := range x {
			kk, ok := keyOf(k)
			if !ok {
				nan--
				left--
				continue
			}
			w, found := last[kk]
			if !found || !Same(e, w) {
				return false
			}
			left--
		}
		return left == 0 && nan <= 0 && len(x) >= 1-boolInt(len(v.Elems) == 0)
	}
	return false
}

func boolInt(b bool) int {
	if b {
		return 1
	}
	return 0
}

func goKey(v Value) string {
	if v.Kind == F32 || v.Kind == F64 {
		return fmt.Sprint(v.Kind, v.F)
	}
	if t, ok := v.Time(); ok {
		return fmt.Sprint("t", t.UnixNano())
	}
	return v.Kind.String() + v.String()
}

func keyOf(k any) (string, bool) {
	switch x := k.(type) {
	case nil:
		return goKey(Value{Kind: Nil}), true
	case bool:
		return goKey(Value{Kind: Bool, B: x}), true
	case string:
		return goKey(Value{Kind: Str, S: []byte(x)}), true
	case float32:
		return goKey(Value{Kind: F32, F: float64(x)}), x == x
	case float64:
		return goKey(Value{Kind: F64, F: x}), x == x
	case time.Time:
		return fmt.Sprint("t", x.UnixNano()), true
	}
	return "int" + fmt.Sprint(k), true
}

func isInt(v Value, x int64) bool { return v.Kind == Int && v.I.IsInt64() && v.I.Int64() == x }
func isUint(v Value, x uint64) bool {
	return v.Kind == Int && v.I.IsUint64() && v.I.Uint64() == x
}

// Supported reports whether an any-reader is expected to represent v: time
// extensions only, map keys that can be compared.
func Supported(v Value) bool {
	switch v.Kind {
	case Ext:
		_, ok := v.Time()
		return ok
	case Arr:
		for _, e := range v.Elems {
			if !Supported(e) {
				return false
			}
		}
	case Map:
		for i, e := range v.Elems {
			if !Supported(e) {
				return false
			}
			if i%2 == 0 && (e.Kind == Arr || e.Kind == Map || e.Kind == Bin) {
				return false
			}
		}
	}
	return true
}
