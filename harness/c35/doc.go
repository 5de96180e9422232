package main

import (
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"

	"github.com/nanobus/iota/go/zzverif/mc"
	"github.com/nanobus/iota/go/zzverif/mp"
)

// doc is a JSON document.
type doc struct {
	lit  string // null, true, false or a number as it is written
	str  *string
	arr  []doc
	keys []string // of an object with the values arr
	obj  bool
}

func text(s string) doc { return doc{str: &s} }

func long(n int) doc { return text(strings.Repeat("é", n/2) + strings.Repeat("x", n%2)) }

var scalars = func() (ds []doc) {
	for _, l := range strings.Fields("null true false 0 1 -1 5 127 128 255 256 -32 -33 -128 -129 32767 32768 65535 65536 -32768 -32769 2147483648 4294967295 4294967296 -2147483648 -2147483649 9007199254740993 9223372036854775807 -9223372036854775808 18446744073709551615 1.5 -0.25 1e3 2.0 1e300 0.1") {
		ds = append(ds, doc{lit: l})
	}
	for _, s := range []string{"", "a", "é", "😀", "\x00", "\"\\/\n", "<&>", "\u2028", "1", "null"} {
		ds = append(ds, text(s))
	}
	for _, n := range []int{31, 32, 255, 256, 10000} {
		ds = append(ds, long(n))
	}
	return append(ds, doc{arr: []doc{}}, doc{obj: true})
}()

var few = []doc{{lit: "null"}, {lit: "7"}, {lit: "-7.5"}, text("z"), {arr: []doc{}}, {obj: true}, {arr: []doc{{lit: "1"}, {lit: "2"}}}, {obj: true, keys: []string{"k"}, arr: []doc{{lit: "true"}}}}

// pick chooses a document.
func pick(c *mc.Ctx) doc {
	switch c.Choose(5) {
	case 0:
		return mc.Pick(c, scalars)
	case 1:
		return doc{arr: []doc{mc.Pick(c, few), mc.Pick(c, scalars)}}
	case 2:
		return doc{obj: true, keys: []string{mc.Pick(c, []string{"a", "", "é"}), "b"}, arr: []doc{mc.Pick(c, few), mc.Pick(c, scalars)}}
	case 3: // long ones
		n := mc.Pick(c, []int{15, 16, 31, 32, 300})
		d := doc{obj: c.Bool()}
		for i := 0; i < n; i++ {
			d.arr = append(d.arr, doc{lit: fmt.Sprint(i)})
			if d.obj {
				d.keys = append(d.keys, fmt.Sprintf("k%d", i))
			}
		}
		return d
	default: // deep ones
		d := mc.Pick(c, few)
		for n := 1 + c.Choose(4); n > 0; n-- {
			if c.Bool() {
				d = doc{arr: []doc{d}}
			} else {
				d = doc{obj: true, keys: []string{"x", "y"}, arr: []doc{d, {lit: "0"}}}
			}
		}
		return d
	}
}

// write writes the document with this between tokens.
func (d doc) write(b *strings.Builder, space string, esc bool) {
	b.WriteString(space)
	switch {
	case d.lit != "":
		b.WriteString(d.lit)
	case d.str != nil:
		quote(b, *d.str, esc)
	case d.obj:
		b.WriteString("{")
		for i, v := range d.arr {
			if i > 0 {
				b.WriteString(",")
			}
			b.WriteString(space)
			quote(b, d.keys[i], esc)
			b.WriteString(space + ":")
			v.write(b, space, esc)
		}
		b.WriteString(space + "}")
	default:
		b.WriteString("[")
		for i, v := range d.arr {
			if i > 0 {
				b.WriteString(",")
			}
			v.write(b, space, esc)
		}
		b.WriteString(space + "]")
	}
	b.WriteString(space)
}

func quote(b *strings.Builder, s string, esc bool) {
	b.WriteByte('"')
	for _, r := range s {
		switch {
		case r == '"' || r == '\\':
			b.WriteString("\\" + string(r))
		case r < 32 || esc && r < 0x10000:
			fmt.Fprintf(b, "\\u%04x", r)
		case esc:
			fmt.Fprintf(b, "\\u%04x\\u%04X", 0xd800+(r-0x10000)>>10, 0xdc00+(r-0x10000)&0x3ff)
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte('"')
}

func (d doc) String() string {
	var b strings.Builder
	d.write(&b, "", false)
	if b.Len() > 200 {
		return b.String()[:200] + "..."
	}
	return b.String()
}

// integer is the value of a number written as one.
func (d doc) integer() *big.Int {
	if i, ok := new(big.Int).SetString(d.lit, 10); ok {
		return i
	}
	return nil
}

// is tells whether v is what d means.
func (d doc) is(v mp.Value) bool {
	switch {
	case d.lit == "null":
		return v.Kind == mp.Nil
	case d.lit == "true" || d.lit == "false":
		return v.Kind == mp.Bool && v.B == (d.lit == "true")
	case d.lit != "":
		if i := d.integer(); i != nil {
			return v.Kind == mp.Int && v.I.Cmp(i) == 0
		}
		f, _ := strconv.ParseFloat(d.lit, 64)
		return v.Kind == mp.F64 && v.Bits == math.Float64bits(f)
	case d.str != nil:
		return v.Kind == mp.Str && string(v.S) == *d.str
	case d.obj:
		if v.Kind != mp.Map || len(v.Elems) != 2*len(d.arr) {
			return false
		}
		for i, k := range d.keys {
			found := false
			for j := 0; j < len(v.Elems); j += 2 {
				if v.Elems[j].Kind == mp.Str && string(v.Elems[j].S) == k && d.arr[i].is(v.Elems[j+1]) {
					found = true
				}
			}
			if !found {
				return false
			}
		}
		return true
	}
	if v.Kind != mp.Arr || len(v.Elems) != len(d.arr) {
		return false
	}
	for i := range d.arr {
		if !d.arr[i].is(v.Elems[i]) {
			return false
		}
	}
	return true
}

// printed tells whether x, decoded from what was printed, is what d means.
func (d doc) printed(x any, bin bool) bool {
	switch {
	case d.lit == "null":
		return x == nil
	case d.lit == "true" || d.lit == "false":
		b, ok := x.(bool)
		return ok && b == (d.lit == "true")
	case d.lit != "":
		n, ok := x.(json.Number)
		if !ok {
			return false
		}
		if i := d.integer(); i != nil {
			return n.String() == i.String()
		}
		f, _ := strconv.ParseFloat(d.lit, 64)
		g, err := n.Float64()
		return err == nil && f == g
	case d.str != nil:
		s, ok := x.(string)
		if bin {
			return ok && s == base64.StdEncoding.EncodeToString([]byte(*d.str))
		}
		return ok && s == *d.str
	case d.obj:
		m, ok := x.(map[string]any)
		if !ok || len(m) != len(d.arr) {
			return false
		}
		for i, k := range d.keys {
			if v, ok := m[k]; !ok || !d.arr[i].printed(v, bin) {
				return false
			}
		}
		return true
	}
	a, ok := x.([]any)
	if !ok || len(a) != len(d.arr) {
		return false
	}
	for i := range d.arr {
		if !d.arr[i].printed(a[i], bin) {
			return false
		}
	}
	return true
}

// pack writes d as MessagePack: as short as can be, or as long.
func (d doc) pack(wide, bin bool) []byte {
	be := binary.BigEndian
	size := func(fix, b8, b16, b32 byte, fixMax, n int) []byte {
		switch {
		case wide || n > 65535:
			return be.AppendUint32([]byte{b32}, uint32(n))
		case n <= fixMax:
			return []byte{fix | byte(n)}
		case b8 != 0 && n < 256:
			return []byte{b8, byte(n)}
		default:
			return be.AppendUint16([]byte{b16}, uint16(n))
		}
	}
	switch {
	case d.lit == "null":
		return []byte{0xc0}
	case d.lit == "true":
		return []byte{0xc3}
	case d.lit == "false":
		return []byte{0xc2}
	case d.lit != "":
		i := d.integer()
		switch {
		case i == nil:
			f, _ := strconv.ParseFloat(d.lit, 64)
			if !wide && float64(float32(f)) == f {
				return be.AppendUint32([]byte{0xca}, math.Float32bits(float32(f)))
			}
			return be.AppendUint64([]byte{0xcb}, math.Float64bits(f))
		case i.Sign() < 0:
			n := i.Int64()
			switch {
			case wide || n < math.MinInt32:
				return be.AppendUint64([]byte{0xd3}, uint64(n))
			case n >= -32:
				return []byte{byte(n)}
			case n >= math.MinInt8:
				return []byte{0xd0, byte(n)}
			case n >= math.MinInt16:
				return be.AppendUint16([]byte{0xd1}, uint16(n))
			default:
				return be.AppendUint32([]byte{0xd2}, uint32(n))
			}
		}
		n := i.Uint64()
		switch {
		case wide && n <= math.MaxInt64:
			return be.AppendUint64([]byte{0xd3}, n)
		case n < 128:
			return []byte{byte(n)}
		case n < 256:
			return []byte{0xcc, byte(n)}
		case n < 65536:
			return be.AppendUint16([]byte{0xcd}, uint16(n))
		case n <= math.MaxUint32:
			return be.AppendUint32([]byte{0xce}, uint32(n))
		}
		return be.AppendUint64([]byte{0xcf}, n)
	case d.str != nil && bin:
		n := len(*d.str)
		h := []byte{0xc4, byte(n)}
		if n > 255 || wide {
			h = be.AppendUint32([]byte{0xc6}, uint32(n))
		}
		return append(h, *d.str...)
	case d.str != nil:
		return append(size(0xa0, 0xd9, 0xda, 0xdb, 31, len(*d.str)), *d.str...)
	case d.obj:
		b := size(0x80, 0, 0xde, 0xdf, 15, len(d.arr))
		for i, v := range d.arr {
			b = append(append(b, text(d.keys[i]).pack(wide, false)...), v.pack(wide, bin)...)
		}
		return b
	}
	b := size(0x90, 0, 0xdc, 0xdd, 15, len(d.arr))
	for _, v := range d.arr {
		b = append(b, v.pack(wide, bin)...)
	}
	return b
}

// outputs tells what is wrong with what was printed for d.
func outputs(out string, d doc, pretty, bin bool) string {
	dec := json.NewDecoder(strings.NewReader(out))
	dec.UseNumber()
	var x any
	if err := dec.Decode(&x); err != nil {
		return fmt.Sprintf("printed %.200q: %v", out, err)
	}
	if !strings.HasSuffix(out, "\n") || strings.TrimRight(out[dec.InputOffset():], "\n") != "" {
		return fmt.Sprintf("printed %.200q", out)
	}
	if !d.printed(x, bin) {
		return fmt.Sprintf("printed %.200q", out)
	}
	var compact, want bytes.Buffer
	json.Compact(&compact, []byte(out))
	if pretty {
		json.Indent(&want, compact.Bytes(), "", "  ")
	} else {
		want = compact
	}
	if out != want.String()+"\n" {
		return fmt.Sprintf("printed %.200q, indented wrongly", out)
	}
	return ""
}
