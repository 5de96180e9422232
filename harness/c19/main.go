// C19: operation tables.
package main

import (
	"encoding/binary"
	"fmt"
	"runtime"
	"strings"

	"github.com/nanobus/iota/go/operations"
	"github.com/nanobus/iota/go/zzverif/mc"
)

// render is an independent rendering of the table layout; reserved holds the
// reserved bytes of each entry.
func render(t operations.Table, reserved [][]byte) []byte {
	b := []byte("\x00wrs\x00\x01")
	b = binary.BigEndian.AppendUint32(b, uint32(len(t)))
	for i, o := range t {
		b = append(b, byte(o.Type), byte(o.Direction))
		b = binary.BigEndian.AppendUint32(b, o.Index)
		b = binary.BigEndian.AppendUint16(b, uint16(len(o.Namespace)))
		b = append(b, o.Namespace...)
		b = binary.BigEndian.AppendUint16(b, uint16(len(o.Operation)))
		b = append(b, o.Operation...)
		var r []byte
		if i < len(reserved) {
			r = reserved[i]
		}
		b = binary.BigEndian.AppendUint16(b, uint16(len(r)))
		b = append(b, r...)
	}
	return b
}

// parse is the independent reader. ok tells whether b starts with a whole table.
func parse(b []byte) (t operations.Table, rest int, ok bool) {
	pos := 0
	need := func(n int) []byte {
		if pos+n > len(b) {
			return nil
		}
		r := b[pos : pos+n]
		pos += n
		return r
	}
	h := need(10)
	if h == nil || string(h[:6]) != "\x00wrs\x00\x01" {
		return nil, 0, false
	}
	n := binary.BigEndian.Uint32(h[6:])
	for i := uint32(0); i < n; i++ {
		e := need(8)
		if e == nil {
			return nil, 0, false
		}
		o := operations.Operation{Type: operations.RequestType(e[0]), Direction: operations.Direction(e[1]), Index: binary.BigEndian.Uint32(e[2:])}
		s := need(int(binary.BigEndian.Uint16(e[6:])))
		l := need(2)
		if s == nil || l == nil {
			return nil, 0, false
		}
		o.Namespace = string(s)
		if s = need(int(binary.BigEndian.Uint16(l))); s == nil {
			return nil, 0, false
		}
		o.Operation = string(s)
		if l = need(2); l == nil {
			return nil, 0, false
		}
		if need(int(binary.BigEndian.Uint16(l))) == nil {
			return nil, 0, false
		}
		t = append(t, o)
	}
	return t, len(b) - pos, true
}

func same(a, b operations.Table) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// read decodes b, exactly sized, and judges the result.
func read(c *mc.Ctx, b []byte) {
	c.Step()
	b = append([]byte(nil), b...)
	b = b[:len(b):len(b)]
	show := fmt.Sprintf("% x", b[:min(len(b), 48)])
	want, rest, ok := parse(b)
	keep := append([]byte(nil), b...)
	var got operations.Table
	var err error
	func() {
		defer func() {
			if r := recover(); r != nil {
				c.Failf("reading %d bytes %s panics: %v", len(b), show, r)
			}
		}()
		got, err = operations.FromBytes(b)
	}()
	switch {
	case !ok && err == nil:
		c.Failf("%d bytes %s are no table but read as %v", len(b), show, clip(got))
	case ok && rest == 0 && err != nil:
		c.Failf("%d bytes %s are a table but are refused: %v", len(b), show, err)
	case ok && err == nil && !same(got, want):
		c.Failf("%d bytes %s read as %v, want %v", len(b), show, clip(got), clip(want))
	case err != nil && len(got) != 0:
		c.Failf("%d bytes %s: an error and a table of %d operations", len(b), show, len(got))
	}
	if string(keep) != string(b) {
		c.Failf("reading modified its input %s", show)
	}
	// what was read must not change when the buffer is used again
	for i := range b {
		b[i] = 0xee
	}
	if ok && err == nil && !same(got, want) {
		c.Failf("the operations read from %s change when the buffer is reused", show)
	}
	c.State(ok, len(got), rest > 0)
}

func clip(t operations.Table) string {
	s := fmt.Sprint(t)
	if len(s) > 120 {
		s = s[:120] + "..."
	}
	return s
}

var names = []string{"", "a", "greeting.v1", "ü\x00/", strings.Repeat("n", 127), strings.Repeat("o", 128), strings.Repeat("n", 255), strings.Repeat("o", 256), strings.Repeat("n", 32767), strings.Repeat("p", 32768), strings.Repeat("x", 65534), strings.Repeat("y", 65535)}
var indexes = []uint32{0, 1, 255, 256, 65535, 65536, 1 << 24, 1<<31 - 1, 1 << 31, 1<<32 - 1}

func write(c *mc.Ctx, t operations.Table) {
	c.Step()
	before := append(operations.Table(nil), t...)
	got := t.ToBytes()
	want := render(t, nil)
	if string(got) != string(want) {
		c.Failf("table %v is written as %d bytes % x, want %d bytes % x", clip(t), len(got), got[:min(len(got), 64)], len(want), want[:min(len(want), 64)])
	}
	if !same(before, t) {
		c.Failf("writing changed the table %v", clip(before))
	}
	back, err := operations.FromBytes(got)
	if err != nil || !same(back, t) {
		c.Failf("table %v comes back as %v, %v", clip(t), clip(back), err)
	}
	c.State("w", len(t), len(got))
}

func one(c *mc.Ctx) {
	o := operations.Operation{
		Type: operations.RequestType(c.Choose(6)), Direction: operations.Direction(c.Choose(4)),
		Index: mc.Pick(c, indexes), Namespace: mc.Pick(c, names),
	}
	for _, n := range names {
		o.Operation = n
		write(c, operations.Table{o})
		if len(o.Namespace) < 300 {
			write(c, operations.Table{o, {Type: 4, Direction: 2, Index: 7, Namespace: "tail", Operation: "op"}})
		}
	}
}

func tables(c *mc.Ctx) {
	n := c.Choose(mc.Bound(4, 5))
	var t operations.Table
	for i := 0; i < n; i++ {
		t = append(t, mc.Pick(c, []operations.Operation{
			{Type: 1, Direction: 1, Index: 0, Namespace: "a", Operation: "b"},
			{Type: 2, Direction: 1, Index: 1 << 30, Namespace: "", Operation: ""},
			{Type: 3, Direction: 2, Index: 0, Namespace: "ab", Operation: ""},
			{Type: 4, Direction: 2, Index: 2, Namespace: "", Operation: "long" + strings.Repeat("g", 300)},
			{Type: 1, Direction: 2, Index: 0, Namespace: "a", Operation: "b"},
		}))
	}
	write(c, t)
	full := render(t, nil)
	for i := 0; i <= len(full); i++ {
		read(c, full[:i])
	}
	for _, extra := range []string{"\x00", "\x01\x01", strings.Repeat("\x00", 12), strings.Repeat("\xff", 40)} {
		read(c, append(append([]byte(nil), full...), extra...))
	}
	// one byte changed
	if len(full) < 100 {
		for i := range full {
			for _, v := range []byte{0, 1, 2, 3, 0x7f, 0x80, 0xff} {
				b := append([]byte(nil), full...)
				b[i] = v
				read(c, b)
			}
		}
	}
}

func large(c *mc.Ctx) {
	n := mc.Pick(c, []int{255, 256, 257, 65535, 65536, 65537})
	t := make(operations.Table, n)
	for i := range t {
		t[i] = operations.Operation{Type: operations.RequestType(i%4 + 1), Direction: operations.Direction(i%2 + 1), Index: uint32(i), Namespace: "n", Operation: fmt.Sprint(i % 1000)}
	}
	write(c, t)
}

func reserved(c *mc.Ctx) {
	lens := []int{0, 1, 2, 3, 127, 128, 255, 256, 32767, 32768, 65533, 65534, 65535}
	r := [][]byte{make([]byte, mc.Pick(c, lens)), make([]byte, mc.Pick(c, lens))}
	for _, x := range r {
		for i := range x {
			x[i] = byte(i)
		}
	}
	t := operations.Table{
		{Type: 1, Direction: 1, Index: 0, Namespace: "a", Operation: "b"},
		{Type: 2, Direction: 2, Index: 1, Namespace: "cc", Operation: "d"},
		{Type: 3, Direction: 1, Index: 9, Namespace: "", Operation: "e"},
	}
	b := render(t, r)
	read(c, b)
	for _, cut := range []int{1, 2, 3, 5, 12, 15} {
		read(c, b[:len(b)-cut])
	}
	for _, at := range []int{20, 21, 22, 23, 24, 25, 26} {
		read(c, b[:at])
	}
}

// hostile enumerates everything that can follow a good header.
func hostile(c *mc.Ctx) {
	head := mc.Pick(c, []string{"\x00wrs", "\x00wrS", "\x01wrs", "\x00asm"})
	ver := mc.Pick(c, []uint16{1, 0, 2, 256, 0xffff})
	num := mc.Pick(c, []uint32{0, 1, 2, 3, 1 << 16, 1 << 24, 1<<31 - 1, 1 << 31, 1<<32 - 1, 357913942})
	b := binary.BigEndian.AppendUint16([]byte(head), ver)
	b = binary.BigEndian.AppendUint32(b, num)
	var m0, m1 runtime.MemStats
	runtime.ReadMemStats(&m0)
	for i := 0; i <= len(b); i++ {
		read(c, b[:i])
	}
	pool := []uint16{0, 1, 2, 3, 9, 12, 255, 0x7fff, 0x8000, 0xfffe, 0xffff}
	for _, ns := range pool {
		for _, op := range pool {
			for _, rs := range pool {
				e := append([]byte(nil), b...)
				e = append(e, 1, 1, 0, 0, 0, 0)
				e = binary.BigEndian.AppendUint16(e, ns)
				e = append(e, "abc"[:min(3, int(ns))]...)
				e = binary.BigEndian.AppendUint16(e, op)
				e = append(e, "xyz"[:min(3, int(op))]...)
				e = binary.BigEndian.AppendUint16(e, rs)
				e = append(e, "rrr"[:min(3, int(rs))]...)
				read(c, e)
			}
		}
	}
	runtime.ReadMemStats(&m1)
	if d := m1.TotalAlloc - m0.TotalAlloc; d > 64<<20 {
		c.Failf("reading 1400 tables of at most 40 bytes that claim %d operations allocates %d MiB", num, d>>20)
	}
}

// tails enumerates all short byte strings after a header announcing n operations.
func tails(c *mc.Ctx) {
	n := c.Choose(4)
	b := binary.BigEndian.AppendUint32([]byte("\x00wrs\x00\x01"), uint32(n))
	alpha := []byte{0, 1, 2, 0xff}
	b = append(b, 1, 2, 0, 0, 0)
	l := c.Choose(mc.Bound(10, 12))
	idx := make([]int, l)
	k := min(l, 3)
	for i := 0; i < k; i++ {
		idx[i] = c.Choose(len(alpha))
	}
	buf := append(b, make([]byte, l)...)
	for {
		for i, v := range idx {
			buf[len(b)+i] = alpha[v]
		}
		read(c, buf)
		i := k
		for ; i < l; i++ {
			if idx[i]++; idx[i] < len(alpha) {
				break
			}
			idx[i] = 0
		}
		if i >= l {
			return
		}
	}
}

func main() {
	mc.Main(mc.Config{
		ID:     "C19",
		Rule:   "exhaustive enumeration of operation tables and of damaged tables, judged by an independent writer and reader of the layout",
		Bounds: "6 types x 4 directions x 10 indexes x 12x12 name lengths to 65535; tables of up to 3 (4) entries from 5, every truncation, every byte replaced; tables to 65537 entries; reserved lengths to 65535; every tail of up to 9 (11) bytes over 4 values",
		Scenarios: []mc.Scenario{
			{Name: "single operations", Body: one},
			{Name: "tables", Body: tables},
			{Name: "large tables", Body: large},
			{Name: "reserved bytes", Body: reserved},
			{Name: "hostile counts", Body: hostile},
			{Name: "short tails", Body: tails},
		},
		Assumptions: []string{"names of at most 65535 bytes, as the format requires; bytes after a whole table may be accepted or refused"},
	})
}
