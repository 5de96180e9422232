// C27: custom sections of WebAssembly modules.
package main

import (
	"fmt"
	"runtime"
	"strings"
	"unicode/utf8"

	"github.com/nanobus/iota/go/transport/wasmrs/customsections"
	"github.com/nanobus/iota/go/zzverif/mc"
)

const head = "\x00asm\x01\x00\x00\x00"

func leb(n uint32, pad int) (b []byte) {
	for {
		x := byte(n & 0x7f)
		n >>= 7
		if n == 0 && len(b)+1 >= pad {
			return append(b, x)
		}
		b = append(b, x|0x80)
	}
}

type cursor struct{ b []byte }

func (c *cursor) leb() (uint32, bool) {
	var v uint64
	for i := 0; i < 5; i++ {
		if len(c.b) == 0 {
			return 0, false
		}
		x := c.b[0]
		c.b = c.b[1:]
		v |= uint64(x&0x7f) << (7 * i)
		if x&0x80 == 0 {
			return uint32(v), v>>32 == 0
		}
	}
	return 0, false
}

func (c *cursor) take(n uint32) ([]byte, bool) {
	if uint64(n) > uint64(len(c.b)) {
		return nil, false
	}
	r := c.b[:n]
	c.b = c.b[n:]
	return r, true
}

// parse is an independent reader of a module's sections.
func parse(b []byte) (map[string][]byte, bool) {
	if !strings.HasPrefix(string(b), head) {
		return nil, false
	}
	c := &cursor{b[8:]}
	out := map[string][]byte{}
	for len(c.b) > 0 {
		id := c.b[0]
		c.b = c.b[1:]
		n, ok := c.leb()
		if !ok {
			return nil, false
		}
		body, ok := c.take(n)
		if !ok {
			return nil, false
		}
		if id != 0 {
			continue
		}
		s := &cursor{body}
		l, ok := s.leb()
		if !ok {
			return nil, false
		}
		name, ok := s.take(l)
		if !ok || !utf8.Valid(name) {
			return nil, false
		}
		out[string(name)] = s.b
	}
	return out, true
}

var wanted = [][]string{{"wasmrs"}, {"wasmrs", "name"}, {}, {""}, {"wasmrs", "wasmrs", "", "ü", "x"}, {"absent"}}

func check(c *mc.Ctx, b []byte) {
	c.Step()
	b = b[:len(b):len(b)]
	all, ok := parse(b)
	show := fmt.Sprintf("%d bytes % x", len(b), b[:min(len(b), 60)])
	for _, names := range wanted {
		var m0, m1 runtime.MemStats
		_ = m0
		_ = m1
		func() {
			defer func() {
				if r := recover(); r != nil {
					c.Failf("reading %q from %s panics: %v", names, show, r)
				}
			}()
			got, err := customsections.Read(b, names...)
			if !ok {
				if err == nil {
					c.Failf("%s is malformed but read without an error", show)
				}
				if len(got) != 0 {
					c.Failf("%s: an error and %d sections", show, len(got))
				}
				return
			}
			if err != nil {
				c.Failf("%s is refused: %v", show, err)
			}
			want := map[string][]byte{}
			for _, n := range names {
				if d, has := all[n]; has {
					want[n] = d
				}
			}
			if len(got) != len(want) {
				c.Failf("reading %q from %s gives %d sections, want %d", names, show, len(got), len(want))
			}
			for n, d := range want {
				s := got[n]
				if s == nil || s.Name != n || string(s.Data) != string(d) {
					c.Failf("reading %q from %s: section %q is %+v, want data % x", names, show, n, s, d[:min(len(d), 40)])
				}
			}
		}()
	}
	c.State(ok, len(all))
}

func section(id byte, body []byte, pad int) []byte {
	return append(append([]byte{id}, leb(uint32(len(body)), pad)...), body...)
}

func custom(name, data string, pad, pad2 int) []byte {
	return section(0, append(append(leb(uint32(len(name)), pad2), name...), data...), pad)
}

func modules(c *mc.Ctx) {
	n := c.Choose(mc.Bound(4, 5))
	var b []byte
	for i := 0; i < n; i++ {
		b = append(b, mc.Pick(c, [][]byte{
			custom("wasmrs", "", 0, 0),
			custom("wasmrs", "data\x00\xff", 0, 2),
			custom("name", "abc", 3, 0),
			custom("", "anonymous", 0, 0),
			custom("ü", "", 5, 5),
			section(1, nil, 0),
			section(10, []byte("\x00\x06wasmrs"), 2),
			custom("bad\xff", "x", 0, 0),
			custom("wasmrs", strings.Repeat("L", 200), 0, 0),
		})...)
	}
	b = append([]byte(head), b...)
	check(c, b)
	for i := range b {
		if i < 120 || i > len(b)-120 {
			check(c, b[:i])
		}
	}
	if len(b) < 60 {
		for i := range b {
			old := b[i]
			for _, v := range []byte{0, 1, 2, 5, 6, 7, 0x7f, 0x80, 0xff} {
				b[i] = v
				check(c, b)
			}
			b[i] = old
		}
	}
}

func sizes(c *mc.Ctx) {
	id := mc.Pick(c, []byte{0, 1, 12, 255})
	name := mc.Pick(c, []string{"wasmrs", "", "x"})
	big := []uint32{0, 1, 2, 6, 7, 8, 9, 127, 128, 16384, 1 << 20, 1 << 28, 1 << 31, 1<<32 - 2, 1<<32 - 1}
	var m0, m1 runtime.MemStats
	runtime.ReadMemStats(&m0)
	for _, ss := range big {
		for _, ns := range big {
			for _, extra := range []int{0, 1, 2, 10, 130} {
				b := append([]byte(head), id)
				b = append(b, leb(ss, 0)...)
				b = append(b, leb(ns, 0)...)
				b = append(b, name...)
				b = append(b, make([]byte, extra)...)
				check(c, b)
				check(c, append(b, custom("wasmrs", "tail", 0, 0)...))
			}
		}
	}
	runtime.ReadMemStats(&m1)
	if d := m1.TotalAlloc - m0.TotalAlloc; d > 256<<20 {
		c.Failf("reading 2250 modules of at most 200 bytes allocates %d MiB", d>>20)
	}
}

func lengths(c *mc.Ctx) {
	// lengths written in every number of bytes, and too many
	for _, enc := range [][]byte{{2}, {0x82, 0}, {0x82, 0x80, 0}, {0x82, 0x80, 0x80, 0}, {0x82, 0x80, 0x80, 0x80, 0}, {0x82, 0x80, 0x80, 0x80, 0x80, 0}, {0x82, 0x80, 0x80, 0x80, 0x10}, {0x82, 0x80, 0x80, 0x80, 0x80}, {0x82}, {0xff, 0xff, 0xff, 0xff, 0x0f}} {
		check(c, append(append([]byte(head), append([]byte{0}, enc...)...), 1, 'x'))
		check(c, append(append([]byte(head), append([]byte{7}, enc...)...), 1, 'x'))
		check(c, append(append([]byte(head), append([]byte{0, byte(len(enc) + 3)}, enc...)...), 'x', 'y', 'd'))
	}
	for _, n := range []int{0, 1, 126, 127, 128, 129, 16383, 16384, 65536, 1 << 21} {
		check(c, append([]byte(head), custom("wasmrs", strings.Repeat("d", n), 0, 0)...))
		check(c, append([]byte(head), custom(strings.Repeat("n", n), "d", 0, 0)...))
		check(c, append(append([]byte(head), section(3, make([]byte, n), 0)...), custom("wasmrs", "d", 0, 0)...))
	}
	for i := 0; i < 8; i++ {
		for v := 0; v < 256; v++ {
			b := append([]byte(head), custom("wasmrs", "d", 0, 0)...)
			b[i] = byte(v)
			check(c, b)
		}
	}
}

func tails(c *mc.Ctx) {
	alpha := []byte{0, 1, 2, 3, 'x', 0x80, 0xff}
	n := c.Choose(mc.Bound(7, 8))
	b := []byte(head)
	for i := 0; i < n; i++ {
		if i < 3 {
			b = append(b, mc.Pick(c, alpha))
		}
	}
	if n <= 3 {
		check(c, b)
		return
	}
	var rec func(b []byte, k int)
	rec = func(b []byte, k int) {
		if k == 0 {
			check(c, b)
			return
		}
		for _, v := range alpha {
			rec(append(b[:len(b):len(b)], v), k-1)
		}
	}
	rec(b, n-3)
}

func main() {
	mc.Main(mc.Config{
		ID:     "C27",
		Rule:   "exhaustive enumeration of modules and damaged modules, judged by an independent section reader, for six sets of wanted names",
		Bounds: "up to 3 (4) sections from 9, every truncation, every byte replaced by 9 values; 15x15 announced sizes x 5 real ones; every length encoding; every tail of up to 6 (7) bytes over 7 values",
		Scenarios: []mc.Scenario{
			{Name: "modules", Body: modules},
			{Name: "announced sizes", Body: sizes},
			{Name: "length encodings", Body: lengths},
			{Name: "short tails", Body: tails},
		},
		Assumptions: []string{"of several custom sections with one name the last is returned"},
	})
}
