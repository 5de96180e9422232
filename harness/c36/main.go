// C36: the Rust and the Go implementation speak the same wire format.
package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"os"
	"os/exec"
	"unicode/utf8"

	"github.com/nanobus/iota/go/operations"
	"github.com/nanobus/iota/go/zzverif/mc"
	"github.com/nanobus/iota/go/zzverif/wire"
)

// rust is the Rust crate behind a pipe.
var rust struct {
	in  io.WriteCloser
	out *bufio.Reader
}

func ask(c *mc.Ctx, req []byte) (status byte, body []byte) {
	c.Step()
	if rust.in == nil {
		cmd := exec.Command(os.Getenv("VERIF_RUST"))
		in, err := cmd.StdinPipe()
		out, err2 := cmd.StdoutPipe()
		if err != nil || err2 != nil || cmd.Start() != nil {
			panic("cannot start the Rust side")
		}
		rust.in, rust.out = in, bufio.NewReaderSize(out, 1<<20)
	}
	var n [4]byte
	binary.BigEndian.PutUint32(n[:], uint32(len(req)))
	// Large requests are written while nothing is being answered.
	if _, err := rust.in.Write(append(n[:], req...)); err != nil {
		c.Failf("the Rust side is gone: %v", err)
	}
	if _, err := io.ReadFull(rust.out, n[:]); err != nil {
		c.Failf("the Rust side ends without an answer to % x: %v", clip(req), err)
	}
	res := make([]byte, binary.BigEndian.Uint32(n[:]))
	if _, err := io.ReadFull(rust.out, res); err != nil {
		c.Failf("the Rust side ends within an answer: %v", err)
	}
	if res[0] == 'P' {
		c.Failf("the Rust side panics on %c % x: %s", req[0], clip(req[1:]), res[1:])
	}
	return res[0], res[1:]
}

func clip(b []byte) []byte {
	if len(b) > 64 {
		return b[:64]
	}
	return b
}

// cursor reads an answer.
type cursor []byte

func (r *cursor) n(n int) []byte { b := (*r)[:n]; *r = (*r)[n:]; return b }
func (r *cursor) u8() byte       { return r.n(1)[0] }
func (r *cursor) u32() uint32    { return binary.BigEndian.Uint32(r.n(4)) }
func (r *cursor) bytes() []byte  { return r.n(int(r.u32())) }

func (r *cursor) frame() wire.Frame {
	f := wire.Frame{Kind: wire.Kind(r.u8()), ID: r.u32()}
	fl := r.u8()
	f.Complete, f.Next, f.Follows = fl&1 != 0, fl&2 != 0, fl&4 != 0
	f.N, f.Code, f.Metadata, f.Data = r.u32(), r.u32(), r.bytes(), r.bytes()
	return plain(f)
}

// plain sets what a kind of frame does not carry to what the oracle says there.
func plain(f wire.Frame) wire.Frame {
	if f.Kind.IsRequest() {
		if f.Kind != wire.RequestChannel {
			f.Complete = true
		}
		if !f.Kind.HasN() {
			f.N = 1
		}
	}
	return f
}

// again is what the Rust side writes for a frame: it never announces that a
// request goes on in further frames.
func again(f wire.Frame) []byte {
	if f.Kind.IsRequest() {
		f.Follows = false
	}
	return wire.Encode(f)
}

// read gives bytes to the Rust side and compares with the oracle.
func read(c *mc.Ctx, b []byte) {
	want, ok := wire.Decode(b)
	if ok && want.Kind == wire.Error && !utf8.Valid(want.Data) {
		ok = false
	}
	st, res := ask(c, append([]byte{'d'}, b...))
	if !ok {
		if st != 'E' {
			c.Failf("the Rust side takes % x for a frame", clip(b))
		}
		return
	}
	if st != 'K' {
		c.Failf("the Rust side refuses %v: % x", want, clip(b))
	}
	r := cursor(res)
	got := r.frame()
	if got.Kind == wire.Payload {
		got.N = want.N
	}
	if !wire.Same(got, want) {
		c.Failf("% x is read as %v by the Rust side, want %v", clip(b), got, want)
	}
	if out := r.bytes(); !bytes.Equal(out, again(want)) {
		c.Failf("%v is written as % x by the Rust side, want % x", want, clip(out), clip(again(want)))
	}
	c.State(want.Kind, len(b))
}

// write lets the Rust side write a frame and has the Go side read it.
func write(c *mc.Ctx, f wire.Frame, hasMd, hasData bool) {
	if f.Kind == wire.Error && !utf8.Valid(f.Data) {
		return
	}
	fl := 0
	for bit, on := range map[int]bool{6: f.Complete, 5: f.Next, 7: f.Follows} {
		if on {
			fl |= 1 << bit
		}
	}
	be := binary.BigEndian
	req := []byte{'e', byte(f.Kind)}
	req = be.AppendUint32(req, f.ID)
	req = be.AppendUint32(req, uint32(fl))
	req = be.AppendUint32(req, f.N)
	req = be.AppendUint32(req, f.Code)
	part := func(b []byte, has bool) {
		v := byte(0)
		if has {
			v = 1
		}
		req = append(req, v)
		req = be.AppendUint32(req, uint32(len(b)))
		req = append(req, b...)
	}
	part(f.Metadata, hasMd)
	part(f.Data, hasData)
	want := plain(f)
	if f.Kind == wire.RequestStream {
		want.N = 0 // it asks for nothing at first
	}
	if f.Kind.IsRequest() {
		want.Follows = false
	}
	st, res := ask(c, req)
	r := cursor(res)
	if st != 'K' {
		c.Failf("the Rust side does not write %v", f)
	}
	b := r.bytes()
	if !bytes.Equal(b, wire.Encode(want)) {
		c.Failf("the Rust side writes %v as % x, want % x", f, clip(b), clip(wire.Encode(want)))
	}
	x, err := wire.ImplDecode(append([]byte(nil), b...))
	if err != nil {
		c.Failf("the Go side refuses %v of the Rust side: %v", want, err)
	}
	if got := wire.FromImpl(x); !wire.Same(got, want) {
		c.Failf("the Go side reads %v of the Rust side as %v", want, got)
	}
}

var ids = []uint32{1, 2, 0xff, 0x100, 0x10000, 0x01020304, 0x7ffffffe, 0x7fffffff}
var ns = []uint32{0, 1, 255, 256, 0x01020304, 0x7fffffff, 0xffffffff}
var lens = []int{0, 1, 2, 3, 4, 8, 255, 256, 257, 65535, 65536, 65537}
var codes = []uint32{0, 1, 0x101, 0x201, 0x204, 0x12345678, 0xffffffff}

// text is valid UTF-8 of n bytes.
func text(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('a' + i%26)
	}
	if n >= 2 {
		copy(b[n-2:], "é")
	}
	return b
}

// both has each side read what the other writes.
func both(c *mc.Ctx, f wire.Frame) {
	b := wire.ImplEncode(wire.ToImpl(f))
	if !bytes.Equal(b, wire.Encode(f)) {
		c.Failf("the Go side writes %v as % x", f, clip(b))
	}
	read(c, b)
	for _, hasMd := range []bool{true, false} {
		for _, hasData := range []bool{true, false} {
			if hasMd || len(f.Metadata) == 0 {
				if hasData || len(f.Data) == 0 {
					write(c, f, hasMd, hasData)
				}
			}
		}
	}
}

// values enumerates frame values.
func values(c *mc.Ctx) {
	k := mc.Pick(c, wire.Kinds)
	f := wire.Frame{Kind: k, ID: mc.Pick(c, ids)}
	switch {
	case k == wire.RequestN:
		f.N = mc.Pick(c, ns)
	case k == wire.Cancel:
	case k == wire.Error:
		f.Code = mc.Pick(c, codes)
		n := mc.Pick(c, lens)
		f.Data = text(n)
		if n > 0 && c.Bool() {
			f.Data = wire.Bytes(n, 3)
		}
	default:
		f.Metadata = wire.Bytes(mc.Pick(c, lens), 1)
		f.Follows = c.Bool()
		f.Complete, f.N = true, 1
		if k == wire.Payload {
			f.Complete, f.Next, f.N = c.Bool(), c.Bool(), 0
		}
		if k == wire.RequestChannel {
			f.Complete = c.Bool()
		}
		if k.HasN() {
			f.N = mc.Pick(c, ns)
		}
		for _, n := range lens {
			f.Data = wire.Bytes(n, 2)
			both(c, f)
		}
		c.Logf("%v, %d data lengths", f, len(lens))
		return
	}
	c.Logf("%v", f)
	both(c, f)
}

var bodies = [][]byte{
	{}, {0}, {0, 0}, {0, 0, 0}, {0, 0, 1}, {0, 0, 1, 9}, {0, 0, 1, 9, 8}, {0, 0, 0, 7}, {0, 0, 0, 1, 0, 0}, {0, 0, 0, 1, 0, 0, 0},
	{1, 2, 3, 4, 0, 0, 2, 5}, {1, 2, 3, 4, 0, 0, 2, 5, 6}, {0xff, 0xff, 0xff, 0xff, 0, 0, 1, 1, 2, 3}, {0, 0, 2, 1, 2, 3, 4, 5},
	{0, 0, 3, 0, 0, 0, 1, 2}, {0xff, 0xff, 0xff, 1, 2}, {0, 0, 0, 0, 0xff, 0xff, 0xff, 1}, {0, 0, 0, 0, 'o', 'k', 0xff}, {0, 0, 0, 0, 0xc3, 0xa9},
}

// foreign are all frame kinds, known or not, with all flags.
func foreign(c *mc.Ctx) {
	kind := c.Choose(64)
	hi := c.Bool() // reserved top bit of the stream id
	body := mc.Pick(c, bodies)
	for fl := 0; fl < 1024; fl++ {
		t := kind<<10 | fl
		b := []byte{0, 0, 1, 5, byte(t >> 8), byte(t)}
		if hi {
			b[0] = 0x80
		}
		read(c, append(b, body...))
	}
	c.Logf("kind %d, 1024 flag patterns, body % x", kind, body)
}

// cut are frames cut short, and frames with a byte changed.
func cut(c *mc.Ctx) {
	k := mc.Pick(c, wire.Kinds)
	f := wire.Frame{Kind: k, ID: 0x01020304, N: 0x05060708, Code: 0x201, Complete: true}
	if k == wire.Error || k == wire.Payload || k.IsRequest() {
		f.Data = text(mc.Pick(c, []int{0, 1, 5}))
	}
	if k == wire.Payload || k.IsRequest() {
		f.Metadata = wire.Bytes(mc.Pick(c, []int{0, 1, 8}), 4)
	}
	b := wire.Encode(f)
	if c.Bool() {
		for n := range b {
			read(c, b[:n:n])
		}
		return
	}
	for i := range b {
		for v := 0; v < 256; v++ {
			d := append([]byte(nil), b...)
			d[i] = byte(v)
			read(c, d)
		}
	}
}

// streams are frames with their length in front, in buffers of any fill.
func streams(c *mc.Ctx) {
	n := mc.Pick(c, []int{0, 1, 2, 255, 256, 65535, 65536, 70000})
	b := append(wire.U24(n), wire.Bytes(n, 7)...)
	whole := len(b)
	switch more := c.Choose(3); more {
	case 1:
		b = append(b, 1, 2, 3, 4)
	case 2:
		b = b[:mc.Pick(c, []int{0, 1, 2, 3, whole / 2, whole - 1})]
		if len(b) >= whole {
			c.Skip()
		}
		if st, _ := ask(c, append([]byte{'r'}, b...)); st != 'E' {
			c.Failf("%d of %d bytes are taken for a frame", len(b), whole)
		}
		return
	}
	st, res := ask(c, append([]byte{'r'}, b...))
	r := cursor(res)
	if st != 'K' || !bytes.Equal(r.bytes(), b[3:whole]) {
		c.Failf("a frame of %d bytes is not read as it is", n)
	}
}

// indexes are operation indexes written as metadata, and metadata of any size.
func indexes(c *mc.Ctx) {
	v := uint32(c.Choose(256))
	for _, i := range []uint32{v, v << 8, v << 16, v << 24, v<<8 | 0x12, ^v} {
		st, res := ask(c, binary.BigEndian.AppendUint32([]byte{'m'}, i))
		r := cursor(res)
		md := r.bytes()
		want := append(binary.BigEndian.AppendUint32(nil, i), 0, 0, 0, 0)
		if st != 'K' || !bytes.Equal(md, want) {
			c.Failf("operation index %d becomes metadata % x", i, md)
		}
		for n := 0; n <= 12; n++ {
			b := append(append([]byte(nil), want...), 9, 9, 9, 9)[:n]
			st, res := ask(c, append([]byte{'M'}, b...))
			if (st == 'K') != (n >= 4) {
				c.Failf("%d bytes of metadata: answer %c", n, st)
			}
			if st == 'K' {
				if r := cursor(res); r.u32() != i {
					c.Failf("metadata % x is not operation index %d", b, i)
				}
			}
		}
	}
}

var names = []string{"", "a", "b", "ab", "é.世", "ns.v1", string(text(255)), string(text(256)), string(text(65535))}

// render is an independent rendering of an operation table.
func render(t operations.Table, reserved []byte) []byte {
	be := binary.BigEndian
	b := be.AppendUint32([]byte("\x00wrs\x00\x01"), uint32(len(t)))
	for _, o := range t {
		b = append(b, byte(o.Type), byte(o.Direction))
		b = be.AppendUint32(b, o.Index)
		b = be.AppendUint16(b, uint16(len(o.Namespace)))
		b = append(b, o.Namespace...)
		b = be.AppendUint16(b, uint16(len(o.Operation)))
		b = append(b, o.Operation...)
		b = be.AppendUint16(b, uint16(len(reserved)))
		b = append(b, reserved...)
	}
	return b
}

func same(a, b operations.Table) bool { return bytes.Equal(render(a, nil), render(b, nil)) }

// sorted puts exports before imports, as the Rust side writes them.
func sorted(t operations.Table) (s operations.Table) {
	for _, d := range []operations.Direction{1, 2} {
		for _, o := range t {
			if o.Direction == d {
				s = append(s, o)
			}
		}
	}
	return s
}

func queries(t operations.Table) (req []byte, want []byte) {
	be := binary.BigEndian
	n := 0
	for _, d := range []operations.Direction{1, 2} {
		for _, o := range append(t[:len(t):len(t)], operations.Operation{Namespace: "no", Operation: "such"}, operations.Operation{Namespace: "a", Operation: "b"}, operations.Operation{Namespace: "b", Operation: "a"}) {
			req = append(req, byte(d))
			for _, s := range []string{o.Namespace, o.Operation} {
				req = be.AppendUint32(req, uint32(len(s)))
				req = append(req, s...)
			}
			n++
			found := false
			for _, x := range t {
				if x.Direction == d && x.Namespace == o.Namespace && x.Operation == o.Operation {
					want = be.AppendUint32(append(want, 1), x.Index)
					found = true
					break
				}
			}
			if !found {
				want = append(want, 0, 0, 0, 0, 0)
			}
		}
	}
	return append(be.AppendUint32(nil, uint32(n)), req...), want
}

// exchange has each side read the table the other writes.
func exchange(c *mc.Ctx, t operations.Table, reserved []byte) {
	be := binary.BigEndian
	b := render(t, reserved)
	if len(reserved) == 0 {
		if b = t.ToBytes(); !bytes.Equal(b, render(t, nil)) {
			c.Failf("the Go side writes a table of %d operations in another way", len(t))
		}
	}
	q, want := queries(t)
	req := append(be.AppendUint32([]byte{'t'}, uint32(len(b))), b...)
	st, res := ask(c, append(req, q...))
	if st != 'K' {
		c.Failf("the Rust side refuses the table %v", brief(t))
	}
	r := cursor(res)
	out := r.bytes()
	if !bytes.Equal(r, want) {
		c.Failf("the Rust side finds % x in the table %v, want % x", []byte(r), brief(t), want)
	}
	if !bytes.Equal(out, render(sorted(t), nil)) {
		c.Failf("the table %v read by the Rust side is written in another way", brief(t))
	}
	got, err := operations.FromBytes(out)
	if err != nil || !same(got, sorted(t)) {
		c.Failf("the table %v of the Rust side is read as %v by the Go side: %v", brief(t), brief(got), err)
	}
	// built from parts
	req = be.AppendUint32([]byte{'w'}, uint32(len(t)))
	for _, o := range t {
		req = be.AppendUint32(append(req, byte(o.Direction), byte(o.Type)), o.Index)
		for _, s := range []string{o.Namespace, o.Operation} {
			req = be.AppendUint32(req, uint32(len(s)))
			req = append(req, s...)
		}
	}
	st, res = ask(c, append(req, q...))
	r = cursor(res)
	if st != 'K' || !bytes.Equal(r.bytes(), render(sorted(t), nil)) || !bytes.Equal(r, want) {
		c.Failf("the Rust side makes another table of %v", brief(t))
	}
	c.State(len(t), len(b))
}

func brief(t operations.Table) string {
	s := ""
	for _, o := range t {
		s += fmt.Sprintf("{%d %d %d %.20q %.20q}", o.Type, o.Direction, o.Index, o.Namespace, o.Operation)
	}
	return s
}

// tables enumerates operation tables.
func tables(c *mc.Ctx) {
	n := c.Choose(4)
	var t operations.Table
	for i := 0; i < n; i++ {
		o := operations.Operation{Type: operations.RequestType(1 + c.Choose(4)), Direction: operations.Direction(1 + c.Choose(2)), Index: uint32(i)}
		if n == 1 {
			o.Index = mc.Pick(c, []uint32{0, 1, 255, 256, 0x01020304, 0xffffffff})
			o.Namespace, o.Operation = mc.Pick(c, names), mc.Pick(c, names)
		} else {
			o.Namespace, o.Operation = mc.Pick(c, names[:3]), mc.Pick(c, names[1:3])
		}
		t = append(t, o)
	}
	var reserved []byte
	if n > 0 && n < 3 {
		reserved = wire.Bytes(mc.Pick(c, []int{0, 1, 2, 300}), 5)
	}
	c.Logf("%s, %d bytes reserved", brief(t), len(reserved))
	exchange(c, t, reserved)
}

// parse tells whether the Rust side may read b as a table.
func parse(b []byte) bool {
	r := cursor(b)
	has := func(n int) bool { return len(r) >= n }
	str := func(text bool) bool {
		if !has(2) {
			return false
		}
		n := int(binary.BigEndian.Uint16(r.n(2)))
		return has(n) && (utf8.Valid(r.n(n)) || !text)
	}
	if !has(10) || string(r.n(6)) != "\x00wrs\x00\x01" {
		return false
	}
	for n := r.u32(); n > 0; n-- {
		if !has(6) {
			return false
		}
		if k := r.u8(); k < 1 || k > 4 {
			return false
		}
		r.n(5)
		if !str(true) || !str(true) || !str(false) {
			return false
		}
	}
	return true
}

// broken are tables cut short and tables with a byte changed.
func broken(c *mc.Ctx) {
	t := operations.Table{{Type: 1, Direction: 1, Index: 7, Namespace: "né", Operation: "op"}, {Type: 4, Direction: 2, Index: 1, Namespace: "x", Operation: ""}}
	b := render(t, wire.Bytes(c.Choose(3), 9))
	try := func(b []byte) {
		req := append(binary.BigEndian.AppendUint32([]byte{'t'}, uint32(len(b))), b...)
		st, _ := ask(c, append(req, 0, 0, 0, 0))
		if (st == 'K') != parse(b) {
			c.Failf("the table % x: answer %c, well formed=%v", b, st, parse(b))
		}
	}
	i := c.Choose(len(b))
	try(b[:i:i])
	for v := 0; v < 256; v++ {
		d := append([]byte(nil), b...)
		d[i] = byte(v)
		try(d)
	}
}

func main() {
	mc.Main(mc.Config{
		ID:     "C36",
		Rule:   "exhaustive product of frame values and of operation tables, written by either implementation and read by the other, and of broken frames and tables; every answer of the Rust crate is compared with the independent rendering used for the Go side",
		Bounds: "8 stream ids, 7 request counts, 12x12 metadata/data lengths up to 65537, all 64 frame kinds x 1024 flag patterns x 19 bodies, every cut and every byte value at every position of 60 frames; tables of up to 3 operations over 9 names, every cut and byte value at every position of a table; all operation indexes with one significant byte",
		Scenarios: []mc.Scenario{
			{Name: "values", Body: values},
			{Name: "kinds and flags", Body: foreign},
			{Name: "broken frames", Body: cut},
			{Name: "frames in a stream", Body: streams},
			{Name: "operation indexes", Body: indexes},
			{Name: "operation tables", Body: tables},
			{Name: "broken tables", Body: broken},
		},
		Assumptions: []string{"the crates wasmrs, wasmrs-rx and wasmrs-runtime are built from their sources with the cached versions of their dependencies; wasmrs-codec, whose MessagePack library is not there, is replaced by its error type"},
	})
}
