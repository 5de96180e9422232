// C04: length-prefixed framing on a byte stream.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"time"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/transport/rsocket"
	"github.com/nanobus/iota/go/zzverif/mc"
	"github.com/nanobus/iota/go/zzverif/wire"
)

var errBroken = errors.New("link broken")

// link delivers in[] cut at the given offsets.
type link struct {
	in      []byte
	cuts    []int // ascending offsets where a Read stops
	pos     int
	eofWith bool  // the last bytes arrive together with the end
	end     error // how the stream ends
	stall   int   // offset at which one empty read happens (-1: never)
	out     bytes.Buffer
	writes  int
	failAt  int // write number that fails (0: never)
}

func (l *link) Read(b []byte) (int, error) {
	if l.pos == l.stall {
		l.stall = -1
		return 0, nil
	}
	stop := len(l.in)
	for _, c := range l.cuts {
		if c > l.pos {
			stop = c
			break
		}
	}
	n := copy(b, l.in[l.pos:stop])
	l.pos += n
	if n == 0 && len(b) > 0 {
		return 0, l.end
	}
	if l.pos == len(l.in) && l.eofWith {
		return n, l.end
	}
	return n, nil
}

func (l *link) Write(b []byte) (int, error) {
	l.writes++
	if l.failAt > 0 && l.writes >= l.failAt {
		return 0, errBroken
	}
	l.out.Write(b)
	return len(b), nil
}
func (l *link) Close() error                     { return nil }
func (l *link) LocalAddr() net.Addr              { return nil }
func (l *link) RemoteAddr() net.Addr             { return &net.TCPAddr{} }
func (l *link) SetDeadline(time.Time) error      { return nil }
func (l *link) SetReadDeadline(time.Time) error  { return nil }
func (l *link) SetWriteDeadline(time.Time) error { return nil }

var menu = []wire.Frame{
	{Kind: wire.Cancel, ID: 7},
	{Kind: wire.Payload, ID: 3, Data: []byte("AB"), Next: true},
	{Kind: wire.RequestN, ID: 5, N: 9},
	{Kind: wire.RequestResponse, ID: 9, N: 1, Metadata: []byte("12345678"), Data: []byte("xyz"), Complete: true},
	{Kind: wire.Error, ID: 11, Code: 0x201, Data: []byte("no")},
	{Kind: wire.RequestChannel, ID: 13, N: 4, Metadata: []byte("m"), Data: []byte("d")},
}

func enc(fs []wire.Frame) (out []byte, ends []int) {
	for _, f := range fs {
		b := wire.Encode(f)
		out = append(append(out, wire.U24(len(b))...), b...)
		ends = append(ends, len(out))
	}
	return
}

func checkRead(c *mc.Ctx, fs []wire.Frame, l *link, keep int, note string) {
	c.Step()
	size := len(l.in)
	tc := rsocket.NewTCPConn(l)
	var got []frames.Frame
	var err error
	for {
		var f frames.Frame
		f, err = tc.Read()
		if err != nil {
			break
		}
		got = append(got, f)
		if len(got) > len(fs) {
			break
		}
	}
	if len(got) != keep {
		c.Failf("%s: %d frames delivered, want %d (then: %v)", note, len(got), keep, err)
	}
	// compared only now: a delivered frame must not change afterwards
	for i, g := range got {
		if v := wire.FromImpl(g); !wire.Same(v, fs[i]) {
			c.Failf("%s: frame %d delivered as %v, want %v", note, i, v, fs[i])
		}
	}
	if l.end == errBroken && !errors.Is(err, errBroken) {
		c.Failf("%s: the link broke but Read reports %v", note, err)
	}
	at := 0
	for i := 0; i < keep; i++ {
		at += 3 + len(wire.Encode(fs[i]))
	}
	if clean := size == at; l.end == io.EOF && clean != errors.Is(err, io.EOF) {
		c.Failf("%s: the end after %d bytes, a clean one %v, is reported as %v", note, size, clean, err)
	}
	c.State(keep, len(l.cuts), l.eofWith, l.end == io.EOF)
}

// chunks: every way to cut the byte stream at up to three places, every
// truncation, every kind of end.
func chunks(c *mc.Ctx) {
	n := 1 + c.Choose(3)
	fs := make([]wire.Frame, n)
	for i := range fs {
		fs[i] = mc.Pick(c, menu)
	}
	in, ends := enc(fs)
	eofWith := c.Bool()
	end := mc.Pick(c, []error{io.EOF, errBroken})
	c.Logf("%v eofWith=%v end=%v: all cuts of %d bytes", fs, eofWith, end, len(in))
	for trunc := 0; trunc <= len(in); trunc++ {
		keep := 0
		for _, e := range ends {
			if e <= trunc {
				keep++
			}
		}
		mk := func(stall int, cuts ...int) *link {
			return &link{in: in[:trunc], cuts: cuts, eofWith: eofWith, end: end, stall: stall}
		}
		all := make([]int, 0, trunc)
		for i := 1; i < trunc; i++ {
			all = append(all, i)
		}
		checkRead(c, fs, mk(-1, all...), keep, fmt.Sprintf("%v truncated to %d, one byte at a time", fs, trunc))
		checkRead(c, fs, mk(-1), keep, fmt.Sprintf("%v truncated to %d, at once", fs, trunc))
		if n == 3 && trunc != len(in) && !mc.Thorough() {
			continue
		}
		for a := 1; a < trunc; a++ {
			checkRead(c, fs, mk(a, a), keep, fmt.Sprintf("%v truncated to %d cut at %d with an empty read", fs, trunc, a))
			for b := a; b < trunc; b++ {
				if trunc != len(in) && b != a && !mc.Thorough() {
					break
				}
				checkRead(c, fs, mk(-1, a, b), keep, fmt.Sprintf("%v truncated to %d cut at %d,%d", fs, trunc, a, b))
			}
		}
	}
}

// bigger: frames around the reader's internal buffer sizes.
func bigger(c *mc.Ctx) {
	sizes := []int{0, 100, 4000, 8180, 8189, 8192, 8193, 16384, 65535, 65536, 70000}
	var fs []wire.Frame
	n := 1 + c.Choose(4)
	for i := 0; i < n; i++ {
		fs = append(fs, wire.Frame{Kind: wire.Payload, ID: uint32(2*i + 1), Next: true, Data: wire.Bytes(mc.Pick(c, sizes), byte(i+1))})
	}
	in, _ := enc(fs)
	step := mc.Pick(c, []int{1000000, 8192, 1460, 4097})
	var cuts []int
	for p := step; p < len(in); p += step {
		cuts = append(cuts, p)
	}
	c.Logf("%v in pieces of %d", fs, step)
	checkRead(c, fs, &link{in: in, cuts: cuts, end: io.EOF, eofWith: c.Bool(), stall: -1}, n, fmt.Sprintf("%v in pieces of %d", fs, step))
}

func huge(c *mc.Ctx) {
	n := mc.Pick(c, []int{1 << 20, 1<<24 - 1 - 6})
	fs := []wire.Frame{{Kind: wire.Cancel, ID: 3}, {Kind: wire.Payload, ID: 5, Next: true, Data: wire.Bytes(n, 9)}, {Kind: wire.Cancel, ID: 7}}
	in, _ := enc(fs)
	checkRead(c, fs, &link{in: in, end: io.EOF, stall: -1}, 3, fmt.Sprintf("frame of %d bytes", n))
	// and the writer
	l := &link{}
	tc := rsocket.NewTCPConn(l)
	for _, f := range fs {
		if err := tc.Write(wire.ToImpl(f)); err != nil {
			c.Failf("writing %v: %v", f, err)
		}
	}
	if err := tc.Flush(); err != nil {
		c.Failf("flush: %v", err)
	}
	if !bytes.Equal(l.out.Bytes(), in) {
		c.Failf("writing a frame of %d bytes put %d bytes on the wire, want %d", n, l.out.Len(), len(in))
	}
	// one byte more than the length field can hold
	if n > 1<<22 {
		l := &link{}
		tc := rsocket.NewTCPConn(l)
		f := fs[1]
		f.Data = append(f.Data, 1)
		if err := tc.Write(wire.ToImpl(f)); err == nil {
			c.Failf("a frame too long for the length field was written without an error")
		}
		if err := tc.Write(wire.ToImpl(fs[0])); err != nil {
			c.Failf("write after a refused frame: %v", err)
		}
		tc.Flush()
		want, _ := enc(fs[:1])
		if !bytes.Equal(l.out.Bytes(), want) {
			c.Failf("a refused frame left %d bytes on the wire", l.out.Len())
		}
	}
	c.State(n)
}

// writing: every sequence of writes and flushes.
func writing(c *mc.Ctx) {
	l := &link{}
	tc := rsocket.NewTCPConn(l)
	sizes := []int{0, 5, 8000, 9000}
	var fs []wire.Frame
	ops := mc.Bound(6, 8)
	flushed := 0
	for i := 0; i < ops; i++ {
		k := c.Choose(len(menu) + 2)
		switch {
		case k < 2:
			fs = append(fs, menu[k*3])
		case k == 2:
			if err := tc.Flush(); err != nil {
				c.Failf("flush: %v", err)
			}
			want, _ := enc(fs)
			if !bytes.Equal(l.out.Bytes(), want) {
				c.Failf("after %v and a flush the wire has % x, want % x", fs, clip(l.out.Bytes()), clip(want))
			}
			flushed = len(fs)
			c.Logf("flush")
			continue
		case k < 3+len(sizes):
			fs = append(fs, wire.Frame{Kind: wire.Payload, ID: 3, Next: true, Data: wire.Bytes(sizes[k-3], byte(i))})
		default:
			i = ops
			continue
		}
		f := fs[len(fs)-1]
		c.Logf("write %v", f)
		if err := tc.Write(wire.ToImpl(f)); err != nil {
			c.Failf("write: %v", err)
		}
		want, _ := enc(fs)
		if !bytes.HasPrefix(want, l.out.Bytes()) {
			c.Failf("after %v the wire has % x", fs, clip(l.out.Bytes()))
		}
	}
	if err := tc.Flush(); err != nil {
		c.Failf("flush: %v", err)
	}
	want, _ := enc(fs)
	if !bytes.Equal(l.out.Bytes(), want) {
		c.Failf("after %v (flushed %d) the wire has % x, want % x", fs, flushed, clip(l.out.Bytes()), clip(want))
	}
	c.State(len(fs), flushed, len(want))
}

// failing: a write error is reported, not swallowed.
func failing(c *mc.Ctx) {
	l := &link{failAt: 1 + c.Choose(3)}
	tc := rsocket.NewTCPConn(l)
	failed := false
	n := 0
	for i := 0; i < 4 && !failed; i++ {
		f := wire.Frame{Kind: wire.Payload, ID: 3, Next: true, Data: wire.Bytes(mc.Pick(c, []int{1, 9000}), 1)}
		if err := tc.Write(wire.ToImpl(f)); err != nil {
			failed = true
			break
		}
		n++
		if err := tc.Flush(); err != nil {
			failed = true
		}
	}
	c.Logf("fail at write %d: reported=%v after %d frames", l.failAt, failed, n)
	if l.writes >= l.failAt && !failed {
		c.Failf("the link refused a write but neither Write nor Flush reported it")
	}
	c.State(n, failed, l.failAt)
}

func clip(b []byte) []byte {
	if len(b) > 64 {
		return b[:64]
	}
	return b
}

func main() {
	mc.Main(mc.Config{
		ID:     "C04",
		Rule:   "exhaustive enumeration of frame sequences, cut points, truncation points, empty reads and stream ends; delivered frames are compared after the whole stream was read",
		Bounds: "1-3 frames of 6 kinds, every truncation, byte-at-a-time, every pair of cut points; up to 4 frames with sizes around the 8 KiB and 64 KiB buffers; the 16 MiB limit; all write/flush sequences of 6 (8) operations",
		Scenarios: []mc.Scenario{
			{Name: "cut points", Body: chunks},
			{Name: "buffer boundaries", Body: bigger},
			{Name: "length limit", Body: huge},
			{Name: "write and flush", Body: writing},
			{Name: "write errors", Body: failing},
		},
	})
}
