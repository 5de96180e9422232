// C02: malformed bytes are refused with an error, never a crash.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"time"

	"github.com/nanobus/iota/go/transport/rsocket"
	"github.com/nanobus/iota/go/zzverif/mc"
	"github.com/nanobus/iota/go/zzverif/wire"
)

var alphabet = []byte{0, 1, 2, 4, 0xff}

// decode feeds every short body to every frame decoder.
func decode(c *mc.Ctx) {
	k := mc.Pick(c, wire.Kinds)
	fl := mc.Pick(c, []int{0, 0x100, 0x3ff})
	n := c.Choose(mc.Bound(8, 10))
	body := make([]byte, n)
	fixed := n
	if fixed > 3 {
		fixed = 3
	}
	for i := 0; i < fixed; i++ {
		body[i] = mc.Pick(c, alphabet)
	}
	rest := body[fixed:]
	idx := make([]int, len(rest))
	for {
		for i := range rest {
			rest[i] = alphabet[idx[i]]
		}
		one(c, k, fl, body)
		i := 0
		for ; i < len(idx); i++ {
			idx[i]++
			if idx[i] < len(alphabet) {
				break
			}
			idx[i] = 0
		}
		if i == len(idx) {
			break
		}
	}
	c.Logf("%v flags %x bodies of %d bytes starting % x", k, fl, n, body[:fixed])
}

func one(c *mc.Ctx, k wire.Kind, fl int, body []byte) {
	c.Step()
	t := int(k)<<10 | fl
	b := append([]byte{0, 0, 0, 2, byte(t >> 8), byte(t)}, body...)
	b = b[:len(b):len(b)]
	want, ok := wire.Decode(b)
	defer func() {
		if r := recover(); r != nil {
			if fmt.Sprintf("%T", r) == "mc.violation" {
				panic(r)
			}
			c.Failf("decoding % x panics: %v", b, r)
		}
	}()
	got, err := wire.ImplDecode(b)
	if !ok {
		if err == nil {
			c.Failf("% x is malformed (%v) but was accepted as %v", b, k, wire.FromImpl(got))
		}
		c.State(k, "refused", len(body))
		return
	}
	if err != nil {
		c.Failf("% x is a well-formed %v but was refused: %v", b, want, err)
	}
	if g := wire.FromImpl(got); !wire.Same(g, want) {
		c.Failf("% x decodes to %v, want %v", b, g, want)
	}
	c.State(k, "ok", len(want.Metadata), len(want.Data))
}

type conn struct {
	r io.Reader
	w bytes.Buffer
}

func (c *conn) Read(b []byte) (int, error)       { return c.r.Read(b) }
func (c *conn) Write(b []byte) (int, error)      { return c.w.Write(b) }
func (c *conn) Close() error                     { return nil }
func (c *conn) LocalAddr() net.Addr              { return nil }
func (c *conn) RemoteAddr() net.Addr             { return &net.TCPAddr{} }
func (c *conn) SetDeadline(time.Time) error      { return nil }
func (c *conn) SetReadDeadline(time.Time) error  { return nil }
func (c *conn) SetWriteDeadline(time.Time) error { return nil }

// stream feeds arbitrary bytes to a connection: every declared length around
// the actual one, every kind, with a good frame before.
func stream(c *mc.Ctx) {
	good := wire.Frame{Kind: wire.Payload, ID: 4, Data: []byte("ok"), Next: true}
	gb := wire.Encode(good)
	var in []byte
	lead := c.Choose(3)
	for i := 0; i < lead; i++ {
		in = append(append(in, wire.U24(len(gb))...), gb...)
	}
	kind := c.Choose(64)
	flags := mc.Pick(c, []int{0, 0x100, 0x3ff})
	actual := c.Choose(16)
	declared := mc.Pick(c, []int{actual, actual - 1, actual + 1, 0, 5, 6, 7, 0xffffff})
	if declared < 0 {
		c.Skip()
	}
	fill := mc.Pick(c, []byte{0, 1, 0xff})
	t := kind<<10 | flags
	body := append([]byte{0, 0, 0, 4, byte(t >> 8), byte(t)}, bytes.Repeat([]byte{fill}, 10)...)[:actual]
	in = append(append(in, wire.U24(declared)...), body...)
	c.Logf("%d good frames, then declared %d actual %d kind %d flags %x fill %x", lead, declared, actual, kind, flags, fill)
	tc := rsocket.NewTCPConn(&conn{r: bytes.NewReader(in)})
	for i := 0; i < lead; i++ {
		f, err := tc.Read()
		if err != nil {
			c.Failf("good frame %d before malformed bytes was not delivered: %v", i, err)
		}
		if !wire.Same(wire.FromImpl(f), good) {
			c.Failf("good frame changed to %v", wire.FromImpl(f))
		}
	}
	// what the oracle expects of the last record
	var want wire.Frame
	ok := false
	if declared <= actual && declared >= 1 {
		want, ok = wire.Decode(body[:declared])
	}
	f, err := tc.Read()
	if ok {
		if err != nil {
			c.Failf("well-formed frame refused: %v", err)
		}
		if !wire.Same(wire.FromImpl(f), want) {
			c.Failf("frame %v delivered as %v", want, wire.FromImpl(f))
		}
		c.State("ok", kind)
		return
	}
	if err == nil {
		c.Failf("malformed bytes were delivered as %v", wire.FromImpl(f))
	}
	if declared <= actual && errors.Is(err, io.EOF) {
		c.Failf("a malformed frame was reported as a clean end of stream")
	}
	c.State("refused", kind, declared > actual)
}

func main() {
	mc.Main(mc.Config{
		ID:     "C02",
		Rule:   "exhaustive enumeration of short byte strings as frame bodies and as connection input, each judged by an independent well-formedness oracle",
		Bounds: fmt.Sprintf("all bodies of up to %d bytes over a 5-byte alphabet x 8 kinds x 3 flag sets; connection input with 0-2 good frames then every kind 0-63, 16 actual lengths, 8 declared lengths", mc.Bound(7, 9)),
		Scenarios: []mc.Scenario{
			{Name: "frame bodies", Body: decode},
			{Name: "connection bytes", Body: stream},
		},
		Assumptions: []string{"the connection is reliable and ordered; what is enumerated is its content"},
	})
}
