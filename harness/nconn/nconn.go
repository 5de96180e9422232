// Package nconn is a network in memory, under the controlled scheduler.
package nconn

import (
	"errors"
	"io"
	"net"
	"time"

	"github.com/nanobus/iota/go/zzverif/vsched"
)

// ErrBroken is what a broken connection reports.
var ErrBroken = errors.New("connection reset by peer")

var errClosed error = &net.OpError{Op: "use", Net: "mem", Err: net.ErrClosed}

// Conn is one end of a connection.
type Conn struct {
	Name   string
	Peer   *Conn
	in     []byte
	Cut    int // a read returns no more than that, if set
	closed bool
	Broken bool // reads and writes fail
	Mute   bool // writes fail
	Late   bool // what is written after the peer has closed is lost without an error
	Closes int
	Wrote  []byte
	dead   time.Time
}

// Pipe makes both ends of a connection.
func Pipe(a, b string) (x, y *Conn) {
	x, y = &Conn{Name: a}, &Conn{Name: b}
	x.Peer, y.Peer = y, x
	return
}

func (c *Conn) Read(p []byte) (int, error) {
	vsched.Wait("data for "+c.Name, func() bool { return len(c.in) > 0 || c.closed || c.Broken || c.Peer.closed })
	switch {
	case c.closed:
		return 0, errClosed
	case c.Broken:
		return 0, ErrBroken
	case len(c.in) == 0:
		return 0, io.EOF
	}
	if c.Cut > 0 && len(p) > c.Cut {
		p = p[:c.Cut]
	}
	n := copy(p, c.in)
	c.in = c.in[n:]
	return n, nil
}

func (c *Conn) Write(p []byte) (int, error) {
	vsched.Point()
	switch {
	case c.closed:
		return 0, errClosed
	case c.Broken || c.Mute || c.Peer.closed && !c.Late:
		return 0, ErrBroken
	case c.Peer.closed:
		return len(p), nil
	}
	c.Wrote = append(c.Wrote, p...)
	c.Peer.in = append(c.Peer.in, p...)
	vsched.Point()
	return len(p), nil
}

// Inject delivers bytes of the other end that no code wrote.
func (c *Conn) Inject(p []byte) { c.in = append(c.in, p...) }

func (c *Conn) Close() error {
	vsched.Point()
	c.Closes++
	if c.closed {
		return errClosed
	}
	c.closed = true
	return nil
}

// Closed tells whether this end was closed.
func (c *Conn) Closed() bool { return c.closed }

type addr string

func (a addr) Network() string { return "mem" }
func (a addr) String() string  { return string(a) }

func (c *Conn) LocalAddr() net.Addr                { return addr(c.Name) }
func (c *Conn) RemoteAddr() net.Addr               { return addr(c.Peer.Name) }
func (c *Conn) SetDeadline(t time.Time) error      { return nil }
func (c *Conn) SetReadDeadline(t time.Time) error  { return nil }
func (c *Conn) SetWriteDeadline(t time.Time) error { return nil }

// Listener accepts connections.
type Listener struct {
	pending []*Conn
	closed  bool
	Err     error // of Accept
	Closes  int
	All     []*Conn // accepted
}

// Dial makes a connection to the listener.
func (l *Listener) Dial(name string) (*Conn, error) {
	vsched.Point()
	if l.closed {
		return nil, errors.New("connection refused")
	}
	a, b := Pipe(name, "server of "+name)
	l.pending = append(l.pending, b)
	return a, nil
}

func (l *Listener) Accept() (net.Conn, error) {
	vsched.Wait("a connection", func() bool { return len(l.pending) > 0 || l.closed || l.Err != nil })
	switch {
	case l.closed:
		return nil, errClosed
	case l.Err != nil:
		return nil, l.Err
	}
	c := l.pending[0]
	l.pending[0] = nil
	l.pending = l.pending[1:]
	l.All = append(l.All, c)
	return c, nil
}

func (l *Listener) Close() error {
	vsched.Point()
	l.Closes++
	if l.closed {
		return errClosed
	}
	l.closed = true
	for _, c := range l.pending { // what nobody accepted is reset
		c.closed = true
	}
	return nil
}

// Closed tells whether it was closed.
func (l *Listener) Closed() bool { return l.closed }

func (l *Listener) Addr() net.Addr { return addr("server") }
