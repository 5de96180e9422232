// Package proto drives the endpoints of the request protocol: it makes calls,
// plays their handlers and judges what both sides get and what goes over the wire.
package proto

import (
	"fmt"
	"slices"

	"github.com/nanobus/iota/go/zzverif/vsched"
	"github.com/nanobus/iota/go/zzverif/wire"
)

// stream is what the monitor knows of one stream ID.
type stream struct {
	kind    wire.Kind
	by      int // the requester
	credit  [2]int
	payload [2]int
	end     [2]string
	cancel  [2]bool
	gone    [2]bool // the side has been told to stop
}

// Monitor checks that what both sides send follows the protocol.
type Monitor struct {
	streams map[uint32]*stream
	Log     string // of what was sent
}

// NewMonitor makes one.
func NewMonitor() *Monitor { return &Monitor{streams: map[uint32]*stream{}} }

func name(side int) string { return []string{"client", "server"}[side] }

// Sent is called as a side (0 is the one with odd stream IDs) sends a frame.
func (m *Monitor) Sent(side int, b []byte) wire.Frame {
	f, ok := wire.Decode(b)
	if !ok {
		vsched.Fail("%s sent bytes that are no frame: %x", name(side), b)
	}
	m.Log += fmt.Sprintf("%d %v;", side, f)
	vsched.Logf("%s sends %v", name(side), f)
	bad := func(format string, a ...any) {
		vsched.Fail("%s sent %v, %s", name(side), f, fmt.Sprintf(format, a...))
	}
	s := m.streams[f.ID]
	if f.Kind.IsRequest() {
		if s != nil {
			bad("although stream %d is in use", f.ID)
		}
		if f.ID == 0 || int(f.ID&1) == side {
			bad("a stream ID of the other side")
		}
		s = &stream{kind: f.Kind, by: side}
		s.credit[1-side] = int(f.N)
		m.streams[f.ID] = s
		return f
	}
	if s == nil {
		bad("before any request on that stream")
	}
	if s.kind == wire.RequestFNF {
		bad("on a fire and forget stream")
	}
	req := s.by == side
	switch f.Kind {
	case wire.RequestN, wire.Cancel:
		if s.kind == wire.RequestResponse && f.Kind == wire.RequestN || s.kind == wire.RequestStream && !req {
			bad("which has no meaning there")
		}
		if f.Kind == wire.Cancel {
			if s.cancel[side] {
				bad("a second time")
			}
			s.cancel[side] = true
		}
	case wire.Payload, wire.Error:
		if req && s.kind != wire.RequestChannel {
			bad("but only the request goes that way")
		}
		if s.end[side] != "" {
			bad("after its %s", s.end[side])
		}
		if f.Kind == wire.Error {
			s.end[side] = "error"
			break
		}
		if f.Next {
			s.payload[side]++
			if s.kind == wire.RequestResponse && !f.Complete {
				bad("a response that is not marked as the last")
			}
			if s.kind != wire.RequestResponse && s.payload[side] > s.credit[side] {
				bad("payload %d with %d asked for", s.payload[side], s.credit[side])
			}
		} else if !f.Complete {
			bad("which says nothing")
		}
		if f.Complete {
			s.end[side] = "completion"
		}
	}
	return f
}

// Used are the stream IDs that the requests of a side had; from now on they may
// have others.
func (m *Monitor) Used(side int) (ids []uint32) {
	for id, s := range m.streams {
		if s.by == side {
			ids = append(ids, id)
		}
	}
	slices.Sort(ids)
	m.streams = map[uint32]*stream{}
	return ids
}

// Delivered is called before the frame of a side is given to the other.
func (m *Monitor) Delivered(side int, b []byte) {
	f, _ := wire.Decode(b)
	if vsched.Active() {
		vsched.Logf("%s gets %v", name(1-side), f)
	}
	if s := m.streams[f.ID]; s != nil && f.Kind == wire.RequestN {
		s.credit[1-side] += int(f.N)
	}
}

// Link carries the frames of one side to the other.
type Link struct {
	side    int
	m       *Monitor
	q       [][]byte
	deliver func([]byte)
	Down    bool
}

// NewLink starts a link that gives the frames of side to deliver, in order.
func NewLink(m *Monitor, side int, deliver func([]byte)) *Link {
	l := &Link{side: side, m: m, deliver: deliver}
	vsched.GoNamed(name(side)+"'s frames", func() {
		for {
			vsched.Wait("frames of the "+name(side), func() bool { return len(l.q) > 0 })
			b := l.q[0]
			l.q = l.q[1:]
			l.m.Delivered(side, b)
			l.deliver(b)
		}
	})
	return l
}

// Send queues a frame.
func (l *Link) Send(b []byte) {
	l.m.Sent(l.side, b)
	l.q = append(l.q, b)
}
