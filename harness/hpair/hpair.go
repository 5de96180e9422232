// Package hpair connects two handler.Handlers with links.
package hpair

import (
	"context"
	"errors"

	"github.com/nanobus/iota/go/handler"
	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/zzverif/mc"
	"github.com/nanobus/iota/go/zzverif/neutral"
	"github.com/nanobus/iota/go/zzverif/peer"
	"github.com/nanobus/iota/go/zzverif/proto"
	"github.com/nanobus/iota/go/zzverif/vsched"
	"github.com/nanobus/iota/go/zzverif/wire"
)

var current *proto.Session

func init() {
	peer.Export(func() *neutral.Handlers { return current.Handlers() })
}

// Use makes the handlers serve the calls of s from now on.
func Use(s *proto.Session) { current = s }

// End is one handler as a link sees it.
type End struct {
	neutral.Caller
	H *handler.Handler
}

// Deliver hands a frame over.
func (e *End) Deliver(b []byte) {
	f, err := wire.ImplDecode(b)
	if err != nil {
		vsched.Fail("frame %x does not decode: %v", b, err)
	}
	if err := e.H.HandleFrame(f); err != nil {
		vsched.Fail("HandleFrame: %v", err)
	}
}

// NewEnd makes a handler that gives its frames to send.
func NewEnd(mode handler.Mode, s *proto.Session, send func([]byte)) *End {
	current = s
	return NewEndIn(context.Background(), mode, send)
}

// NewEndIn makes a handler in a context.
func NewEndIn(ctx context.Context, mode handler.Mode, send func([]byte)) *End {
	h := handler.New(ctx, mode)
	h.SetFrameSender(func(f frames.Frame) error {
		b := wire.ImplEncode(f)
		if len(b) > 16384 { // all that fits into the connection
			return errors.New("too long")
		}
		send(b)
		return nil
	})
	return &End{Caller: peer.Caller{C: h}, H: h}
}

// New makes a client and a server.
func New(s *proto.Session) (ends [2]*End, m *proto.Monitor) {
	m = proto.NewMonitor()
	var links [2]*proto.Link
	for i, mode := range []handler.Mode{handler.ClientMode, handler.ServerMode} {
		ends[i] = NewEnd(mode, s, func(b []byte) { links[i].Send(b) })
	}
	for i := range links {
		links[i] = proto.NewLink(m, i, ends[1-i].Deliver)
	}
	return ends, m
}

// Run explores the calls, each made by the side given; all but the last have a
// goroutine of their own.
func Run(c *mc.Ctx, pre int, fine bool, sides []int, calls ...*proto.Call) {
	Rounds(c, pre, fine, sides, calls)
}

// Rounds does so with several lots, the next one when nothing happens any more.
func Rounds(c *mc.Ctx, pre int, fine bool, sides []int, lots ...[]*proto.Call) {
	opt := vsched.Options{Preemptions: pre, Fine: fine}
	if pre == 0 {
		opt.MaxSteps = 300000
	}
	vsched.Run(c, opt, func() {
		s := &proto.Session{Run: vsched.GoNamed}
		ends, m := New(s)
		for _, calls := range lots {
			first := len(s.Calls)
			s.Add(calls...)
			for i, call := range calls {
				side := sides[i%len(sides)]
				call.Sides(ends[side], ends[1-side])
			}
			for i, call := range calls {
				side := sides[i%len(sides)]
				if i == len(calls)-1 {
					call.Make(s, ends[side])
				} else {
					vsched.GoNamed("caller "+call.ID, func() { call.Make(s, ends[side]) })
				}
			}
			vsched.Quiesce()
			for _, call := range s.Calls[first:] {
				call.Check()
			}
		}
		c.State(m.Log)
	})
}
