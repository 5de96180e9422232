// Package wpair runs the guest's packages on a host instance.
package wpair

import (
	"context"
	"unsafe"

	"github.com/tetratelabs/wazero"
	"github.com/tetratelabs/wazero/api"

	"github.com/nanobus/iota/go/transport/wasmrs/host"
	"github.com/nanobus/iota/go/zzguest/invoke"
	"github.com/nanobus/iota/go/zzguest/transport/wasmrs/guest"
	"github.com/nanobus/iota/go/zzverif/gpeer"
	"github.com/nanobus/iota/go/zzverif/mc"
	"github.com/nanobus/iota/go/zzverif/neutral"
	"github.com/nanobus/iota/go/zzverif/peer"
	"github.com/nanobus/iota/go/zzverif/proto"
	"github.com/nanobus/iota/go/zzverif/vsched"
	"github.com/nanobus/iota/go/zzverif/wire"
	"github.com/nanobus/iota/go/zzverif/wmod"
)

const (
	send = 0x1000
	recv = 0x10000
	oper = 0x20000
)

// Pair is a host instance with the guest on it.
type Pair struct {
	*wmod.Mod
	I       *host.Instance
	M       *proto.Monitor
	S       *proto.Session
	Kick    func() // what the guest does when it is told to start
	running int    // the thread the guest runs on, plus one
	later   []func()
	send    *wmod.Region
	recv    *wmod.Region
	hbuf    []byte
}

// Run starts f: on the guest it happens before the guest returns to the host.
func (p *Pair) Run(name string, f func()) {
	if p.InGuest() {
		p.later = append(p.later, f)
		return
	}
	vsched.GoNamed(name, f)
}

// InGuest tells whether the guest is what runs.
func (p *Pair) InGuest() bool { return p.running == vsched.SelfID()+1 }

func bytes(p uint64, n uint32) []byte { return unsafe.Slice((*byte)(unsafe.Pointer(uintptr(p))), n) }

// enter runs f as the guest.
func (p *Pair) enter(f func()) {
	if p.running != 0 {
		vsched.Fail("the host calls the guest while it is running")
	}
	p.running = vsched.SelfID() + 1
	f()
	for len(p.later) > 0 {
		g := p.later[0]
		p.later[0] = nil
		p.later = p.later[1:]
		g()
	}
	p.running = 0
}

// New starts a pair.
func New(s *proto.Session) *Pair {
	p := NewWith(s.Handlers, s.Handlers)
	p.S = s
	return p
}

// NewWith starts a pair with these handlers on the guest and the host.
func NewWith(byGuest, byHost func() *neutral.Handlers) *Pair {
	p := &Pair{M: proto.NewMonitor(), send: &wmod.Region{Ptr: send, Size: 16384}, recv: &wmod.Region{Ptr: recv, Size: 16384}}
	guest.ZZReset()
	invoke.ZZReset()
	gpeer.Export(byGuest)
	invoke.ExportFireAndForget("ns", "kick", gpeer.FNF(func() *neutral.Handlers {
		return &neutral.Handlers{FNF: func(neutral.Payload) { p.Kick() }}
	}))
	var gbuf, hbuf []byte
	var ctx context.Context
	var ops []byte
	guest.ZZHost["__init_buffers"] = func(a ...uint64) {
		gbuf, hbuf = bytes(a[0], 16384), bytes(a[1], 16384)
		p.hbuf = hbuf
		p.Call(ctx, "__init_buffers", send, recv)
	}
	guest.ZZHost["__op_list"] = func(a ...uint64) {
		ops = bytes(a[0], uint32(a[1]))
		r := &wmod.Region{Ptr: oper, Size: uint32(len(ops))}
		copy(r.Bytes(), ops)
		p.Regions = append(p.Regions, r)
		p.Call(ctx, "__op_list", oper, uint64(len(ops)))
	}
	guest.ZZHost["__send"] = func(a ...uint64) {
		if !p.InGuest() {
			vsched.Fail("the guest sends although it was not called")
		}
		n := int(a[0])
		p.seen(0, hbuf[:n])
		copy(p.recv.Bytes(), hbuf[:n])
		p.Call(ctx, "__send", a[0])
		p.recv.Move(n)
		for i := 0; i < n; i++ {
			hbuf[i] = 0xAA
		}
	}
	call := func(name string) wmod.Func {
		return func(c context.Context, a ...uint64) error {
			p.enter(func() { ctx = c; guest.ZZExports[name](a...) })
			return nil
		}
	}
	p.Mod = &wmod.Mod{Regions: []*wmod.Region{p.send, p.recv}, Exports: map[string]wmod.Func{
		"__wasmrs_init":            call("__wasmrs_init"),
		"__wasmrs_op_list_request": call("__wasmrs_op_list_request"),
		"__wasmrs_send": func(c context.Context, a ...uint64) error {
			n := int(a[0])
			p.enter(func() {
				ctx = c
				if n > 16384 {
					vsched.Fail("the host says it wrote %d bytes", n)
				}
				copy(gbuf, p.send.Bytes()[:n])
				p.send.Move(n)
				p.seen(1, gbuf[:n])
				guest.ZZExports["__wasmrs_send"](a...)
				for i := 0; i < n; i++ {
					gbuf[i] = 0xAA
				}
			})
			return nil
		},
	}}
	wazero.ZZInstantiate = func(_ context.Context, _ []byte, h map[string]wazero.ZZHostFunc) (api.Module, error) {
		p.Host = h
		return p.Mod, nil
	}
	bg := context.Background()
	h, err := host.New(bg)
	if err != nil {
		vsched.Fail("host.New: %v", err)
	}
	mod, err := h.Compile(bg, []byte("guest"))
	if err != nil {
		vsched.Fail("Compile: %v", err)
	}
	if p.I, err = mod.Instantiate(bg); err != nil {
		vsched.Fail("Instantiate: %v", err)
	}
	p.I.SetRequestResponseHandler(0, peer.RR(byHost))
	p.I.SetFireAndForgetHandler(0, peer.FNF(byHost))
	p.I.SetRequestStreamHandler(0, peer.RS(byHost))
	p.I.SetRequestChannelHandler(0, peer.RC(byHost))
	return p
}

// Sends gives a frame to the other side, as if the code of the side had made it.
func (p *Pair) Sends(side int, b []byte) {
	if side == 1 {
		f, err := wire.ImplDecode(b)
		if err != nil {
			vsched.Fail("frame %x does not decode: %v", b, err)
		}
		p.I.SendFrame(f)
		return
	}
	p.Kick = func() {
		n := copy(p.hbuf, append(wire.U24(len(b)), b...))
		guest.ZZHost["__send"](uint64(n))
	}
	p.Caller(1).FireAndForget(neutral.Payload{Meta: "\x00\x00\x00\x01\x00\x00\x00\x00"})
}

// seen tells the monitor about the frames of a batch, as they are handed over.
func (p *Pair) seen(side int, b []byte) {
	for len(b) >= 3 {
		n := int(b[0])<<16 | int(b[1])<<8 | int(b[2])
		b = b[3:]
		if n > len(b) {
			vsched.Fail("a frame of %d bytes in %d", n, len(b))
		}
		p.M.Sent(side, b[:n])
		p.M.Delivered(side, b[:n])
		b = b[n:]
	}
	if len(b) > 0 {
		vsched.Fail("%d bytes after the last frame", len(b))
	}
}

// Caller is how a side makes requests: 0 is the guest, 1 the host.
func (p *Pair) Caller(side int) neutral.Caller {
	if side == 0 {
		return gpeer.Caller{C: guest.HostInvoker}
	}
	return peer.Caller{C: p.I}
}

// Run explores the calls, each made by the side given; those of the host have a
// goroutine of their own, those of the guest are made when it is told to.
func Run(c *mc.Ctx, pre int, fine bool, sides []int, calls ...*proto.Call) {
	Rounds(c, pre, fine, sides, calls)
}

// Rounds does so with several lots, the next one when nothing happens any more.
func Rounds(c *mc.Ctx, pre int, fine bool, sides []int, lots ...[]*proto.Call) {
	opt := vsched.Options{Preemptions: pre, Fine: fine}
	if pre == 0 {
		opt.MaxSteps = 300000
	}
	vsched.Run(c, opt, func() {
		s := &proto.Session{}
		p := New(s)
		s.Run, s.Blocks = p.Run, func() bool { return !p.InGuest() }
		for _, calls := range lots {
			first := len(s.Calls)
			s.Add(calls...)
			side := func(i int) int { return sides[i%len(sides)] }
			for i, call := range calls {
				call.Sides(p.Caller(side(i)), p.Caller(1-side(i)))
			}
			p.Kick = func() {
				for i, call := range calls {
					if side(i) == 0 {
						call.Make(s, p.Caller(0))
					}
				}
			}
			kicked := false
			for i, call := range calls {
				if side(i) == 0 {
					if !kicked {
						kicked = true
						p.Caller(1).FireAndForget(neutral.Payload{Meta: "\x00\x00\x00\x01\x00\x00\x00\x00"})
					}
					continue
				}
				vsched.GoNamed("caller "+call.ID, func() { call.Make(s, p.Caller(1)) })
			}
			vsched.Quiesce()
			for _, call := range s.Calls[first:] {
				call.Check()
			}
		}
		c.State(p.M.Log)
	})
}
