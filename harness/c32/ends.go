package main

import (
	"context"
	"unsafe"

	"github.com/tetratelabs/wazero"
	"github.com/tetratelabs/wazero/api"

	"github.com/nanobus/iota/go/handler"
	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/operations"
	"github.com/nanobus/iota/go/transport/wasmrs/host"
	ginvoke "github.com/nanobus/iota/go/zzguest/invoke"
	"github.com/nanobus/iota/go/zzguest/transport/wasmrs/guest"
	"github.com/nanobus/iota/go/zzverif/gpeer"
	"github.com/nanobus/iota/go/zzverif/neutral"
	"github.com/nanobus/iota/go/zzverif/peer"
	"github.com/nanobus/iota/go/zzverif/vsched"
	"github.com/nanobus/iota/go/zzverif/wire"
	"github.com/nanobus/iota/go/zzverif/wmod"
)

var cur *world

func init() {
	peer.Export(func() *neutral.Handlers { return cur.handlers() })
}

// end is the side under test; the harness plays the other one.
type end struct {
	neutral.Caller
	deliver func(fs ...wire.Frame)
	raw     func(b []byte) // delivers this; nil for those that get decoded frames
	close   func()         // nil: it has no end
}

var endNames = []string{"client", "server", "host", "guest"}

func newEnd(w *world, n int) *end {
	switch n {
	case 0, 1:
		return newHandler(w, []handler.Mode{handler.ClientMode, handler.ServerMode}[n])
	case 2:
		return newHost(w)
	}
	return newGuest(w)
}

func newHandler(w *world, mode handler.Mode) *end {
	h := handler.New(context.Background(), mode)
	h.SetFrameSender(func(f frames.Frame) error {
		b := wire.ImplEncode(f)
		w.sendAll(append(wire.U24(len(b)), b...))
		return nil
	})
	return &end{Caller: peer.Caller{C: h}, deliver: func(fs ...wire.Frame) {
		for _, f := range fs {
			x, err := wire.ImplDecode(wire.Encode(f))
			if err != nil {
				vsched.Fail("%v does not decode: %v", f, err)
			}
			if err := h.HandleFrame(x); err != nil {
				vsched.Fail("HandleFrame: %v", err)
			}
		}
	}, close: func() { h.Close() }}
}

func packed(fs ...wire.Frame) (b []byte) {
	for _, f := range fs {
		e := wire.Encode(f)
		b = append(append(b, wire.U24(len(e))...), e...)
	}
	return b
}

// stale is what follows in the buffer after what is delivered: a frame nobody
// sent now.
var stale = packed(wire.Frame{Kind: wire.RequestFNF, ID: 9999, Metadata: []byte(good), Data: []byte("stale")})

func (w *world) sendAll(b []byte) {
	for len(b) > 0 {
		n := int(b[0])<<16 | int(b[1])<<8 | int(b[2])
		f, ok := wire.Decode(b[3 : 3+n])
		if !ok {
			vsched.Fail("%x was sent, which is no frame", b[3:3+n])
		}
		b = b[3+n:]
		w.sends(f)
	}
}

const (
	sendPtr = 0x1000
	recvPtr = 0x10000
	operPtr = 0x20000
)

func newHost(w *world) *end {
	send, recv := &wmod.Region{Ptr: sendPtr, Size: 16384}, &wmod.Region{Ptr: recvPtr, Size: 16384}
	ops := operations.Table{}.ToBytes()
	op := &wmod.Region{Ptr: operPtr, Size: uint32(len(ops))}
	copy(op.Bytes(), ops)
	var ctx context.Context
	var m *wmod.Mod
	m = &wmod.Mod{Regions: []*wmod.Region{send, recv, op}, Exports: map[string]wmod.Func{
		"__wasmrs_init": func(c context.Context, a ...uint64) error {
			ctx = c
			m.Call(c, "__init_buffers", sendPtr, recvPtr)
			return nil
		},
		"__wasmrs_op_list_request": func(c context.Context, a ...uint64) error {
			m.Call(c, "__op_list", operPtr, uint64(len(ops)))
			return nil
		},
		"__wasmrs_send": func(c context.Context, a ...uint64) error {
			w.sendAll(append([]byte(nil), send.Bytes()[:a[0]]...))
			return nil
		},
	}}
	wazero.ZZInstantiate = func(_ context.Context, _ []byte, h map[string]wazero.ZZHostFunc) (api.Module, error) {
		m.Host = h
		return m, nil
	}
	bg := context.Background()
	h, err := host.New(bg)
	if err != nil {
		vsched.Fail("host.New: %v", err)
	}
	mod, err := h.Compile(bg, []byte("guest"))
	if err != nil {
		vsched.Fail("Compile: %v", err)
	}
	i, err := mod.Instantiate(bg)
	if err != nil {
		vsched.Fail("Instantiate: %v", err)
	}
	hs := w.handlers
	i.SetRequestResponseHandler(0, peer.RR(hs))
	i.SetFireAndForgetHandler(0, peer.FNF(hs))
	i.SetRequestStreamHandler(0, peer.RS(hs))
	i.SetRequestChannelHandler(0, peer.RC(hs))
	raw := func(b []byte) {
		copy(recv.Bytes(), b)
		copy(recv.Bytes()[len(b):], stale)
		m.Call(ctx, "__send", uint64(len(b)))
		recv.Move(len(b) + len(stale))
	}
	return &end{Caller: peer.Caller{C: i}, deliver: func(fs ...wire.Frame) { raw(packed(fs...)) }, raw: raw, close: func() { i.Close() }}
}

func newGuest(w *world) *end {
	guest.ZZReset()
	ginvoke.ZZReset()
	gpeer.Export(w.handlers)
	var gbuf, hbuf []byte
	bytes := func(p uint64) []byte { return unsafe.Slice((*byte)(unsafe.Pointer(uintptr(p))), 16384) }
	guest.ZZHost["__init_buffers"] = func(a ...uint64) { gbuf, hbuf = bytes(a[0]), bytes(a[1]) }
	guest.ZZHost["__op_list"] = func(a ...uint64) {}
	guest.ZZHost["__send"] = func(a ...uint64) { w.sendAll(append([]byte(nil), hbuf[:a[0]]...)) }
	guest.ZZExports["__wasmrs_init"](16384, 16384, 16384)
	raw := func(b []byte) {
		copy(gbuf, b)
		copy(gbuf[len(b):], stale)
		guest.ZZExports["__wasmrs_send"](uint64(len(b)))
		for i := range b {
			gbuf[i] = 0xAA
		}
	}
	return &end{Caller: gpeer.Caller{C: guest.HostInvoker}, deliver: func(fs ...wire.Frame) { raw(packed(fs...)) }, raw: raw}
}
