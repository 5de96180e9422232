// Package wmod stands in for a WebAssembly module and its memory.
package wmod

import (
	"context"

	"github.com/tetratelabs/wazero"
	"github.com/tetratelabs/wazero/api"
)

// Func is a function the module exports.
type Func func(ctx context.Context, params ...uint64) error

// Region is a part of the memory. The memory moves whenever the guest runs, as
// it does when it grows: views taken before are then of no use.
type Region struct {
	Ptr, Size uint32
	cur, old  []byte
}

// Bytes is the current content.
func (r *Region) Bytes() []byte {
	if r.cur == nil {
		r.cur, r.old = make([]byte, r.Size), make([]byte, r.Size)
	}
	return r.cur
}

// Move makes the views taken so far stale; n bytes of them turn to rubbish.
func (r *Region) Move(n int) {
	r.Bytes()
	r.cur, r.old = r.old, r.cur
	for i := 0; i < n && i < len(r.old); i++ {
		r.old[i], r.cur[i] = 0xAA, 0x55
	}
}

// Mod is a module.
type Mod struct {
	api.Module
	Host    map[string]wazero.ZZHostFunc
	Exports map[string]Func
	Regions []*Region
	NoMem   bool
	Closed  int
}

type fn struct {
	api.Function
	f Func
}

func (f fn) Call(ctx context.Context, params ...uint64) ([]uint64, error) {
	return nil, f.f(ctx, params...)
}

// ExportedFunction is what the host looks up.
func (m *Mod) ExportedFunction(name string) api.Function {
	if f := m.Exports[name]; f != nil {
		return fn{f: f}
	}
	return nil
}

// Call calls a function of the host.
func (m *Mod) Call(ctx context.Context, name string, params ...uint64) {
	m.Host["wasmrs."+name](ctx, m, params...)
}

func (m *Mod) Name() string                                    { return "test" }
func (m *Mod) Close(context.Context) error                     { m.Closed++; return nil }
func (m *Mod) CloseWithExitCode(context.Context, uint32) error { m.Closed++; return nil }

type memory struct {
	api.Memory
	m *Mod
}

// Memory is the module's memory.
func (m *Mod) Memory() api.Memory {
	if m.NoMem {
		return nil
	}
	return memory{m: m}
}

func (m memory) Read(ptr, size uint32) ([]byte, bool) {
	for _, r := range m.m.Regions {
		if ptr >= r.Ptr && uint64(ptr)+uint64(size) <= uint64(r.Ptr)+uint64(r.Size) {
			return r.Bytes()[ptr-r.Ptr:][:size:size], true
		}
	}
	return nil, false
}

func (m memory) Size() uint32 { return 1 << 20 }
