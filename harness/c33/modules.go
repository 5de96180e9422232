package main

import (
	"context"
	"os"
	"path/filepath"
	"runtime"
	"time"

	"github.com/tetratelabs/wazero"
	"github.com/tetratelabs/wazero/api"

	"github.com/nanobus/iota/go/operations"
	"github.com/nanobus/iota/go/transport/wasmrs/mesh"
	"github.com/nanobus/iota/go/zzverif/mc"
	"github.com/nanobus/iota/go/zzverif/vsched"
	"github.com/nanobus/iota/go/zzverif/wmod"
)

var moduleDir = func() string {
	d, err := os.MkdirTemp("", "modules")
	if err != nil {
		panic(err)
	}
	for _, f := range []string{"user", "maker"} {
		if err := os.WriteFile(filepath.Join(d, f), []byte(f), 0o644); err != nil {
			panic(err)
		}
	}
	return d
}()

// load loads a module, again if it was loaded before.
//
//go:noinline
func load(t *tracker, g *mesh.Mesh, name string) {
	t.next()
	i, err := g.LoadModule(context.Background(), filepath.Join(moduleDir, name))
	if err != nil {
		vsched.Fail("LoadModule: %v", err)
	}
	t.add("instance", i)
	vsched.Sleep(time.Minute)
	vsched.Quiesce()
}

// few is how many instances that were replaced may be kept, besides the last
// of each file, however often modules are loaded.
const few = 8

// modules loads modules again and again.
func modules(c *mc.Ctx) {
	types := 1 + c.Choose(15) // what user imports and maker exports
	has := c.Choose(3)        // who is there before user: nobody, maker, or both later
	again := 20
	both := c.Bool() // user also exports
	vsched.Run(c, vsched.Options{}, func() {
		wazero.ZZInstantiate = func(_ context.Context, bin []byte, h map[string]wazero.ZZHostFunc) (api.Module, error) {
			var ops operations.Table
			for n, k := range []operations.RequestType{operations.RequestResponse, operations.FireAndForget, operations.RequestStream, operations.RequestChannel} {
				if types&(1<<n) == 0 {
					continue
				}
				d := operations.Export
				if string(bin) == "user" {
					d = operations.Import
					if both {
						ops = append(ops, operations.Operation{Type: k, Direction: operations.Export, Namespace: "n", Operation: "own"})
					}
				}
				ops = append(ops, operations.Operation{Type: k, Direction: d, Namespace: "n", Operation: "x"})
			}
			b := ops.ToBytes()
			or := &wmod.Region{Ptr: 0x20000, Size: uint32(len(b))}
			copy(or.Bytes(), b)
			m := &wmod.Mod{Host: h, Regions: []*wmod.Region{{Ptr: 0x1000, Size: 16384}, {Ptr: 0x10000, Size: 16384}, or}}
			m.Exports = map[string]wmod.Func{
				"__wasmrs_init": func(c context.Context, a ...uint64) error { m.Call(c, "__init_buffers", 0x1000, 0x10000); return nil },
				"__wasmrs_op_list_request": func(c context.Context, a ...uint64) error {
					m.Call(c, "__op_list", 0x20000, uint64(len(b)))
					return nil
				},
				"__wasmrs_send": func(c context.Context, a ...uint64) error { return nil },
			}
			return m, nil
		}
		g := mesh.New()
		t := &tracker{}
		if has == 1 {
			load(&tracker{}, g, "maker")
		}
		for i := 0; i < again; i++ {
			load(t, g, "user")
			if has == 2 && i == 0 {
				load(&tracker{}, g, "maker")
			}
		}
		t.checkBut(few)
		for i := 0; i < again; i++ {
			load(t, g, "maker")
		}
		t.checkBut(few)
		for i := 0; i < again; i++ {
			load(t, g, "user")
			load(t, g, "maker")
		}
		t.checkBut(few)
		runtime.KeepAlive(g)
		g.Close()
		vsched.Quiesce()
		c.State(types, has, both)
	})
}
