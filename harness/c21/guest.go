package main

import (
	"context"
	"fmt"
	"sort"
	"strings"
	"unsafe"

	"github.com/nanobus/iota/go/operations"
	ginvoke "github.com/nanobus/iota/go/zzguest/invoke"
	gpayload "github.com/nanobus/iota/go/zzguest/payload"
	gflux "github.com/nanobus/iota/go/zzguest/rx/flux"
	gmono "github.com/nanobus/iota/go/zzguest/rx/mono"
	"github.com/nanobus/iota/go/zzguest/transport/wasmrs/guest"
	"github.com/nanobus/iota/go/zzverif/mc"
)

var types = []operations.RequestType{operations.RequestResponse, operations.FireAndForget, operations.RequestStream, operations.RequestChannel}

// announced has a guest with n[direction][kind] operations list them.
func announced(c *mc.Ctx, n [2][4]int, name func(dir, kind, i int) (string, string)) {
	guest.ZZReset()
	ginvoke.ZZReset()
	guest.ZZHost["__init_buffers"] = func(a ...uint64) {}
	var got operations.Table
	lists := 0
	guest.ZZHost["__op_list"] = func(a ...uint64) {
		lists++
		t, err := operations.FromBytes(append([]byte(nil), unsafe.Slice((*byte)(unsafe.Pointer(uintptr(a[0]))), a[1])...))
		if err != nil {
			c.Failf("the table of %v operations does not decode: %v", n, err)
		}
		got = t
	}
	show := func(t operations.Table) string {
		var s []string
		for _, o := range t {
			s = append(s, fmt.Sprintf("%d %d %q %q = %d", o.Direction, o.Type, o.Namespace, o.Operation, o.Index))
		}
		sort.Strings(s)
		return strings.Join(s, "; ")
	}
	var want operations.Table
	most := 0
	for _, d := range n {
		for _, x := range d {
			most = max(most, x)
		}
	}
	for i := 0; i < most; i++ {
		for k := range types {
			for dir := range n {
				if i >= n[dir][k] {
					continue
				}
				ns, op := name(dir, k, i)
				c.Step()
				o := operations.Operation{Type: types[k], Namespace: ns, Operation: op, Index: uint32(i), Direction: operations.Export}
				if dir == 1 {
					o.Direction = operations.Import
					o.Index = []func(string, string) uint32{ginvoke.ImportRequestResponse, ginvoke.ImportFireAndForget, ginvoke.ImportRequestStream, ginvoke.ImportRequestChannel}[k](ns, op)
				} else {
					switch k {
					case 0:
						ginvoke.ExportRequestResponse(ns, op, func(context.Context, gpayload.Payload) gmono.Mono[gpayload.Payload] { return nil })
					case 1:
						ginvoke.ExportFireAndForget(ns, op, func(context.Context, gpayload.Payload) {})
					case 2:
						ginvoke.ExportRequestStream(ns, op, func(context.Context, gpayload.Payload) gflux.Flux[gpayload.Payload] { return nil })
					case 3:
						ginvoke.ExportRequestChannel(ns, op, func(context.Context, gpayload.Payload, gflux.Flux[gpayload.Payload]) gflux.Flux[gpayload.Payload] {
							return nil
						})
					}
				}
				want = append(want, o)
			}
		}
	}
	guest.ZZExports["__wasmrs_init"](16384, 16384, 16384)
	for rep := 0; rep < 2; rep++ {
		got = nil
		guest.ZZExports["__wasmrs_op_list_request"]()
		if a, b := show(got), show(want); a != b || lists != rep+1 {
			c.Failf("a guest with %v exports and %v imports lists, in %d tables, %s; want %s", n[0], n[1], lists, a, b)
		}
	}
	c.State(n)
}

// guests announce what they have registered.
func guests(c *mc.Ctx) {
	var n [2][4]int
	for d := range n {
		for k := range n[d] {
			n[d][k] = c.Choose(3)
		}
	}
	alike := c.Bool()
	announced(c, n, func(dir, kind, i int) (string, string) {
		if alike { // names that every kind and direction has
			return "n", fmt.Sprint("o", i)
		}
		return fmt.Sprint("n", dir, i), fmt.Sprint("o", kind)
	})
}

func manyOfGuests(c *mc.Ctx) {
	var n [2][4]int
	k := c.Choose(9)
	for d := range n {
		for i := range n[d] {
			if k == 8 || k == 4*d+i {
				n[d][i] = mc.Pick(c, []int{1, 60, 300})
			}
			if k == 8 {
				break
			}
		}
	}
	announced(c, n, func(dir, kind, i int) (string, string) {
		return fmt.Sprint("namespace", i%7), fmt.Sprint("operation", i)
	})
}
