package main

import (
	"context"
	"encoding/binary"
	"fmt"
	"strings"

	"github.com/tetratelabs/wazero"
	"github.com/tetratelabs/wazero/api"

	"github.com/nanobus/iota/go/operations"
	"github.com/nanobus/iota/go/zzverif/invoketool"
	"github.com/nanobus/iota/go/zzverif/mc"
	"github.com/nanobus/iota/go/zzverif/mp"
	"github.com/nanobus/iota/go/zzverif/vsched"
	"github.com/nanobus/iota/go/zzverif/wire"
	"github.com/nanobus/iota/go/zzverif/wmod"
)

const (
	sendPtr = 0x1000
	recvPtr = 0x40000
	operPtr = 0x80000
)

const (
	RR = operations.RequestResponse
	RS = operations.RequestStream
	EX = operations.Export
	IM = operations.Import
)

func oper(d operations.Direction, ns, op string, t operations.RequestType, i uint32) operations.Operation {
	return operations.Operation{Index: i, Type: t, Direction: d, Namespace: ns, Operation: op}
}

// module is one the harness plays.
type module struct {
	*wmod.Mod
	name  string
	table operations.Table
	trap  bool // when asked for its operations
	calls []wire.Frame
	serve func(m *module, f wire.Frame) []wire.Frame
	made  int
}

var kinds = map[operations.RequestType]wire.Kind{RR: wire.RequestResponse, RS: wire.RequestStream}

// play makes these modules what the host instantiates, by the content of their files.
func play(ms ...*module) {
	wazero.ZZInstantiate = func(_ context.Context, bin []byte, h map[string]wazero.ZZHostFunc) (api.Module, error) {
		for _, m := range ms {
			if string(bin) == m.name {
				m.made++
				m.start(h)
				return m.Mod, nil
			}
		}
		return nil, fmt.Errorf("no module")
	}
}

func (m *module) start(h map[string]wazero.ZZHostFunc) {
	send, recv := &wmod.Region{Ptr: sendPtr}, &wmod.Region{Ptr: recvPtr}
	ops := m.table.ToBytes()
	or := &wmod.Region{Ptr: operPtr, Size: uint32(len(ops))}
	copy(or.Bytes(), ops)
	m.Mod = &wmod.Mod{Host: h, Regions: []*wmod.Region{send, recv, or}, Exports: map[string]wmod.Func{
		"__wasmrs_init": func(c context.Context, a ...uint64) error {
			send.Size, recv.Size = uint32(a[0]), uint32(a[1])
			m.Call(c, "__init_buffers", sendPtr, recvPtr)
			return nil
		},
		"__wasmrs_op_list_request": func(c context.Context, a ...uint64) error {
			if m.trap {
				return fmt.Errorf("trap")
			}
			m.Call(c, "__op_list", operPtr, uint64(len(ops)))
			return nil
		},
		"__wasmrs_send": func(c context.Context, a ...uint64) error {
			b := append([]byte(nil), send.Bytes()[:a[0]]...)
			send.Move(64)
			var out []byte
			for len(b) > 0 {
				n := int(b[0])<<16 | int(b[1])<<8 | int(b[2])
				f, ok := wire.Decode(b[3 : 3+n])
				if !ok {
					vsched.Fail("%s got bytes that are no frame", m.name)
				}
				b = b[3+n:]
				if f.Kind.IsRequest() {
					m.calls = append(m.calls, f)
				}
				for _, r := range m.serve(m, f) {
					e := wire.Encode(r)
					out = append(append(out, wire.U24(len(e))...), e...)
				}
			}
			if len(out) > 0 {
				n := copy(recv.Bytes(), out)
				if n < len(out) {
					vsched.Fail("the answer of %s does not fit", m.name)
				}
				m.Call(c, "__send", uint64(len(out)))
				recv.Move(len(out))
			}
			return nil
		},
	}}
}

func answer(f wire.Frame, data []byte) []wire.Frame {
	return []wire.Frame{{Kind: wire.Payload, ID: f.ID, Next: true, Complete: true, Data: data}}
}

func decode(b []byte) (mp.Value, bool) {
	v, n, ok := mp.Decode(b)
	return v, ok && n == len(b)
}

// documents invokes an operation with a document that answers with another.
func documents(c *mc.Ctx) {
	d := pick(c)
	a, wide, bin := d, false, false
	switch c.Choose(4) {
	case 1:
		wide = true
	case 2:
		bin = true
	case 3:
		a = mc.Pick(c, few)
	}
	cmd := invoketool.InvokeCmd{Pretty: c.Bool(), Namespace: "ns", Operation: "op"}
	var in strings.Builder
	switch c.Choose(3) {
	case 0:
		d.write(&in, "", false)
	case 1:
		d.write(&in, " \n\t", true)
	case 2:
		d.write(&in, "\r\n", false)
	}
	m := &module{name: "module", table: operations.Table{oper(EX, "ns", "op", RR, 3)}, serve: func(m *module, f wire.Frame) []wire.Frame {
		return answer(f, a.pack(wide, bin))
	}}
	vsched.Run(c, vsched.Options{}, func() {
		play(m)
		cmd.Modules = []string{put("a.wasm", "module")}
		out, failure := run(in.String(), cmd.Run)
		if failure != "" || len(m.calls) != 1 {
			vsched.Fail("%v: %d calls, %s", d, len(m.calls), failure)
		}
		f := m.calls[0]
		v, ok := decode(f.Data)
		if f.Kind != wire.RequestResponse || string(f.Metadata) != "\x00\x00\x00\x03\x00\x00\x00\x00" || !ok || !d.is(v) {
			vsched.Fail("%v reached the module as %v: %v", d, f, v)
		}
		if e := outputs(out, a, cmd.Pretty, bin); e != "" {
			vsched.Fail("the answer %v: %s", a, e)
		}
	})
}

// broken gives what is not a document.
func broken(c *mc.Ctx) {
	var in string
	switch c.Choose(3) {
	case 0:
		whole := mc.Pick(c, []string{`{"a": [1, -2.5e3, true], "b": {"c": null}}`, `["x\u00e9", "\ud83d\ude00"]`, `"text"`, `true`})
		in = whole[:c.Choose(len(whole))]
	case 1:
		in = mc.Pick(c, []string{`1 2`, `{}}`, `[1,]`, `{"a":1,}`, `{a:1}`, `'a'`, `01`, `+1`, `.5`, `1.`, `nul`, "\"\n\"", `{"a" 1}`, `[1 2]`, `{1:2}`, "\xff", `"a" "b"`})
	case 2: // numbers of no type
		in = mc.Pick(c, []string{`1e999`, `-1e999`, `[1, 1e999]`})
	}
	m := &module{name: "module", table: operations.Table{oper(EX, "ns", "op", RR, 0)}, serve: func(m *module, f wire.Frame) []wire.Frame {
		return answer(f, []byte{0xc0})
	}}
	vsched.Run(c, vsched.Options{}, func() {
		play(m)
		out, failure := run(in, (&invoketool.InvokeCmd{Namespace: "ns", Operation: "op", Modules: []string{put("a.wasm", "module")}}).Run)
		vsched.Quiesce()
		if failure == "" || out != "" || len(m.calls) > 0 {
			vsched.Fail("%q: %d calls, printed %q, error %q", in, len(m.calls), out, failure)
		}
	})
}

// Ways a module answers.
const (
	value = iota
	refuses
	cutValue // the answer is not MessagePack
	nothing  // the answer is empty
	forwards // asks what it imports
	traps
	noKind // exports a stream of that name
	other  // exports another name
	ways
)

// modules invokes operations of several modules.
func modules(c *mc.Ctx, pre int) {
	way := c.Choose(ways)
	two := way == forwards || c.Bool()
	swap := two && c.Bool()
	idx := mc.Pick(c, []uint32{0, 300})
	if pre > 0 && (idx != 0 || way == traps) {
		c.Skip()
	}
	arg, ans := doc{lit: "5"}, doc{obj: true, keys: []string{"k"}, arr: []doc{{lit: "6"}}}
	first := &module{name: "first", trap: way == traps}
	second := &module{name: "second", table: operations.Table{oper(EX, "ns", "z", RR, 0), oper(EX, "up", "op", RR, 7)}}
	switch way {
	case noKind:
		first.table = operations.Table{oper(EX, "ns", "op", RS, idx)}
	case other:
		first.table = operations.Table{oper(EX, "ns", "o", RR, idx), oper(IM, "ns", "op", RR, 0)}
	default:
		first.table = operations.Table{oper(EX, "ns", "op", RR, idx), oper(IM, "up", "op", RR, 9)}
	}
	var asked uint32
	first.serve = func(m *module, f wire.Frame) []wire.Frame {
		if !f.Kind.IsRequest() {
			if f.ID == 1 && way == forwards { // the answer of the second: passed on
				f.ID = asked
				return []wire.Frame{f}
			}
			return nil
		}
		asked = f.ID
		switch way {
		case refuses:
			return []wire.Frame{{Kind: wire.Error, ID: f.ID, Code: 0x201, Data: []byte("no")}}
		case cutValue:
			return answer(f, ans.pack(false, false)[:3])
		case nothing:
			return answer(f, nil)
		case forwards:
			return []wire.Frame{{Kind: wire.RequestResponse, ID: 1, Metadata: binary.BigEndian.AppendUint32([]byte{0, 0, 0, 9}, f.ID), Data: f.Data}}
		}
		return answer(f, ans.pack(false, false))
	}
	second.serve = func(m *module, f wire.Frame) []wire.Frame {
		if f.Kind.IsRequest() {
			return answer(f, ans.pack(true, false))
		}
		return nil
	}
	vsched.Run(c, vsched.Options{Preemptions: pre}, func() {
		play(first, second)
		files := []string{put("a.wasm", "first")}
		if two {
			files = append(files, put("b.wasm", "second"))
		}
		if swap {
			files[0], files[1] = files[1], files[0]
		}
		out, failure := run(arg.String(), (&invoketool.InvokeCmd{Namespace: "ns", Operation: "op", Modules: files}).Run)
		vsched.Quiesce()
		calls := 1
		if way >= traps {
			calls = 0
		}
		if len(first.calls) != calls {
			vsched.Fail("the module was called %d times: %q, %s", len(first.calls), out, failure)
		}
		served := second.calls
		if way == forwards {
			if len(served) != 1 || string(served[0].Metadata[:4]) != "\x00\x00\x00\x07" || string(served[0].Data) != string(first.calls[0].Data) {
				vsched.Fail("the second module got %v", served)
			}
		} else if len(served) > 0 {
			vsched.Fail("the second module got %v", served)
		}
		if calls > 0 {
			f := first.calls[0]
			v, ok := decode(f.Data)
			if f.Kind != wire.RequestResponse || binary.BigEndian.Uint32(f.Metadata) != idx || !ok || !arg.is(v) {
				vsched.Fail("%v reached the module as %v", arg, f)
			}
		}
		switch way {
		case value, forwards:
			if e := outputs(out, ans, false, false); e != "" || failure != "" {
				vsched.Fail("the answer %v: %s %s", ans, e, failure)
			}
		default:
			if failure == "" || out != "" {
				vsched.Fail("no answer, but %q was printed, error %q", out, failure)
			}
		}
	})
}
