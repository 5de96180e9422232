// C22: requests through a mesh reach the module that exports the operation.
package main

import (
	"context"
	"encoding/binary"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/tetratelabs/wazero"
	"github.com/tetratelabs/wazero/api"

	"github.com/nanobus/iota/go/operations"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transport/wasmrs/host"
	"github.com/nanobus/iota/go/transport/wasmrs/mesh"
	"github.com/nanobus/iota/go/zzverif/mc"
	"github.com/nanobus/iota/go/zzverif/neutral"
	"github.com/nanobus/iota/go/zzverif/peer"
	"github.com/nanobus/iota/go/zzverif/vsched"
	"github.com/nanobus/iota/go/zzverif/wire"
	"github.com/nanobus/iota/go/zzverif/wmod"
)

const (
	sendPtr = 0x1000
	recvPtr = 0x100000
	operPtr = 0x200000
)

const (
	RR = operations.RequestResponse
	FF = operations.FireAndForget
	RS = operations.RequestStream
	RC = operations.RequestChannel
	EX = operations.Export
	IM = operations.Import
)

var types = []operations.RequestType{RR, FF, RS, RC}

type key struct {
	ns, op string
	typ    operations.RequestType
}

func (k key) String() string { return fmt.Sprintf("%s.%s/%v", k.ns, k.op, k.typ) }

func oper(d operations.Direction, ns, op string, t operations.RequestType, i uint32) operations.Operation {
	return operations.Operation{Index: i, Type: t, Direction: d, Namespace: ns, Operation: op}
}

// tables are what modules can export and import.
var tables = []operations.Table{
	{oper(EX, "n", "x", RR, 0)},
	{oper(EX, "n", "y", RR, 0), oper(EX, "n", "x", RR, 3)},
	{oper(IM, "n", "x", RR, 0), oper(IM, "n", "x", RS, 300)},
	{oper(EX, "n", "x", RS, 1), oper(EX, "n", "x", RC, 2), oper(EX, "n", "x", FF, 3)},
	{oper(IM, "n", "y", RR, 0), oper(IM, "n", "x", RR, 1), oper(IM, "m", "x", RR, 258), oper(IM, "n", "x", RC, 65536), oper(IM, "n", "x", FF, 513)},
	{oper(EX, "m", "x", RR, 0), oper(IM, "n", "x", RR, 0), oper(IM, "m", "x", RR, 1)},
	{},
	{oper(IM, "n", "x", RR, 0), oper(EX, "n", "x", RR, 0), oper(EX, "n", "x", RC, 0)},
	{oper(EX, "m", "y", RC, 0), oper(EX, "n.m", "x", RR, 0), oper(EX, "", "n", RR, 1), oper(IM, "m", "y", RC, 5)},
	{oper(EX, "n", "x", RR, 256), oper(EX, "n", "x", FF, 1<<31)},
}

// other are operations no module exports.
var other = []key{{"n", "z", RR}, {"z", "x", RS}, {"", "x", RC}, {"n", "", FF}}

// inst is an instance of a module, which the harness plays.
type inst struct {
	*wmod.Mod
	g          *rig
	name       string
	i          *host.Instance
	table      operations.Table
	send, recv *wmod.Region
	ctx        context.Context
	out        []wire.Frame // what is sent at the end of the call
	streams    map[uint32]*stream
	calls      map[uint32]*call
	next       uint32
	todo       []func()
	replaced   bool
	running    bool
	slow       bool // answers nothing
	log        []string
	traps      bool
}

// stream is what the instance serves.
type stream struct {
	kind   wire.Kind
	idx    uint32
	credit int
	queue  []string
	ended  bool
}

// call is what the instance requests.
type call struct {
	got    []string
	term   string
	terms  int
	inputs int
	sent   int
}

func (i *inst) say(format string, a ...any) string { return i.name + "/" + fmt.Sprintf(format, a...) }

func (i *inst) frame(f wire.Frame) {
	vsched.Logf("%s gets %v", i.name, f)
	switch {
	case f.Kind.IsRequest():
		if len(f.Metadata) < 8 {
			i.out = append(i.out, wire.Frame{Kind: wire.Error, ID: f.ID, Code: 0x201, Data: []byte("Invalid metadata")})
			return
		}
		idx := binary.BigEndian.Uint32(f.Metadata)
		if f.Kind == wire.RequestFNF && string(f.Data) == "kick" {
			for _, t := range i.todo {
				t()
			}
			i.todo = nil
			return
		}
		i.log = append(i.log, fmt.Sprintf("%v@%d %s %x", f.Kind, idx, f.Data, f.Metadata[4:]))
		if i.slow {
			return
		}
		switch f.Kind {
		case wire.RequestResponse:
			i.out = append(i.out, wire.Frame{Kind: wire.Payload, ID: f.ID, Next: true, Complete: true, Data: []byte(i.say("%d %s", idx, f.Data))})
		case wire.RequestStream:
			s := &stream{kind: f.Kind, idx: idx, credit: int(f.N), queue: []string{i.say("%d %s 0", idx, f.Data), i.say("%d %s 1", idx, f.Data)}, ended: true}
			i.streams[f.ID] = s
			i.pump(f.ID, s)
		case wire.RequestChannel:
			s := &stream{kind: f.Kind, idx: idx, credit: int(f.N)}
			i.streams[f.ID] = s
			i.out = append(i.out, wire.Frame{Kind: wire.RequestN, ID: f.ID, N: 5})
			s.queue = append(s.queue, i.say("%d %s", idx, f.Data))
			i.pump(f.ID, s)
		}
	case i.streams[f.ID] != nil:
		s := i.streams[f.ID]
		switch f.Kind {
		case wire.RequestN:
			s.credit += int(f.N)
		case wire.Payload:
			if f.Next {
				s.queue = append(s.queue, i.say("%d %s", s.idx, f.Data))
			}
			s.ended = s.ended || f.Complete
		case wire.Error:
			s.ended = true
		case wire.Cancel:
			delete(i.streams, f.ID)
			return
		}
		i.pump(f.ID, s)
	case i.calls[f.ID] != nil:
		c := i.calls[f.ID]
		switch f.Kind {
		case wire.Payload:
			if f.Next {
				c.got = append(c.got, string(f.Data))
			}
			if f.Complete {
				c.term = "complete"
				c.terms++
			}
		case wire.Error:
			c.term = "error"
			c.terms++
		case wire.RequestN:
			for n := int(f.N); n > 0 && c.sent < c.inputs; n-- {
				i.out = append(i.out, wire.Frame{Kind: wire.Payload, ID: f.ID, Next: true, Data: []byte(fmt.Sprintf("in%d", c.sent))})
				c.sent++
			}
			if c.sent == c.inputs {
				c.sent++
				i.out = append(i.out, wire.Frame{Kind: wire.Payload, ID: f.ID, Complete: true})
			}
		}
	}
}

func (i *inst) pump(id uint32, s *stream) {
	for len(s.queue) > 0 && s.credit > 0 {
		s.credit--
		i.out = append(i.out, wire.Frame{Kind: wire.Payload, ID: id, Next: true, Data: []byte(s.queue[0])})
		s.queue = s.queue[1:]
	}
	if s.ended && len(s.queue) == 0 {
		i.out = append(i.out, wire.Frame{Kind: wire.Payload, ID: id, Complete: true})
		delete(i.streams, id)
	}
}

func (i *inst) flush() {
	var b []byte
	for _, f := range i.out {
		e := wire.Encode(f)
		b = append(append(b, wire.U24(len(e))...), e...)
	}
	i.out = nil
	if len(b) == 0 {
		return
	}
	copy(i.recv.Bytes(), b)
	i.Call(i.ctx, "__send", uint64(len(b)))
	i.recv.Move(len(b))
}

// rig is a mesh with its modules.
type rig struct {
	m       *mesh.Mesh
	insts   []*inst
	loads   map[string]int
	current map[string]*inst
	exports map[key]*inst
	index   map[key]uint32
	spec    map[string][]operations.Table // by file: the tables of its loads
	bad     map[string]bool
	opened  []*inst
	many    bool // judge by the tables of what was loaded
}

var dir = func() string {
	d, err := os.MkdirTemp("", "mesh")
	if err != nil {
		panic(err)
	}
	names := []string{"a", "b", "c"}
	for i := 0; i < 40; i++ {
		names = append(names, fmt.Sprint("m", i))
	}
	for _, f := range names {
		err := os.Mkdir(filepath.Join(d, f), 0o755)
		if err == nil {
			err = os.WriteFile(filepath.Join(d, f, "module.wasm"), []byte(f), 0o644)
		}
		if err != nil {
			panic(err)
		}
	}
	return d
}()

// file is where a module is: all have the same name, in different places.
func file(name string) string { return filepath.Join(dir, name, "module.wasm") }

func newRig() *rig {
	g := &rig{m: mesh.New(), loads: map[string]int{}, current: map[string]*inst{}, exports: map[key]*inst{}, index: map[key]uint32{}, spec: map[string][]operations.Table{}, bad: map[string]bool{}}
	wazero.ZZInstantiate = func(_ context.Context, bin []byte, h map[string]wazero.ZZHostFunc) (api.Module, error) {
		name := string(bin)
		if g.bad[name] {
			return nil, fmt.Errorf("not a module")
		}
		if g.loads[name] >= len(g.spec[name]) {
			vsched.Fail("module %q instantiated %d times", name, g.loads[name]+1)
		}
		i := &inst{g: g, name: fmt.Sprintf("%s%d", name, g.loads[name]), table: g.spec[name][g.loads[name]],
			send: &wmod.Region{Ptr: sendPtr}, recv: &wmod.Region{Ptr: recvPtr}, streams: map[uint32]*stream{}, calls: map[uint32]*call{}, next: 1}
		g.loads[name]++
		g.opened = append(g.opened, i)
		ops := i.table.ToBytes()
		or := &wmod.Region{Ptr: operPtr, Size: uint32(len(ops))}
		copy(or.Bytes(), ops)
		i.Mod = &wmod.Mod{Host: h, Regions: []*wmod.Region{i.send, i.recv, or}, Exports: map[string]wmod.Func{
			"__wasmrs_init": func(c context.Context, a ...uint64) error {
				i.send.Size, i.recv.Size = uint32(a[0]), uint32(a[1])
				i.Call(c, "__init_buffers", sendPtr, recvPtr)
				return nil
			},
			"__wasmrs_op_list_request": func(c context.Context, a ...uint64) error {
				if i.traps {
					return fmt.Errorf("trap")
				}
				i.Call(c, "__op_list", operPtr, uint64(len(ops)))
				return nil
			},
			"__wasmrs_send": func(c context.Context, a ...uint64) error {
				if i.running {
					vsched.Fail("%s is called while it runs", i.name)
				}
				i.running, i.ctx = true, c
				b := append([]byte(nil), i.send.Bytes()[:a[0]]...)
				i.send.Move(64)
				for len(b) > 0 {
					n := int(b[0])<<16 | int(b[1])<<8 | int(b[2])
					f, ok := wire.Decode(b[3 : 3+n])
					if !ok {
						vsched.Fail("%s got bytes that are no frame", i.name)
					}
					b = b[3+n:]
					i.frame(f)
				}
				i.flush()
				i.running = false
				return nil
			},
		}}
		return i.Mod, nil
	}
	return g
}

// load loads the next version of a file.
func (g *rig) load(name string, t operations.Table) *inst {
	g.spec[name] = append(g.spec[name], t)
	n := len(g.opened)
	i, err := g.m.LoadModule(context.Background(), file(name))
	if err != nil {
		vsched.Fail("LoadModule(%s): %v", name, err)
	}
	if len(g.opened) != n+1 {
		vsched.Fail("LoadModule(%s) made %d instances", name, len(g.opened)-n)
	}
	in := g.opened[n]
	in.i = i
	g.loaded(name, in)
	return in
}

// loaded updates the model.
func (g *rig) loaded(name string, in *inst) {
	if old := g.current[name]; old != nil {
		old.replaced = true
		for k, v := range g.exports {
			if v == old {
				delete(g.exports, k)
			}
		}
	}
	g.current[name] = in
	g.insts = append(g.insts, in)
	for _, op := range in.table {
		if op.Direction == EX {
			k := key{op.Namespace, op.Operation, op.Type}
			g.exports[k], g.index[k] = in, op.Index
		}
	}
}

// outcome is what became of a request of the program.
type outcome struct {
	got   []string
	term  string
	terms int
}

func (o *outcome) end(t string) { o.term = t; o.terms++ }

func (o *outcome) String() string { return fmt.Sprintf("%q then %s", o.got, o.term) }

var tail = []byte{0, 0, 0, 0}

// request makes a request of the program.
func (g *rig) request(k key, data string) *outcome {
	o := &outcome{}
	md := append([]byte{0xde, 0xad, 0xbe, 0xef}, tail...)
	b := []byte(data)
	p := payload.New(b, md)
	ctx := context.Background()
	sub := flux.Subscribe[payload.Payload]{
		OnNext:     func(p payload.Payload) { o.got = append(o.got, string(p.Data())) },
		OnComplete: func() { o.end("complete") }, OnError: func(err error) { o.end("error") },
	}
	switch k.typ {
	case RR:
		m := g.m.RequestResponse(ctx, k.ns, k.op, p)
		if m == nil {
			vsched.Fail("RequestResponse(%v) returns nothing", k)
		}
		m.Subscribe(mono.Subscribe[payload.Payload]{OnSuccess: func(p payload.Payload) { o.got = append(o.got, string(p.Data())); o.end("complete") }, OnError: func(error) { o.end("error") }})
	case FF:
		g.m.FireAndForget(ctx, k.ns, k.op, p)
	case RS:
		f := g.m.RequestStream(ctx, k.ns, k.op, p)
		if f == nil {
			vsched.Fail("RequestStream(%v) returns nothing", k)
		}
		f.Subscribe(sub)
	case RC:
		f := g.m.RequestChannel(ctx, k.ns, k.op, p, flux.FromSlice([]payload.Payload{payload.New([]byte("in0")), payload.New([]byte("in1"))}))
		if f == nil {
			vsched.Fail("RequestChannel(%v) returns nothing", k)
		}
		f.Subscribe(sub)
	}
	vsched.Quiesce()
	if string(md) != "\xde\xad\xbe\xef\x00\x00\x00\x00" || string(b) != data {
		vsched.Fail("the payload of the caller is %q %x after the request", b, md)
	}
	return o
}

// want is the outcome of a request at an instance.
func want(k key, in *inst, idx uint32, data string) *outcome {
	o := &outcome{}
	if in == nil {
		if k.typ != FF {
			o.end("error")
		}
		return o
	}
	switch k.typ {
	case RR:
		o.got = []string{in.say("%d %s", idx, data)}
		o.end("complete")
	case RS:
		o.got = []string{in.say("%d %s 0", idx, data), in.say("%d %s 1", idx, data)}
		o.end("complete")
	case RC:
		o.got = []string{in.say("%d %s", idx, data), in.say("%d in0", idx), in.say("%d in1", idx)}
		o.end("complete")
	}
	return o
}

var kinds = map[operations.RequestType]wire.Kind{RR: wire.RequestResponse, FF: wire.RequestFNF, RS: wire.RequestStream, RC: wire.RequestChannel}

func wantLog(k key, in *inst, idx uint32, data string) map[*inst]string {
	if in == nil {
		return map[*inst]string{}
	}
	return map[*inst]string{in: fmt.Sprintf("%v@%d %s 00000000", kinds[k.typ], idx, data)}
}

// logs checks that exactly the right instance was asked, and forgets it.
func (g *rig) logs(what string, want map[*inst]string) {
	for _, i := range g.insts {
		if got := strings.Join(i.log, "; "); got != want[i] {
			vsched.Fail("%s: %s was asked for %q instead of %q", what, i.name, got, want[i])
		}
		i.log = nil
	}
}

// later makes the request of an instance through its import.
func (g *rig) later(i *inst, op operations.Operation, data string) *call {
	c := &call{inputs: 2}
	id := i.next
	i.next += 2
	i.todo = append(i.todo, func() {
		i.calls[id] = c
		md := binary.BigEndian.AppendUint32(nil, op.Index)
		i.out = append(i.out, wire.Frame{Kind: kinds[op.Type], ID: id, N: 100, Metadata: append(md, tail...), Data: []byte(data)})
	})
	(peer.Caller{C: i.i}).FireAndForget(neutral.Payload{Data: "kick", Meta: "\x00\x00\x00\x00\x00\x00\x00\x00"})
	return c
}

// judge makes every request there is and compares with the model.
func (g *rig) judge() {
	all := append([]key(nil), other...)
	ts := append([]operations.Table(nil), tables...)
	if g.many {
		ts = nil
		for _, in := range g.insts {
			ts = append(ts, in.table)
		}
	}
	for _, t := range ts {
		for _, op := range t {
			all = append(all, key{op.Namespace, op.Operation, op.Type})
		}
	}
	sort.Slice(all, func(a, b int) bool { return all[a].String() < all[b].String() })
	for n, k := range all {
		if n > 0 && k == all[n-1] {
			continue
		}
		in, idx := g.exports[k], g.index[k]
		o := g.request(k, "r")
		if w := want(k, in, idx, "r"); o.String() != w.String() || o.terms != w.terms {
			vsched.Fail("a request for %v got %v (%d terminals) instead of %v", k, o, o.terms, w)
		}
		g.logs("a request for "+k.String(), wantLog(k, in, idx, "r"))
	}
	for _, i := range g.insts {
		if i.replaced {
			continue
		}
		for _, op := range i.table {
			if op.Direction == IM {
				k := key{op.Namespace, op.Operation, op.Type}
				c := g.later(i, op, "q")
				vsched.Quiesce()
				g.judgeCall(i, k, c)
			}
		}
	}
}

func (g *rig) judgeCall(i *inst, k key, c *call) {
	in, idx := g.exports[k], g.index[k]
	o := &outcome{c.got, c.term, c.terms}
	if w := want(k, in, idx, "q"); o.String() != w.String() || o.terms != w.terms {
		vsched.Fail("the request of %s for %v got %v (%d terminals) instead of %v", i.name, k, o, o.terms, w)
	}
	g.logs("the request of "+i.name+" for "+k.String(), wantLog(k, in, idx, "q"))
}

func (g *rig) state() string {
	s := ""
	for k, in := range g.exports {
		s += fmt.Sprint(k, in.name, g.index[k], ";")
	}
	p := strings.Split(s, ";")
	sort.Strings(p)
	return strings.Join(p, ";")
}

func run(c *mc.Ctx, pre int, f func() *rig) {
	vsched.Run(c, vsched.Options{Preemptions: pre, Fine: true, MaxSteps: 400000}, func() {
		g := f()
		c.State(g.state())
	})
}

// ambiguous tells whether a replaced module hid another one's operation,
// whose exporter then depends on taste.
func ambiguous(seq []step) bool {
	last := map[string]operations.Table{}
	owner := map[key]string{}
	had := map[key]map[string]bool{}
	for _, s := range seq {
		now := map[key]bool{}
		for _, op := range tables[s.t] {
			if op.Direction == EX {
				now[key{op.Namespace, op.Operation, op.Type}] = true
			}
		}
		for _, op := range last[s.f] {
			k := key{op.Namespace, op.Operation, op.Type}
			if op.Direction == EX && !now[k] {
				if owner[k] == s.f && len(had[k]) > 1 {
					return true
				}
				delete(had[k], s.f)
			}
		}
		for k := range now {
			owner[k] = s.f
			if had[k] == nil {
				had[k] = map[string]bool{}
			}
			had[k][s.f] = true
		}
		last[s.f] = tables[s.t]
	}
	return false
}

type step struct {
	f string
	t int
}

func pick(c *mc.Ctx, xs ...int) int { return mc.Pick(c, xs) }

func main() {
	depth, p1 := mc.Bound(3, 4), mc.Bound(1, 2)
	mc.Main(mc.Config{
		ID:     "C22",
		Rule:   "all sequences of loading and reloading modules with every combination of operation tables, after each of which every request the program or a module can make is made; loads that fail; loads racing with requests and with each other",
		Bounds: fmt.Sprintf("<=%d loads of 3 files with %d tables each; <=40 modules and <=150 operations of a module, %d in all; races with <=%d preemptions at statement granularity", depth, len(tables), mc.Bound(300, 1000), p1),
		Scenarios: []mc.Scenario{
			{Name: "loads", Body: func(c *mc.Ctx) {
				files := []string{"a", "b", "c"}
				var seq []step
				used := 0
				for i := 0; i < depth; i++ {
					n := used + 1
					if n > len(files) {
						n = len(files)
					}
					k := c.Choose(n + 1)
					if k == 0 {
						break
					}
					if k > used {
						used = k
					}
					seq = append(seq, step{files[k-1], c.Choose(len(tables))})
				}
				if ambiguous(seq) {
					c.Skip()
				}
				run(c, 0, func() *rig {
					g := newRig()
					for _, s := range seq {
						g.load(s.f, tables[s.t])
					}
					g.judge()
					return g
				})
			}},
			{Name: "requests between loads", Body: func(c *mc.Ctx) { // what was asked before does not stick
				seq := []step{{"a", c.Choose(len(tables))}, {mc.Pick(c, []string{"a", "b"}), c.Choose(len(tables))}, {mc.Pick(c, []string{"a", "b"}), c.Choose(len(tables))}}
				if ambiguous(seq) {
					c.Skip()
				}
				run(c, 0, func() *rig {
					g := newRig()
					g.judge()
					for _, s := range seq {
						g.load(s.f, tables[s.t])
						g.judge()
					}
					return g
				})
			}},
			{Name: "many modules", Body: func(c *mc.Ctx) {
				n := mc.Pick(c, []int{2, 7, 20, 40})
				ops := mc.Pick(c, []int{1, 6, 40, 150})
				if n*ops > mc.Bound(300, 1000) {
					c.Skip()
				}
				imports, reload := c.Choose(3), c.Choose(4)
				run(c, 0, func() *rig {
					g := newRig()
					g.many = true
					table := func(i, v int) (t operations.Table) {
						for j := 0; j < ops; j++ {
							t = append(t, oper(EX, fmt.Sprint("n", i), fmt.Sprintf("o%d.%d", j, v), types[(i+j)%4], uint32(37*j+v)))
						}
						for j := 0; j < ops; j++ {
							k := (i + []int{1, n - 1, n / 2}[imports]) % n // exported later, before, or by any
							t = append(t, oper(IM, fmt.Sprint("n", k), fmt.Sprintf("o%d.0", j), types[(k+j)%4], uint32(41*j)))
						}
						return t
					}
					for i := 0; i < n; i++ {
						g.load(fmt.Sprint("m", i), table(i, 0))
					}
					for i := 0; i < n && reload > 0; i += 3 {
						g.load(fmt.Sprint("m", i), table(i, reload-1))
						if reload == 3 {
							g.load(fmt.Sprint("m", i), table(i, 0))
						}
					}
					g.judge()
					return g
				})
			}},
			{Name: "failed loads", Body: func(c *mc.Ctx) {
				how := c.Choose(4)
				before, after := c.Choose(3), c.Choose(2)
				run(c, 0, func() *rig {
					g := newRig()
					for i := 0; i < before; i++ {
						g.load("a", tables[1])
						g.load("b", tables[2])
					}
					name := "a"
					switch how {
					case 0:
						name = "missing"
					case 1:
						g.bad["a"] = true
					case 2: // it fails while it starts
						next := wazero.ZZInstantiate
						wazero.ZZInstantiate = func(ctx context.Context, b []byte, h map[string]wazero.ZZHostFunc) (api.Module, error) {
							m, err := next(ctx, b, h)
							wazero.ZZInstantiate = next
							g.opened[len(g.opened)-1].traps = true
							return m, err
						}
						g.spec["a"] = append(g.spec["a"], tables[0])
					case 3:
						name = "b" // LoadModules stops at the first
						g.bad["b"] = true
					}
					var err error
					if how == 3 {
						g.spec["c"] = append(g.spec["c"], tables[8])
						n := len(g.opened)
						err = g.m.LoadModules(context.Background(), file("c"), file("b"), file("missing"))
						in := g.opened[n]
						g.loaded("c", in)
						in.i = nil
						in.replaced = true // its requests are not made, as LoadModules does not return it
					} else {
						_, err = g.m.LoadModule(context.Background(), file(name))
					}
					if err == nil {
						vsched.Fail("LoadModule(%s) reports no error", name)
					}
					g.judge()
					g.bad = map[string]bool{}
					if after == 1 {
						g.load("a", tables[3])
						g.load("b", tables[4])
						g.judge()
					}
					return g
				})
			}},
			{Name: "what is pending at a reload", Body: func(c *mc.Ctx) {
				typ := mc.Pick(c, types)
				answered, from := c.Bool(), c.Choose(2)
				run(c, p1, func() *rig {
					g := newRig()
					all := operations.Table{oper(EX, "n", "x", RR, 0), oper(EX, "n", "x", FF, 0), oper(EX, "n", "x", RS, 0), oper(EX, "n", "x", RC, 0)}
					imp := operations.Table{oper(IM, "n", "x", RR, 0), oper(IM, "n", "x", FF, 0), oper(IM, "n", "x", RS, 0), oper(IM, "n", "x", RC, 0)}
					old := g.load("a", all)
					b := g.load("b", imp)
					old.slow = true
					k := key{"n", "x", typ}
					var o *outcome
					var cl *call
					if from == 0 {
						o = g.request(k, "r")
					} else {
						cl = g.later(b, oper(IM, "n", "x", typ, 0), "r")
						vsched.Quiesce()
					}
					g.logs("before the reload", map[*inst]string{old: fmt.Sprintf("%v@0 r 00000000", kinds[typ])})
					g.load("a", all)
					get := func() (int, string) {
						if o != nil {
							return o.terms, o.term
						}
						return cl.terms, cl.term
					}
					if n, t := get(); n != 0 {
						vsched.Fail("a pending request ended with %s at a reload", t)
					}
					g.judge()
					if answered && typ != FF {
						// The old instance gets a call, and answers in it.
						old.todo = append(old.todo, func() {
							old.out = append(old.out, wire.Frame{Kind: wire.Payload, ID: 2, Next: true, Complete: true, Data: []byte("late")})
							if typ == RC {
								old.out = append(old.out, wire.Frame{Kind: wire.Cancel, ID: 2})
							}
						})
						(peer.Caller{C: old.i}).FireAndForget(neutral.Payload{Data: "kick", Meta: "\x00\x00\x00\x00\x00\x00\x00\x00"})
						vsched.Quiesce()
						if n, t := get(); n != 1 || t != "complete" {
							vsched.Fail("the request that was pending at a reload ended %d times: %q", n, t)
						}
					}
					if typ != FF && !answered { // the old instance is closed some time later
						vsched.Wait("the end of the replaced instance", func() bool { n, _ := get(); return n > 0 })
						vsched.Quiesce()
						if n, t := get(); n != 1 || t != "error" {
							vsched.Fail("the request that was pending at a replaced instance ended %d times: %q", n, t)
						}
					}
					g.judge()
					return g
				})
			}},
			{Name: "requests during a reload", Body: func(c *mc.Ctx) {
				typ := mc.Pick(c, types)
				from := c.Choose(2)
				first := c.Bool() // or the first load
				run(c, p1, func() *rig {
					g := newRig()
					exp := func(i uint32) operations.Table {
						return operations.Table{oper(EX, "n", "w", RR, 9), oper(EX, "n", "x", typ, i)}
					}
					if !first {
						g.load("a", exp(0))
					}
					b := g.load("b", operations.Table{oper(IM, "n", "x", typ, 0)})
					k := key{"n", "x", typ}
					done := false
					vsched.GoNamed("load", func() { g.load("a", exp(1)); done = true })
					var o *outcome
					var cl *call
					if from == 0 {
						o = g.request(k, "q")
					} else {
						cl = g.later(b, oper(IM, "n", "x", typ, 0), "q")
						vsched.Quiesce()
					}
					if !done {
						vsched.Fail("LoadModule does not return")
					}
					if cl != nil {
						o = &outcome{cl.got, cl.term, cl.terms}
					}
					ok := false
					var in *inst
					var idx uint32
					for n, i := range g.opened[:len(g.opened)] {
						if i == b {
							continue
						}
						x := uint32(1)
						if !first && n == 0 {
							x = 0
						}
						if w := want(k, i, x, "q"); o.String() == w.String() && o.terms == w.terms {
							if typ != FF || len(i.log) > 0 {
								ok, in, idx = true, i, x
							}
						}
					}
					if w := want(k, nil, 0, "q"); first && !ok && o.String() == w.String() {
						ok = true
					}
					if !ok {
						vsched.Fail("a request for %v during a load got %v", k, o)
					}
					g.logs("a request during a load", wantLog(k, in, idx, "q"))
					g.judge()
					return g
				})
			}},
			{Name: "two loads", Body: func(c *mc.Ctx) {
				t1, t2 := c.Choose(len(tables)), c.Choose(len(tables))
				same := c.Bool()
				run(c, p1, func() *rig {
					g := newRig()
					f2 := "b"
					if same {
						f2 = "a"
					}
					g.spec["a"] = append(g.spec["a"], tables[t1])
					g.spec[f2] = append(g.spec[f2], tables[t2])
					hs := map[string][]*host.Instance{}
					n := 0
					for _, f := range []string{"a", f2} {
						f := f
						vsched.GoNamed("load "+f, func() {
							i, err := g.m.LoadModule(context.Background(), file(f))
							if err != nil {
								vsched.Fail("LoadModule: %v", err)
							}
							hs[f] = append(hs[f], i)
							n++
						})
					}
					vsched.Quiesce()
					if n != 2 {
						vsched.Fail("%d of 2 loads returned", n)
					}
					g.settle(hs, same)
					return g
				})
			}},
			{Name: "closing", Body: func(c *mc.Ctx) {
				loads, typ := c.Choose(3), mc.Pick(c, types)
				run(c, p1, func() *rig {
					g := newRig()
					all := operations.Table{oper(EX, "n", "x", RR, 0), oper(EX, "n", "x", FF, 0), oper(EX, "n", "x", RS, 0), oper(EX, "n", "x", RC, 0)}
					for i := 0; i < loads; i++ {
						g.load([]string{"a", "b"}[i], all).slow = true
					}
					k := key{"n", "x", typ}
					o := g.request(k, "r")
					g.m.Close()
					vsched.Quiesce()
					if typ != FF && (o.terms != 1 || o.term != "error") {
						vsched.Fail("a request ended %d times with %q when the mesh was closed", o.terms, o.term)
					}
					o = g.request(k, "r")
					if typ != FF && (o.terms != 1 || o.term != "error") {
						vsched.Fail("a request after Close: %v", o)
					}
					if b := vsched.Blocked(); len(b) > 0 {
						vsched.Fail("goroutines are left after Close: %v", b)
					}
					return g
				})
			}},
		},
		Assumptions: []string{"the WebAssembly engine is replaced and the harness plays the modules", "what a reload removes is gone; which older module then serves an operation that the removed one had hidden is left open"},
	})
}

// settle checks a mesh after two concurrent loads, in whichever order they
// took effect.
func (g *rig) settle(hs map[string][]*host.Instance, same bool) {
	a, b := g.opened[0], g.opened[1]
	// Which of the two is the last is only visible through what they share.
	last := map[*inst]bool{}
	for _, op := range a.table {
		for _, op2 := range b.table {
			k := key{op.Namespace, op.Operation, op.Type}
			if op.Direction == EX && op2.Direction == EX && k == (key{op2.Namespace, op2.Operation, op2.Type}) {
				g.insts = []*inst{a, b}
				o := g.request(k, "s")
				for _, i := range g.insts {
					if len(i.log) > 0 {
						last[i] = true
					}
					i.log = nil
				}
				if k.typ != FF && (o.terms != 1 || o.term != "complete") {
					vsched.Fail("a request for %v after two loads: %v", k, o)
				}
			}
		}
	}
	if len(last) > 1 {
		vsched.Fail("after two loads each wins for some operation")
	}
	if len(last) == 0 && same {
		// the one whose operations are found
		for _, i := range []*inst{a, b} {
			for _, op := range i.table {
				if op.Direction == EX && op.Type != FF {
					g.insts = []*inst{a, b}
					if o := g.request(key{op.Namespace, op.Operation, op.Type}, "s"); o.term == "complete" {
						last[i] = true
					}
				}
			}
		}
		a.log, b.log = nil, nil
		if len(last) > 1 {
			vsched.Fail("after two loads of one file the operations of both are there")
		}
		if len(last) == 0 {
			return
		}
	}
	g.insts = nil
	order := []*inst{a, b}
	if last[a] {
		order = []*inst{b, a}
	}
	for _, i := range order {
		name := i.name[:1]
		for _, h := range hs[name] {
			if len(hs[name]) == 1 {
				i.i = h
			}
		}
		if i.i == nil { // which of the two handles is its own is not known
			i.replaced = true
		}
		rep := i.replaced
		g.loaded(name, i)
		i.replaced = rep
	}
	g.judge()
}
