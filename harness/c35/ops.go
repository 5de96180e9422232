package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/nanobus/iota/go/operations"
	"github.com/nanobus/iota/go/zzverif/mc"
	"github.com/nanobus/iota/go/zzverif/opstool"
	"github.com/nanobus/iota/go/zzverif/vsched"
)

const head = "\x00asm\x01\x00\x00\x00"

func leb(n int) (b string) {
	for ; n > 127; n >>= 7 {
		b += string([]byte{byte(n) | 0x80})
	}
	return b + string([]byte{byte(n)})
}

func section(id byte, body string) string { return string([]byte{id}) + leb(len(body)) + body }

func custom(name, body string) string { return section(0, leb(len(name))+name+body) }

// parts are sections of a module, in the order they must have.
var parts = []string{
	custom("dylink.0", "\x01\x02\x00\x00"),
	section(1, "\x01\x60\x00\x00") + section(3, "\x01\x00"), // type, function
	section(5, "\x01\x00\x01"),                              // memory
	custom("between", "xyz"),                                //
	section(7, "\x01\x01m\x02\x00"),                         // export of the memory
	section(12, "\x01"),                                     // data count
	section(10, "\x01\x02\x00\x0b"),                         // code
	section(11, "\x01\x01\x02hi"),                           // data
	custom("name", "\x00\x02\x01m\x07\x01\x00"),             // the module's, and one of the later kinds
	custom("producers", "\x00"),
}

// Some sections need others.
var needs = map[int]int{4: 2, 5: 7, 6: 1, 1: 6, 7: 5}

var opTables = []operations.Table{
	{},
	{oper(EX, "ns", "op", RR, 0)},
	{oper(EX, "ns", "op", RR, 0), oper(IM, "ns", "op", RR, 1), oper(EX, "n.s", "éop", RS, 70000)},
	{oper(IM, "a", "b", operations.RequestChannel, 1<<32-1), oper(IM, "a", "c", operations.FireAndForget, 256)},
	{oper(EX, "ns", strings.Repeat("long", 40), RR, 1), oper(EX, "ns", "x", RR, 2)},
	func() (t operations.Table) {
		for i := uint32(0); i < 200; i++ {
			t = append(t, oper(EX, "many", fmt.Sprintf("op%d", i), RR, i))
		}
		return
	}(),
}

// listed tells what is wrong with the table that was printed last.
func listed(out string, t operations.Table) string {
	i := strings.LastIndex(out, "WasmRS operation table")
	if i < 0 {
		return "no table"
	}
	var rows [][]string
	for _, l := range strings.Split(out[i:], "\n")[1:] {
		if w := strings.Fields(l); len(w) > 0 {
			rows = append(rows, w)
		}
	}
	if len(rows) != len(t)+1 {
		return fmt.Sprintf("%d rows for %d operations", len(rows), len(t))
	}
	dirs := map[operations.Direction]string{EX: "export", IM: "import"}
	types := map[operations.RequestType]string{RR: "requestresponse", RS: "requeststream", operations.RequestChannel: "requestchannel", operations.FireAndForget: "fireandforget"}
	for i, op := range t {
		want := []string{op.Namespace, op.Operation, dirs[op.Direction], types[op.Type], fmt.Sprint(op.Index)}
		got := append([]string(nil), rows[i+1]...)
		for j := 2; j < len(got) && j < 4; j++ {
			got[j] = strings.ToLower(strings.NewReplacer("_", "", "-", "", " ", "").Replace(got[j]))
		}
		if fmt.Sprint(got) != fmt.Sprint(want) {
			return fmt.Sprintf("row %q for %q", rows[i+1], want)
		}
	}
	return ""
}

// ops runs the command.
func ops(file string) (out, failure string) {
	old := os.Args
	defer func() { os.Args = old }()
	os.Args = []string{"wasmrs-ops", file}
	return run("", func() error { opstool.Main(); return nil })
}

// record runs the command on modules.
func record(c *mc.Ctx) {
	bin, have := head, map[int]bool{}
	for i := range parts {
		have[i] = c.Bool()
	}
	for i, n := range needs {
		if have[i] && !have[n] {
			c.Skip()
		}
	}
	t := mc.Pick(c, opTables)
	recorded := c.Choose(4) // not, at the start, among the others, at the end
	old := opTables[2]
	sect := custom("wasmrs_ops", string(old.ToBytes()))
	for i, p := range parts {
		if recorded == 1 && i == 1 || recorded == 2 && i == 4 {
			bin += sect
		}
		if have[i] {
			bin += p
		}
	}
	if recorded == 3 {
		bin += sect
	}
	if recorded != 0 && len(t) != 1 {
		c.Skip()
	}
	m := &module{name: bin, table: t}
	vsched.Run(c, vsched.Options{}, func() {
		play(m)
		file := put("m.wasm", bin)
		out, failure := ops(file)
		after := get(file)
		want := bin
		if recorded != 0 {
			t = old
			if m.made > 0 {
				vsched.Fail("the module ran although its operations are recorded")
			}
		} else {
			want += custom("wasmrs_ops", string(t.ToBytes()))
		}
		if failure != "" {
			vsched.Fail("%x: %s", bin, failure)
		}
		if after != want {
			vsched.Fail("the module %x with the operations %x became %x", bin, t.ToBytes(), after)
		}
		if e := listed(out, t); e != "" {
			vsched.Fail("printed %q: %s", out, e)
		}
		// Once more.
		play(&module{name: after, trap: true})
		out, failure = ops(file)
		if failure != "" || get(file) != after {
			vsched.Fail("the second time: %s, %x became %x", failure, after, get(file))
		}
		if e := listed(out, t); e != "" {
			vsched.Fail("the second time printed %q: %s", out, e)
		}
	})
}

// oddFiles runs the command on what it cannot serve.
func oddFiles(c *mc.Ctx) {
	bin := head + parts[1] + parts[6] + parts[9]
	m := &module{table: opTables[1]}
	missing := false
	switch c.Choose(6) {
	case 0: // cut
		bin = bin[:c.Choose(len(bin))]
		for n := len(head); n <= len(bin); n++ { // where a cut leaves a module
			if len(bin) == len(head) || len(bin) == len(head+section(1, "\x01\x60\x00\x00")) && n == len(bin) || len(bin) == len(head+parts[1]) && n == len(bin) || len(bin) == len(head+parts[1]+parts[6]) && n == len(bin) {
				c.Skip()
			}
		}
	case 1: // the recorded operations cut
		t := string(opTables[2].ToBytes())
		bin += custom("wasmrs_ops", t[:c.Choose(len(t))])
	case 2:
		m.trap = true
	case 3:
		m = nil
	case 4:
		missing = true
	case 5:
		bin = mc.Pick(c, []string{"", "\x00asm", "\x00asm\x02\x00\x00\x00", "wasm\x01\x00\x00\x00", head + "\x00\x05", head + section(0, "\x05ab")})
	}
	vsched.Run(c, vsched.Options{}, func() {
		if m != nil {
			m.name = bin
			play(m)
		} else {
			play()
		}
		file := put("odd.wasm", bin)
		if missing {
			file = filepath.Join(dir, "missing.wasm")
		}
		_, failure := ops(file)
		if failure == "" {
			vsched.Fail("%x was accepted", bin)
		}
		if missing {
			if _, err := os.Stat(file); err == nil {
				vsched.Fail("a file was made")
			}
		} else if !bytes.Equal([]byte(get(file)), []byte(bin)) {
			vsched.Fail("%x became %x", bin, get(file))
		}
	})
}
