// C35: the command line tools.
package main

import (
	"fmt"
	"io"
	"log"
	"os"
	"path/filepath"

	"github.com/rodaine/table"

	"github.com/nanobus/iota/go/zzverif/mc"
)

func main() {
	log.SetOutput(io.Discard)
	p1 := mc.Bound(2, 3)
	mc.Main(mc.Config{
		ID:     "C35",
		Rule:   "the two commands, run on modules the harness plays: all documents, answers, modules, operations, sections and cuts of small domains, and the interleavings of the command with its modules",
		Bounds: fmt.Sprintf("documents of %d scalars, alone, in every pair in arrays and objects, and nested; 1-2 modules in either order, 9 answers, <=%d preemptions; binaries of all subsets of 9 sections in 3 orders, 6 operation tables; every cut of some documents and binaries", len(scalars), p1),
		Scenarios: []mc.Scenario{
			{Name: "documents", Body: documents},
			{Name: "broken documents", Body: broken},
			{Name: "modules", Body: func(c *mc.Ctx) { modules(c, 0) }},
			{Name: "schedules", Body: func(c *mc.Ctx) { modules(c, p1) }},
			{Name: "recorded operations", Body: record},
			{Name: "recorded operations of odd files", Body: oddFiles},
		},
		Assumptions: []string{"the WebAssembly engine is replaced by modules the harness plays", "the commands run in the process of the harness, with files for their standard streams"},
	})
}

var dir = func() string {
	d, err := os.MkdirTemp("", "c35")
	if err != nil {
		panic(err)
	}
	return d
}()

// put writes a file and returns its name.
func put(name, content string) string {
	f := filepath.Join(dir, name)
	if err := os.WriteFile(f, []byte(content), 0o644); err != nil {
		panic(err)
	}
	return f
}

func get(name string) string {
	b, err := os.ReadFile(name)
	if err != nil {
		panic(err)
	}
	return string(b)
}

// run runs a command and returns what it printed, and whether and how it failed.
func run(stdin string, cmd func() error) (out, failure string) {
	in, err := os.Open(put("stdin", stdin))
	if err != nil {
		panic(err)
	}
	f, err := os.Create(filepath.Join(dir, "stdout"))
	if err != nil {
		panic(err)
	}
	oldIn, oldOut, oldTable := os.Stdin, os.Stdout, table.DefaultWriter
	os.Stdin, os.Stdout, table.DefaultWriter = in, f, f
	defer func() {
		os.Stdin, os.Stdout, table.DefaultWriter = oldIn, oldOut, oldTable
		in.Close()
		f.Close()
		out = get(f.Name())
	}()
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(string); ok { // log.Panic
				failure = "panic: " + s
				return
			}
			panic(r)
		}
	}()
	if err := cmd(); err != nil {
		failure = err.Error()
	}
	return
}
