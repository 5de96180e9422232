// vtool prepares the build of one check: it writes an overlay that adds the
// harness packages under /repo/go/zzverif and replaces source files of the
// packages under test by copies, rewritten from the current tree, whose
// concurrency goes through the controlled scheduler.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

const modPath = "github.com/nanobus/iota/go"

// Spec is harness/<check>/build.json.
type Spec struct {
	Instrument bool              `json:"instrument"`
	Fine       []string          `json:"fine"`    // packages with statement-level points
	Files      map[string]string `json:"files"`   // repo path -> harness file, added or replaced
	Variant    string            `json:"variant"` // "guest": single-threaded rx as in wasm builds
	Race       bool              `json:"race"`
	Rust       bool              `json:"rust"`  // needs the Rust crates behind a pipe
	Wasm       bool              `json:"wasm"`  // the stand-in for the WebAssembly engine
	Tools      map[string]string `json:"tools"` // harness package -> repo directory of a command it is a copy of
	Guest      bool              `json:"guest"` // a copy of the guest's packages, built as for wasm
}

type pkgInfo struct {
	ImportPath string
	Dir        string
	GoFiles    []string
	Export     string
	Standard   bool
	Module     *struct{ Path string }
}

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "vtool: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	repo := flag.String("repo", "/repo/go", "")
	harness := flag.String("harness", "/verif/harness", "")
	out := flag.String("out", "", "")
	check := flag.String("check", "", "")
	flag.Parse()
	var spec Spec
	if b, err := os.ReadFile(filepath.Join(*harness, *check, "build.json")); err == nil {
		if err := json.Unmarshal(b, &spec); err != nil {
			die("%s: %v", *check, err)
		}
	}
	repl := map[string]string{}

	// harness packages
	ents, _ := os.ReadDir(*harness)
	for _, e := range ents {
		if !e.IsDir() || e.Name()[0] == '_' {
			continue
		}
		fs, _ := filepath.Glob(filepath.Join(*harness, e.Name(), "*.go"))
		for _, f := range fs {
			b, err := os.ReadFile(f)
			if err != nil {
				die("%v", err)
			}
			dst := filepath.Join(*out, "h", e.Name(), filepath.Base(f))
			write(dst, append([]byte("//go:build go1.22\n\n"), b...))
			repl[filepath.Join(*repo, "zzverif", e.Name(), filepath.Base(f))] = dst
		}
	}
	if spec.Variant == "guest" {
		variantGuest(*repo, *out, repl)
	}
	if spec.Instrument {
		instrument(*repo, *out, spec, repl)
	}
	if spec.Wasm {
		fakeEngine(*repo, *harness, *out)
	}
	if spec.Guest {
		guestCopy(*repo, *harness, *out, repl)
	}
	for dst, src := range spec.Tools {
		tool(*repo, *out, dst, src, repl)
	}
	for dst, src := range spec.Files {
		repl[filepath.Join(*repo, dst)] = filepath.Join(*harness, src)
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": repl}, "", " ")
	write(filepath.Join(*out, "overlay.json"), b)
	if spec.Rust {
		write(filepath.Join(*out, "rust"), nil)
	}
	if spec.Race {
		write(filepath.Join(*out, "race"), nil)
	}
}

// tool copies a command, so that it can be called, and adds what its module
// requires to go.mod.
func tool(repo, out, dst, src string, repl map[string]string) {
	fs, _ := filepath.Glob(filepath.Join(repo, src, "*.go"))
	for _, f := range fs {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil {
			die("%v", err)
		}
		t := regexp.MustCompile(`(?m)^package \w+$`).ReplaceAllString(string(b), "package "+dst)
		t = regexp.MustCompile(`(?m)^func main\(\)`).ReplaceAllString(t, "func Main()")
		to := filepath.Join(out, "t", dst, filepath.Base(f))
		write(to, []byte(t))
		repl[filepath.Join(repo, "zzverif", dst, filepath.Base(f))] = to
	}
	dir := filepath.Join(repo, src)
	for dir != repo {
		b, err := os.ReadFile(filepath.Join(dir, "go.mod"))
		if err != nil {
			dir = filepath.Dir(dir)
			continue
		}
		mod, _ := os.ReadFile(filepath.Join(out, "go.mod"))
		for _, l := range strings.Split(string(b), "\n") {
			w := strings.Fields(l)
			if len(w) >= 2 && strings.HasPrefix(l, "\t") && !strings.Contains(string(mod), w[0]+" ") && w[0] != modPath {
				mod = append(mod, []byte("\nrequire "+w[0]+" "+w[1]+"\n")...)
			}
		}
		write(filepath.Join(out, "go.mod"), mod)
		sum, _ := os.ReadFile(filepath.Join(out, "go.sum"))
		more, _ := os.ReadFile(filepath.Join(dir, "go.sum"))
		write(filepath.Join(out, "go.sum"), append(append(sum, '\n'), more...))
		break
	}
}

func write(p string, b []byte) {
	os.MkdirAll(filepath.Dir(p), 0o755)
	if err := os.WriteFile(p, b, 0o644); err != nil {
		die("%v", err)
	}
}

// variantGuest swaps the build-constrained files of the rx packages so that a
// native build behaves as the guest's WebAssembly build does.
func variantGuest(repo, out string, repl map[string]string) {
	for _, d := range []string{"rx/flux", "rx/mono", "proxy"} {
		fs, _ := filepath.Glob(filepath.Join(repo, d, "*.go"))
		for _, f := range fs {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			b, err := os.ReadFile(f)
			if err != nil {
				die("%v", err)
			}
			lines := strings.Split(string(b), "\n")
			constrained, wasm := false, false
			for i, l := range lines {
				if strings.HasPrefix(l, "//go:build") {
					constrained = true
					wasm = !strings.Contains(l, "!wasm")
					lines[i] = "//"
				} else if strings.HasPrefix(l, "// +build") {
					lines[i] = "//"
				} else if strings.HasPrefix(l, "package ") {
					break
				}
			}
			base := filepath.Base(f)
			if strings.HasSuffix(base, "_wasm.go") {
				constrained, wasm = true, true
			}
			if !constrained {
				continue
			}
			if wasm {
				dst := filepath.Join(out, "v", d, "zz_"+strings.TrimSuffix(base, "_wasm.go")+"_v.go")
				write(dst, []byte(strings.Join(lines, "\n")))
				repl[filepath.Join(repo, d, "zz_"+strings.TrimSuffix(base, "_wasm.go")+"_v.go")] = dst
				if !strings.HasSuffix(base, "_wasm.go") {
					repl[f] = ""
				}
			} else {
				repl[f] = ""
			}
		}
	}
}

func golist(repo string, args ...string) []pkgInfo {
	cmd := exec.Command("go", append([]string{"list"}, args...)...)
	cmd.Dir = repo
	var se bytes.Buffer
	cmd.Stderr = &se
	b, err := cmd.Output()
	if err != nil {
		die("go list: %v\n%s", err, se.String())
	}
	dec := json.NewDecoder(bytes.NewReader(b))
	var ps []pkgInfo
	for {
		var p pkgInfo
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			die("go list: %v", err)
		}
		ps = append(ps, p)
	}
	return ps
}

func instrument(repo, out string, spec Spec, repl map[string]string) {
	targets := []string{
		"./internal/...", "./rx/...", "./proxy", "./invoke", "./handler", "./payload", "./operations",
		"./transport/rsocket", "./transport/wasmrs/host", "./transport/wasmrs/mesh", "./transport/wasmrs/guest", "./types/uuid",
	}
	args := []string{"-export", "-deps", "-json=ImportPath,Dir,GoFiles,Export,Standard,Module"}
	// The variant must be visible to the type checker too.
	if len(repl) > 0 && spec.Variant != "" {
		b, _ := json.Marshal(map[string]any{"Replace": repl})
		write(filepath.Join(out, "pre.json"), b)
		args = append(args, "-overlay", filepath.Join(out, "pre.json"))
	}
	ps := golist(repo, append(args, targets...)...)
	exports := map[string]string{}
	for _, p := range ps {
		exports[p.ImportPath] = p.Export
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f, ok := exports[path]
		if !ok || f == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	fine := map[string]bool{}
	for _, f := range spec.Fine {
		fine[f] = true
	}
	for _, p := range ps {
		if p.Standard || p.Module == nil || !strings.HasPrefix(p.ImportPath, modPath) || strings.Contains(p.ImportPath, "zzverif") {
			continue
		}
		rel := strings.TrimPrefix(strings.TrimPrefix(p.ImportPath, modPath), "/")
		if strings.Contains(rel, "/cmd") || strings.Contains(rel, "/modules/") {
			continue
		}
		var files []*ast.File
		var srcs [][]byte
		var names []string
		for _, f := range p.GoFiles {
			full := filepath.Join(p.Dir, f)
			src := full
			if r, ok := repl[full]; ok {
				if r == "" {
					continue
				}
				src = r
			}
			b, err := os.ReadFile(src)
			if err != nil {
				die("%v", err)
			}
			af, err := parser.ParseFile(fset, full, b, parser.ParseComments|parser.SkipObjectResolution)
			if err != nil {
				die("%v", err)
			}
			files = append(files, af)
			srcs = append(srcs, b)
			names = append(names, full)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}, Instances: map[*ast.Ident]types.Instance{}}
		conf := types.Config{Importer: imp, Error: func(error) {}}
		if _, err := conf.Check(p.ImportPath, fset, files, info); err != nil {
			die("type-check %s: %v", p.ImportPath, err)
		}
		for i, af := range files {
			r := &rewriter{fset: fset, f: af, src: srcs[i], info: info, fine: fine[rel]}
			b := r.run()
			if b == nil {
				continue
			}
			dst := filepath.Join(out, "i", rel, filepath.Base(names[i]))
			write(dst, b)
			repl[names[i]] = dst
		}
	}
}

type edit struct {
	a, b int
	s    string
	seq  int
}

type rewriter struct {
	fset  *token.FileSet
	f     *ast.File
	src   []byte
	info  *types.Info
	fine  bool
	edits []edit
	n     int
	used  bool
	tail  string
	label map[ast.Stmt]*ast.LabeledStmt
	fn    []ast.Node // enclosing functions, innermost last
}

func (r *rewriter) off(p token.Pos) int { return r.fset.Position(p).Offset }

func (r *rewriter) rep(a, b token.Pos, s string) {
	r.edits = append(r.edits, edit{r.off(a), r.off(b), s, len(r.edits)})
}

// text renders [a,b) with the edits inside it applied, and removes them.
func (r *rewriter) text(a, b token.Pos) string {
	ao, bo := r.off(a), r.off(b)
	var in, rest []edit
	for _, e := range r.edits {
		if e.a >= ao && e.b <= bo {
			in = append(in, e)
		} else {
			rest = append(rest, e)
		}
	}
	r.edits = rest
	return apply(r.src[ao:bo], in, ao)
}

func apply(src []byte, es []edit, base int) string {
	sort.SliceStable(es, func(i, j int) bool {
		if es[i].a != es[j].a {
			return es[i].a < es[j].a
		}
		// insertions before replacements at the same place
		if (es[i].a == es[i].b) != (es[j].a == es[j].b) {
			return es[i].a == es[i].b
		}
		return es[i].seq < es[j].seq
	})
	var b strings.Builder
	pos := base
	for _, e := range es {
		if e.a < pos {
			panic(fmt.Sprintf("overlapping edits at %d: %q", e.a, e.s))
		}
		b.Write(src[pos-base : e.a-base])
		b.WriteString(e.s)
		pos = e.b
	}
	b.Write(src[pos-base:])
	return b.String()
}

func (r *rewriter) isBuiltin(id *ast.Ident, name string) bool {
	if id.Name != name {
		return false
	}
	_, ok := r.info.Uses[id].(*types.Builtin)
	return ok
}

func (r *rewriter) pkgOf(e ast.Expr) string {
	id, ok := e.(*ast.Ident)
	if !ok {
		return ""
	}
	if pn, ok := r.info.Uses[id].(*types.PkgName); ok {
		return pn.Imported().Path()
	}
	return ""
}

func (r *rewriter) run() []byte {
	r.label = map[ast.Stmt]*ast.LabeledStmt{}
	for _, im := range r.f.Imports {
		p := strings.Trim(im.Path.Value, `"`)
		var to, def string
		switch p {
		case "sync":
			to, def = modPath+"/zzverif/vsync", "sync"
		case "sync/atomic":
			to, def = modPath+"/zzverif/vatomic", "atomic"
		default:
			continue
		}
		name := def
		if im.Name != nil {
			name = im.Name.Name
		}
		r.rep(im.Pos(), im.End(), name+` "`+to+`"`)
		r.used = true
	}
	r.walk(r.f)
	if len(r.edits) == 0 {
		return nil
	}
	r.rep(r.f.Name.End(), r.f.Name.End(), `; import vsched "`+modPath+`/zzverif/vsched"`)
	s := apply(r.src, r.edits, 0)
	s += "\nvar _ = vsched.Point\n" + r.tail
	return []byte(s)
}

// walk visits children first, then rewrites n.
func (r *rewriter) walk(n ast.Node) {
	var stack []ast.Node
	ast.Inspect(n, func(x ast.Node) bool {
		if x == nil {
			top := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			var parent ast.Node
			if len(stack) > 0 {
				parent = stack[len(stack)-1]
			}
			r.post(top, parent)
			switch top.(type) {
			case *ast.FuncDecl, *ast.FuncLit:
				r.fn = r.fn[:len(r.fn)-1]
			}
			return true
		}
		if l, ok := x.(*ast.LabeledStmt); ok {
			r.label[l.Stmt] = l
		}
		switch x.(type) {
		case *ast.FuncDecl, *ast.FuncLit:
			r.fn = append(r.fn, x)
		}
		stack = append(stack, x)
		return true
	})
}

func (r *rewriter) post(n, parent ast.Node) {
	switch v := n.(type) {
	case *ast.SendStmt:
		if cc, ok := parent.(*ast.CommClause); ok && cc.Comm == ast.Stmt(v) {
			return
		}
		r.rep(v.Pos(), v.Pos(), "vsched.Send(")
		r.rep(v.Chan.End(), v.Value.Pos(), ")(")
		r.rep(v.End(), v.End(), ")")
	case *ast.UnaryExpr:
		if v.Op != token.ARROW {
			return
		}
		f := "vsched.Recv("
		switch p := parent.(type) {
		case *ast.AssignStmt:
			if len(p.Lhs) == 2 && len(p.Rhs) == 1 {
				f = "vsched.Recv2("
			}
		case *ast.ValueSpec:
			if len(p.Names) == 2 && len(p.Values) == 1 {
				f = "vsched.Recv2("
			}
		}
		r.rep(v.Pos(), v.X.Pos(), f)
		r.rep(v.X.End(), v.X.End(), ")")
	case *ast.CallExpr:
		if id, ok := v.Fun.(*ast.Ident); ok && r.isBuiltin(id, "close") {
			r.rep(id.Pos(), id.End(), "vsched.Close")
		}
		if id, ok := v.Fun.(*ast.Ident); ok && r.isBuiltin(id, "delete") && len(v.Args) == 2 {
			r.mapUse(v.Args[0], "vsched.MW(")
		}
	case *ast.IndexExpr:
		f := "vsched.MR("
		switch p := parent.(type) {
		case *ast.AssignStmt:
			for _, l := range p.Lhs {
				if l == ast.Expr(v) {
					f = "vsched.MW("
				}
			}
		case *ast.IncDecStmt:
			f = "vsched.MW("
		}
		r.mapUse(v.X, f)
	case *ast.SelectorExpr:
		switch r.pkgOf(v.X) + "." + v.Sel.Name {
		case "time.Sleep":
			r.tail += "\nvar _ = " + v.X.(*ast.Ident).Name + ".Now\n"
			r.rep(v.Pos(), v.End(), "vsched.Sleep")
		case "time.AfterFunc":
			r.tail += "\nvar _ = " + v.X.(*ast.Ident).Name + ".Now\n"
			r.rep(v.Pos(), v.End(), "vsched.AfterFunc")
		case "time.After":
			r.tail += "\nvar _ = " + v.X.(*ast.Ident).Name + ".Now\n"
			r.rep(v.Pos(), v.End(), "vsched.After")
		case "time.Now":
			r.tail += "\nvar _ = " + v.X.(*ast.Ident).Name + ".Now\n"
			r.rep(v.Pos(), v.End(), "vsched.Now")
		case "runtime.Gosched":
			r.tail += "\nvar _ = " + v.X.(*ast.Ident).Name + ".Gosched\n"
			r.rep(v.Pos(), v.End(), "vsched.Gosched")
		}
	case *ast.AssignStmt:
		for _, l := range v.Lhs {
			r.mapKey(l)
		}
	case *ast.GoStmt:
		r.goStmt(v)
	case *ast.RangeStmt:
		tv, ok := r.info.Types[v.X]
		if !ok {
			return
		}
		if _, ok := tv.Type.Underlying().(*types.Map); ok {
			r.mapRange(v)
			return
		}
		if _, ok := tv.Type.Underlying().(*types.Chan); !ok {
			return
		}
		r.n++
		c := fmt.Sprintf("zzc%d", r.n)
		key, pre := "_", ""
		tok := ":="
		if v.Key != nil {
			key = string(r.src[r.off(v.Key.Pos()):r.off(v.Key.End())])
			if v.Tok == token.ASSIGN {
				pre = "var zzok bool; "
				tok = "="
			}
		}
		r.rep(v.For, v.X.Pos(), "for "+c+" := ")
		r.rep(v.X.End(), v.Body.Lbrace+1, "; ; { "+pre+key+", zzok "+tok+" vsched.Recv2("+c+"); if !zzok { break };")
	case *ast.SelectStmt:
		r.selectStmt(v)
	case *ast.BlockStmt:
		if _, ok := parent.(*ast.SelectStmt); ok {
			return
		}
		r.points(v.List)
	case *ast.CaseClause:
		r.points(v.Body)
	case *ast.CommClause:
		r.points(v.Body)
	}
}

func (r *rewriter) points(list []ast.Stmt) {
	if !r.fine {
		return
	}
	for _, s := range list {
		switch s.(type) {
		case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
			continue
		}
		if !r.shared(s) {
			continue
		}
		r.rep(s.Pos(), s.Pos(), "vsched.P(); ")
		r.edits[len(r.edits)-1].seq -= 1 << 30 // before what the statement becomes
		// Reading and writing back are two steps.
		switch v := s.(type) {
		case *ast.IncDecStmt:
			if r.plain(v.X) {
				op := " + 1"
				if v.Tok == token.DEC {
					op = " - 1"
				}
				r.split(v.X, v.Pos(), v.End(), op)
			}
		case *ast.AssignStmt:
			if len(v.Lhs) == 1 && v.Tok != token.ASSIGN && v.Tok != token.DEFINE && r.plain(v.Lhs[0]) {
				rhs := r.text(v.Rhs[0].Pos(), v.Rhs[0].End())
				op := strings.TrimSuffix(v.Tok.String(), "=")
				r.split(v.Lhs[0], v.Pos(), v.End(), " "+op+" ("+rhs+")")
			}
		}
	}
}

func (r *rewriter) split(x ast.Expr, a, b token.Pos, op string) {
	l := string(r.src[r.off(x.Pos()):r.off(x.End())])
	r.text(a, b) // drop what is left inside
	r.n++
	r.rep(a, b, fmt.Sprintf("{ zz%d := %s; vsched.P(); %s = zz%d%s }", r.n, l, l, r.n, op))
}

// plain tells whether evaluating e twice is the same as once.
func (r *rewriter) plain(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch v := n.(type) {
		case nil, *ast.Ident, *ast.SelectorExpr, *ast.StarExpr, *ast.ParenExpr:
		case *ast.IndexExpr:
			if t, known := r.info.Types[v.X]; !known || t.IsType() {
				ok = false
			}
		case *ast.BasicLit:
		default:
			ok = false
		}
		return ok
	})
	return ok
}

// shared tells whether a statement itself (not its nested blocks) may touch
// memory another goroutine sees.
func (r *rewriter) shared(s ast.Stmt) bool {
	found := false
	ast.Inspect(s, func(n ast.Node) bool {
		if found {
			return false
		}
		switch v := n.(type) {
		case *ast.BlockStmt, *ast.FuncLit:
			return false
		case *ast.SelectorExpr, *ast.StarExpr, *ast.IndexExpr, *ast.CallExpr, *ast.SendStmt:
			found = true
		case *ast.Ident:
			if o, ok := r.info.Uses[v].(*types.Var); ok && !o.IsField() && len(r.fn) > 0 {
				in := r.fn[len(r.fn)-1]
				found = o.Pos() < in.Pos() || o.Pos() >= in.End()
			}
		}
		return true
	})
	return found
}

func (r *rewriter) goStmt(v *ast.GoStmt) {
	call := v.Call
	r.n++
	id := fmt.Sprintf("zz%d", r.n)
	fun := r.text(call.Fun.Pos(), call.Fun.End())
	bind := true
	if fid, ok := call.Fun.(*ast.Ident); ok {
		switch r.info.Uses[fid].(type) {
		case *types.Func, *types.Builtin:
			bind = false
		}
		if fid.Name == "close" {
			bind = false
		}
	}
	if sel, ok := call.Fun.(*ast.SelectorExpr); ok && r.pkgOf(sel.X) != "" {
		bind = false
	}
	var b strings.Builder
	b.WriteString("{ ")
	name := fun
	if bind {
		name = id + "f"
		fmt.Fprintf(&b, "%s := %s; ", name, fun)
	}
	var args []string
	for i, a := range call.Args {
		t := r.text(a.Pos(), a.End())
		tv := r.info.Types[a]
		if tv.Value != nil || tv.IsNil() {
			args = append(args, t)
			continue
		}
		an := fmt.Sprintf("%sa%d", id, i)
		fmt.Fprintf(&b, "%s := %s; ", an, t)
		args = append(args, an)
	}
	ell := ""
	if call.Ellipsis.IsValid() {
		ell = "..."
	}
	fmt.Fprintf(&b, "vsched.Go(func() { %s(%s%s) }) }", name, strings.Join(args, ", "), ell)
	r.text(v.Pos(), v.End()) // drop what is left inside
	r.rep(v.Pos(), v.End(), b.String())
}

func (r *rewriter) selectStmt(v *ast.SelectStmt) {
	r.n++
	s := fmt.Sprintf("zzs%d", r.n)
	hasDef := false
	for _, c := range v.Body.List {
		if c.(*ast.CommClause).Comm == nil {
			hasDef = true
		}
	}
	var setup strings.Builder
	fmt.Fprintf(&setup, "{ %s := vsched.NewSelect(%v); ", s, hasDef)
	i := 0
	for _, c := range v.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			continue
		}
		head := fmt.Sprintf("case %d:", i)
		switch cm := cc.Comm.(type) {
		case *ast.SendStmt:
			ch := r.text(cm.Chan.Pos(), cm.Chan.End())
			val := r.text(cm.Value.Pos(), cm.Value.End())
			fmt.Fprintf(&setup, "vsched.AddSend(%s, %s)(%s); ", s, ch, val)
		case *ast.ExprStmt:
			u := unparen(cm.X).(*ast.UnaryExpr)
			r.dropRecv(u)
			fmt.Fprintf(&setup, "vsched.AddRecv(%s, %s); ", s, r.text(u.X.Pos(), u.X.End()))
		case *ast.AssignStmt:
			u := unparen(cm.Rhs[0]).(*ast.UnaryExpr)
			r.dropRecv(u)
			rc := fmt.Sprintf("%sr%d", s, i)
			fmt.Fprintf(&setup, "%s := vsched.AddRecv(%s, %s); ", rc, s, r.text(u.X.Pos(), u.X.End()))
			get := "Get()"
			lhs := r.text(cm.Lhs[0].Pos(), cm.Lhs[0].End())
			if len(cm.Lhs) == 2 {
				get = "Get2()"
				lhs += ", " + r.text(cm.Lhs[1].Pos(), cm.Lhs[1].End())
			}
			head += fmt.Sprintf(" %s %s %s.%s;", lhs, cm.Tok, rc, get)
		}
		r.text(cc.Case, cc.Colon+1)
		r.rep(cc.Case, cc.Colon+1, head)
		i++
	}
	lbl := ""
	start := v.Pos()
	if l := r.label[v]; l != nil {
		lbl = l.Label.Name + ": "
		start = l.Pos()
	}
	fmt.Fprintf(&setup, "%sswitch %s.Do() {", lbl, s)
	r.text(start, v.Body.Lbrace+1)
	r.rep(start, v.Body.Lbrace+1, setup.String())
	end := "}}"
	if !hasDef {
		end = "default: panic(\"unreachable\") }}"
	}
	r.rep(v.Body.Rbrace, v.Body.Rbrace+1, end)
}

// dropRecv removes the edits that turned <-ch into vsched.Recv(ch).
func (r *rewriter) dropRecv(u *ast.UnaryExpr) {
	a, b, e := r.off(u.Pos()), r.off(u.X.Pos()), r.off(u.X.End())
	var rest []edit
	for _, x := range r.edits {
		if (x.a == a && x.b == b && strings.HasPrefix(x.s, "vsched.Recv")) || (x.a == e && x.b == e && x.s == ")") {
			continue
		}
		rest = append(rest, x)
	}
	r.edits = rest
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

// mapRange makes the order in which a map is ranged over a choice. The three
// clause form has the same variables in every iteration, as range had in the
// language version of the module.
func (r *rewriter) mapRange(v *ast.RangeStmt) {
	r.n++
	it := fmt.Sprintf("zzm%d", r.n)
	lhs, fn := it, "MapIter0"
	args := [2]string{"nil", "nil"}
	for i, e := range []ast.Expr{v.Key, v.Value} {
		if e == nil {
			continue
		}
		if id, ok := e.(*ast.Ident); ok && id.Name == "_" {
			if v.Tok == token.DEFINE {
				lhs += ", _"
			}
			continue
		}
		t := string(r.src[r.off(e.Pos()):r.off(e.End())])
		args[i] = "&" + t
		if v.Tok == token.DEFINE {
			lhs += ", " + t
		}
	}
	if v.Tok == token.DEFINE {
		fn = "MapIter1"
		if v.Value != nil {
			fn = "MapIter2"
		}
	}
	r.rep(v.For, v.X.Pos(), "for "+lhs+" := vsched."+fn+"(")
	r.rep(v.X.End(), v.Body.Lbrace+1, "); "+it+".Next("+args[0]+", "+args[1]+"); {")
}

// mapKey makes pointers that become keys of a map known, in order.
func (r *rewriter) mapKey(l ast.Expr) {
	x, ok := l.(*ast.IndexExpr)
	if !ok {
		return
	}
	tv, ok := r.info.Types[x.X]
	if !ok {
		return
	}
	m, ok := tv.Type.Underlying().(*types.Map)
	if !ok {
		return
	}
	switch m.Key().Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Chan:
		r.rep(x.Index.Pos(), x.Index.Pos(), "vsched.Key(")
		r.rep(x.Index.End(), x.Index.End(), ")")
	}
}

// mapUse makes an access to a map take time.
func (r *rewriter) mapUse(m ast.Expr, f string) {
	tv, ok := r.info.Types[m]
	if !r.fine || !ok || tv.IsType() {
		return
	}
	if _, ok := tv.Type.Underlying().(*types.Map); ok {
		r.rep(m.Pos(), m.Pos(), f)
		r.rep(m.End(), m.End(), ")")
	}
}
