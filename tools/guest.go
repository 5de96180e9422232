package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

const wazero = "github.com/tetratelabs/wazero"

// fakeEngine lets wazero.NewRuntimeWithConfig return the harness's engine: it
// copies the packages of the engine and writes a go.mod that uses the copy.
func fakeEngine(repo, harness, out string) {
	dst := filepath.Join(out, "wazero")
	for _, p := range golist(repo, "-deps", "-json=ImportPath,Dir,Module", "./transport/wasmrs/host") {
		if p.Module == nil || p.Module.Path != wazero {
			continue
		}
		fs, _ := filepath.Glob(filepath.Join(p.Dir, "*"))
		for _, f := range fs {
			if st, err := os.Stat(f); err != nil || st.IsDir() || strings.HasSuffix(f, "_test.go") {
				continue
			}
			b, err := os.ReadFile(f)
			if err != nil {
				die("%v", err)
			}
			write(filepath.Join(dst, strings.TrimPrefix(p.ImportPath, wazero), filepath.Base(f)), b)
		}
		if p.ImportPath == wazero {
			b, err := os.ReadFile(filepath.Join(p.Dir, "go.mod"))
			if err != nil {
				die("%v", err)
			}
			write(filepath.Join(dst, "go.mod"), b)
		}
	}
	b, err := os.ReadFile(filepath.Join(harness, "_wazero", "zz_fake.go"))
	if err != nil {
		die("%v", err)
	}
	write(filepath.Join(dst, "zz_fake.go"), b)
	src, err := os.ReadFile(filepath.Join(dst, "runtime.go"))
	if err != nil {
		die("%v", err)
	}
	const sig = "func NewRuntimeWithConfig(ctx context.Context, rConfig RuntimeConfig) Runtime {\n"
	if strings.Count(string(src), sig) != 1 {
		die("wazero: NewRuntimeWithConfig not found")
	}
	write(filepath.Join(dst, "runtime.go"), []byte(strings.Replace(string(src), sig, sig+"\tif ZZInstantiate != nil {\n\t\treturn zzNewRuntime()\n\t}\n", 1)))
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(repo, f))
		if err != nil {
			die("%v", err)
		}
		if f == "go.mod" {
			b = append(b, []byte("\nreplace "+wazero+" => "+dst+"\n")...)
		}
		write(filepath.Join(out, f), b)
	}
}

// guestCopy copies the guest package and what it needs to zzguest/..., with the
// files of the WebAssembly build, and harness/peer to zzverif/gpeer on top of it.
// The functions the guest imports from the host go to ZZHost, those it exports
// are in ZZExports, and ZZReset puts the package variables back.
func guestCopy(repo, harness, out string, repl map[string]string) {
	cmd := exec.Command("go", "list", "-deps", "-f", "{{if not .Standard}}{{.ImportPath}}\t{{.Dir}}{{end}}", "./transport/wasmrs/guest", "./rx/flow")
	cmd.Dir = repo
	b, err := cmd.Output()
	if err != nil {
		die("go list guest: %v", err)
	}
	copied := map[string]bool{}
	type pkg struct{ path, dir string }
	var ps []pkg
	for _, l := range strings.Split(strings.TrimSpace(string(b)), "\n") {
		f := strings.Split(strings.TrimSpace(l), "\t")
		if len(f) == 2 && strings.HasPrefix(f[0], modPath) {
			ps = append(ps, pkg{f[0], f[1]})
			copied[f[0]] = true
		}
	}
	rename := func(f *ast.File) {
		for _, im := range f.Imports {
			p := strings.Trim(im.Path.Value, `"`)
			if copied[p] {
				im.Path.Value = `"` + modPath + "/zzguest" + strings.TrimPrefix(p, modPath) + `"`
			}
		}
	}
	for _, p := range ps {
		rel := strings.TrimPrefix(p.path, modPath+"/")
		fset := token.NewFileSet()
		var files []*ast.File
		var names []string
		fs, _ := filepath.Glob(filepath.Join(p.dir, "*.go"))
		for _, n := range fs {
			if strings.HasSuffix(n, "_test.go") {
				continue
			}
			src, err := os.ReadFile(n)
			if err != nil {
				die("%v", err)
			}
			lines := strings.Split(string(src), "\n")
			constrained, wasm := strings.HasSuffix(n, "_wasm.go"), strings.HasSuffix(n, "_wasm.go")
			for i, l := range lines {
				if strings.HasPrefix(l, "//go:build") {
					constrained, wasm = true, !strings.Contains(l, "!wasm")
					lines[i] = "//"
				} else if strings.HasPrefix(l, "// +build") {
					lines[i] = "//"
				} else if strings.HasPrefix(l, "package ") {
					break
				}
			}
			if constrained && !wasm {
				continue
			}
			f, err := parser.ParseFile(fset, n, strings.Join(lines, "\n"), parser.ParseComments)
			if err != nil {
				die("%v", err)
			}
			files = append(files, f)
			names = append(names, "c_"+strings.ReplaceAll(filepath.Base(n), "_wasm", "_w")) // no GOOS/GOARCH suffix
		}
		if len(files) == 0 {
			continue
		}
		var reset, exports bytes.Buffer
		hooks := false
		for _, f := range files {
			rename(f)
			for _, d := range f.Decls {
				switch d := d.(type) {
				case *ast.GenDecl:
					if d.Tok == token.VAR {
						for _, sp := range d.Specs {
							resetVar(fset, sp.(*ast.ValueSpec), &reset)
						}
					}
				case *ast.FuncDecl:
					name := ""
					if d.Doc != nil {
						for _, c := range d.Doc.List {
							if rest, ok := strings.CutPrefix(c.Text, "//go:export "); ok {
								name = strings.TrimSpace(rest)
							}
						}
					}
					if d.Body == nil {
						hooks = true
						d.Body = stub(d, name)
						d.Doc = nil
					} else if name != "" {
						hooks = true
						fmt.Fprintf(&exports, "\tZZExports[%q] = func(a ...uint64) {\n\t\t%s(%s)\n\t}\n", name, d.Name.Name, args(fset, d))
					}
				}
			}
		}
		var extra bytes.Buffer
		fmt.Fprintf(&extra, "package %s\n\nfunc println(...any) {}\n\n", files[0].Name.Name)
		if hooks {
			fmt.Fprintf(&extra, "var ZZHost = map[string]func(...uint64){}\nvar ZZExports = map[string]func(...uint64){}\n\nfunc init() {\n%s}\n", exports.String())
		}
		for i, f := range files {
			var b bytes.Buffer
			if err := format.Node(&b, fset, f); err != nil {
				die("%v", err)
			}
			dst := filepath.Join(out, "g", rel, names[i])
			write(dst, b.Bytes())
			repl[filepath.Join(repo, "zzguest", rel, names[i])] = dst
		}
		fmt.Fprintf(&extra, "\nfunc ZZReset() {\n%s}\n", reset.String())
		if strings.Contains(reset.String(), "zzZero(") {
			extra.WriteString("\nfunc zzZero[T any](p *T) {\n\tvar z T\n\t*p = z\n}\n")
		}
		dst := filepath.Join(out, "g", rel, "zz_extra.go")
		write(dst, extra.Bytes())
		repl[filepath.Join(repo, "zzguest", rel, "zz_extra.go")] = dst
	}
	fs, _ := filepath.Glob(filepath.Join(harness, "peer", "*.go"))
	for _, n := range fs {
		if strings.HasSuffix(n, "_native.go") {
			continue
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, n, nil, parser.ParseComments)
		if err != nil {
			die("%v", err)
		}
		rename(f)
		f.Name.Name = "gpeer"
		var b bytes.Buffer
		b.WriteString("//go:build go1.22\n\n")
		if err := format.Node(&b, fset, f); err != nil {
			die("%v", err)
		}
		dst := filepath.Join(out, "g", "gpeer", filepath.Base(n))
		write(dst, b.Bytes())
		repl[filepath.Join(repo, "zzverif", "gpeer", filepath.Base(n))] = dst
	}
}

// resetVar writes the statement that puts a package variable back. Variables
// whose initialiser needs an import are left alone.
func resetVar(fset *token.FileSet, v *ast.ValueSpec, w *bytes.Buffer) {
	names := []string{}
	for _, n := range v.Names {
		if n.Name == "_" {
			return
		}
		names = append(names, n.Name)
	}
	if len(v.Values) > 0 {
		imported := false
		for _, e := range v.Values {
			ast.Inspect(e, func(n ast.Node) bool {
				if s, ok := n.(*ast.SelectorExpr); ok {
					if id, ok := s.X.(*ast.Ident); ok && id.Obj == nil {
						imported = true
					}
				}
				return true
			})
		}
		if imported {
			return
		}
		var vals []string
		for _, e := range v.Values {
			var b bytes.Buffer
			format.Node(&b, fset, e)
			vals = append(vals, b.String())
		}
		fmt.Fprintf(w, "\t%s = %s\n", strings.Join(names, ", "), strings.Join(vals, ", "))
		return
	}
	for _, n := range names {
		fmt.Fprintf(w, "\tzzZero(&%s)\n", n)
	}
}

// args converts a ...uint64 to the parameters of d.
func args(fset *token.FileSet, d *ast.FuncDecl) string {
	var out []string
	for _, p := range d.Type.Params.List {
		var b bytes.Buffer
		format.Node(&b, fset, p.Type)
		n := max(len(p.Names), 1)
		for i := 0; i < n; i++ {
			out = append(out, fmt.Sprintf("%s(a[%d])", b.String(), len(out)))
		}
	}
	return strings.Join(out, ", ")
}

// stub calls ZZHost[name] with the parameters of d.
func stub(d *ast.FuncDecl, name string) *ast.BlockStmt {
	call := &ast.CallExpr{Fun: &ast.IndexExpr{X: ast.NewIdent("ZZHost"), Index: &ast.BasicLit{Kind: token.STRING, Value: fmt.Sprintf("%q", name)}}}
	for _, p := range d.Type.Params.List {
		for _, n := range p.Names {
			call.Args = append(call.Args, &ast.CallExpr{Fun: ast.NewIdent("uint64"), Args: []ast.Expr{ast.NewIdent(n.Name)}})
		}
	}
	return &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call}}}
}
