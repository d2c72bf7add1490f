// Command rewrite generates the simulator's seam: instrumented copies of the
// packages of a Go module, and the overlay file that substitutes them in a
// build. It judges nothing; it only redirects concurrency, time, randomness
// and file operations to vsim, and inserts preemption points.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

type listPkg struct {
	ImportPath string
	Dir        string
	Export     string
	GoFiles    []string
	Standard   bool
	Module     *struct{ Path string }
	Error      *struct{ Err string }
}

var shims = map[string][2]string{ // import path -> shim path, local alias
	"sync":         {"spagosim/vsim/vsync", "vsync_"},
	"sync/atomic":  {"spagosim/vatomic", "vatomic_"},
	"context":      {"spagosim/vsim/vcontext", "vcontext_"},
	"time":         {"spagosim/vsim/vtime", "vtime_"},
	"runtime":      {"spagosim/vsim/vruntime", "vruntime_"},
	"os":           {"spagosim/vsim/vos", "vos_"},
	"io":           {"spagosim/vsim/vio", "vio_"},
	"log":          {"spagosim/vsim/vlog", "vlog_"},
	"math/rand":    {"spagosim/vsim/vmrand", "vmrand_"},
	"math/rand/v2": {"spagosim/vsim/vmrand", "vmrand_"},
}

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "rewrite: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	repo := flag.String("repo", "/repo", "module to instrument")
	out := flag.String("out", "", "output directory")
	sim := flag.String("sim", "", "directory of the spagosim module")
	tags := flag.String("tags", "", "build tags")
	kernels := flag.Bool("kernels", false, "instrument the pure Go numeric kernels too")
	flag.Parse()
	exports := map[string]map[string]bool{}
	for p, s := range shims {
		exports[p] = shimExports(filepath.Join(*sim, strings.TrimPrefix(s[0], "spagosim/")))
	}
	args := []string{"list", "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles,Standard,Module,Error"}
	if *tags != "" {
		args = append(args, "-tags", *tags)
	}
	args = append(args, "./...")
	cmd := exec.Command("go", args...)
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	exp := map[string]string{}
	var pkgs []listPkg
	dec := json.NewDecoder(bytes.NewReader(b))
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			die("%v", err)
		}
		if p.Error != nil {
			die("%s: %s", p.ImportPath, p.Error.Err)
		}
		exp[p.ImportPath] = p.Export
		if !p.Standard && p.Module != nil && p.Module.Path == "github.com/nlpodyssey/spago" {
			pkgs = append(pkgs, p)
		}
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f := exp[path]
		if f == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	overlay := map[string]string{}
	stats := map[string]int{}
	for _, p := range pkgs {
		rel := strings.TrimPrefix(p.ImportPath, "github.com/nlpodyssey/spago/")
		if strings.HasPrefix(rel, "examples/") || strings.HasPrefix(rel, "mat/fbs") || rel == "mat/float" ||
			strings.HasPrefix(rel, "mat/internal/matfuncs/cpu") {
			continue
		}
		kernel := strings.HasPrefix(rel, "mat/internal/f32") || strings.HasPrefix(rel, "mat/internal/f64") ||
			strings.HasPrefix(rel, "mat/internal/matfuncs")
		var files []*ast.File
		var srcs [][]byte
		for _, n := range p.GoFiles {
			fn := filepath.Join(p.Dir, n)
			src, err := os.ReadFile(fn)
			if err != nil {
				die("%v", err)
			}
			f, err := parser.ParseFile(fset, fn, src, parser.ParseComments)
			if err != nil {
				die("%v", err)
			}
			files = append(files, f)
			srcs = append(srcs, src)
		}
		info := &types.Info{
			Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{},
			Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
			Instances: map[*ast.Ident]types.Instance{},
		}

		conf := types.Config{Importer: imp, FakeImportC: true, Sizes: types.SizesFor("gc", "amd64"), GoVersion: "go1.21"}
		tp, err := conf.Check(p.ImportPath, fset, files, info)
		if err != nil {
			die("type check: %v", err)
		}
		globals := assigned(files, tp, info)
		var boot []string
		for i := range info.InitOrder {
			boot = append(boot, fmt.Sprintf("vsim_boot_var_%d()", i))
		}
		for i, f := range files {
			r := &rewriter{fset: fset, src: srcs[i], file: f, info: info, pkg: tp, exports: exports,
				yields: !kernel || *kernels, globals: globals, stats: stats}
			boot = append(boot, r.boot(i)...)
			res := r.rewrite()
			if res == nil {
				continue
			}
			dst := filepath.Join(*out, rel, p.GoFiles[i])
			if err := os.MkdirAll(filepath.Dir(dst), 0777); err != nil {
				die("%v", err)
			}
			if err := os.WriteFile(dst, res, 0666); err != nil {
				die("%v", err)
			}
			overlay[filepath.Join(p.Dir, p.GoFiles[i])] = dst
		}
		// Package-level variables start anew with each run: what the
		// initialization of the program does is done again.
		if vs := variables(files); len(vs)+len(boot) > 0 {
			var src strings.Builder
			fmt.Fprintf(&src, "package %s\n\nimport vsim_globals_ \"spagosim/vsim\"\n\nfunc init() {\n\tvsim_globals_.Package(func() {\n", tp.Name())
			for _, v := range vs {
				fmt.Fprintf(&src, "\t\tvsim_globals_.Zero(&%s)\n", v)
			}
			for _, f := range boot {
				fmt.Fprintf(&src, "\t\t%s\n", f)
			}
			src.WriteString("\t})\n}\n")
			dst := filepath.Join(*out, rel, "zz_vsim_globals.go")
			if err := os.MkdirAll(filepath.Dir(dst), 0777); err != nil {
				die("%v", err)
			}
			if err := os.WriteFile(dst, []byte(src.String()), 0666); err != nil {
				die("%v", err)
			}
			overlay[filepath.Join(p.Dir, "zz_vsim_globals.go")] = dst
			stats["globals"] += len(vs)
		}
		// A default source of random numbers is seeded before each run.
		if rel == "mat/internal/rand" {
			fn, _ := tp.Scope().Lookup("Seed").(*types.Func)
			if fn != nil && types.TypeString(fn.Type(), nil) == "func(seed uint64)" {
				dst := filepath.Join(*out, rel, "zz_vsim_seed.go")
				src := "package " + tp.Name() + "\n\nimport \"spagosim/vsim\"\n\nfunc init() { vsim.Seeders = append(vsim.Seeders, Seed) }\n"
				if err := os.MkdirAll(filepath.Dir(dst), 0777); err != nil {
					die("%v", err)
				}
				if err := os.WriteFile(dst, []byte(src), 0666); err != nil {
					die("%v", err)
				}
				overlay[filepath.Join(p.Dir, "zz_vsim_seed.go")] = dst
			}
		}
	}
	j, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), j, 0666); err != nil {
		die("%v", err)
	}
	stats["files"] = len(overlay)
	j, _ = json.Marshal(stats)
	if err := os.WriteFile(filepath.Join(*out, "stats.json"), j, 0666); err != nil {
		die("%v", err)
	}
}

// assigned are the package-level variables that functions other than init
// assign to or take the address of.
func assigned(files []*ast.File, pkg *types.Package, info *types.Info) map[*types.Var]bool {
	out := map[*types.Var]bool{}
	var mark func(e ast.Expr)
	mark = func(e ast.Expr) {
		switch e := e.(type) {
		case *ast.Ident:
			if v, ok := info.Uses[e].(*types.Var); ok && v.Parent() == pkg.Scope() {
				out[v] = true
			}
		case *ast.ParenExpr:
			mark(e.X)
		case *ast.IndexExpr:
			mark(e.X)
		case *ast.SelectorExpr:
			mark(e.X)
		}
	}
	for _, f := range files {
		for _, d := range f.Decls {
			fn, ok := d.(*ast.FuncDecl)
			if !ok || fn.Body == nil || fn.Recv == nil && fn.Name.Name == "init" {
				continue
			}
			ast.Inspect(fn.Body, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.AssignStmt:
					if n.Tok != token.DEFINE {
						for _, e := range n.Lhs {
							mark(e)
						}
					}
				case *ast.IncDecStmt:
					mark(n.X)
				case *ast.UnaryExpr:
					if n.Op == token.AND {
						mark(n.X)
					}
				}
				return true
			})
		}
	}
	return out
}

// variables are the package-level variables declared in the files.
func variables(files []*ast.File) (names []string) {
	for _, f := range files {
		for _, d := range f.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
				for _, s := range g.Specs {
					for _, n := range s.(*ast.ValueSpec).Names {
						if n.Name != "_" {
							names = append(names, n.Name)
						}
					}
				}
			}
		}
	}
	return
}

func shimExports(dir string) map[string]bool {
	m := map[string]bool{}
	es, err := os.ReadDir(dir)
	if err != nil {
		die("%v", err)
	}
	for _, e := range es {
		if !strings.HasSuffix(e.Name(), ".go") {
			continue
		}
		f, err := parser.ParseFile(token.NewFileSet(), filepath.Join(dir, e.Name()), nil, 0)
		if err != nil {
			die("%v", err)
		}
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil {
					m[d.Name.Name] = true
				}
			case *ast.GenDecl:
				for _, s := range d.Specs {
					switch s := s.(type) {
					case *ast.TypeSpec:
						m[s.Name.Name] = true
					case *ast.ValueSpec:
						for _, n := range s.Names {
							m[n.Name] = true
						}
					}
				}
			}
		}
	}
	return m
}

type edit struct {
	off, end int // end > off: replacement
	kind     int // 0 close insertion, 1 replacement, 2 open insertion
	seq      int
	text     string
}

type rewriter struct {
	fset    *token.FileSet
	src     []byte
	file    *ast.File
	info    *types.Info
	pkg     *types.Package
	exports map[string]map[string]bool
	yields  bool
	globals map[*types.Var]bool // of the package, assigned to by its functions
	stats   map[string]int

	edits      []edit
	seq        int
	used       map[string]bool // shim aliases used
	usesSim    bool
	lits       []*ast.FuncLit
	redirected map[*ast.Ident]bool
	tail       string // appended to the file
}

func (r *rewriter) off(p token.Pos) int { return r.fset.Position(p).Offset }
func (r *rewriter) text(a, b token.Pos) string {
	return string(r.src[r.off(a):r.off(b)])
}
func (r *rewriter) open(p token.Pos, s string) {
	r.seq++
	r.edits = append(r.edits, edit{r.off(p), r.off(p), 2, r.seq, s})
}
func (r *rewriter) close(p token.Pos, s string) {
	r.seq++
	r.edits = append(r.edits, edit{r.off(p), r.off(p), 0, r.seq, s})
}

// repl replaces [a,b), keeping the number of lines.
func (r *rewriter) repl(a, b token.Pos, s string) {
	r.seq++
	nl := strings.Count(r.text(a, b), "\n") - strings.Count(s, "\n")
	for ; nl > 0; nl-- {
		s += "\n"
	}
	r.edits = append(r.edits, edit{r.off(a), r.off(b), 1, r.seq, s})
}

func apply(src []byte, lo, hi int, es []edit) string {
	sort.SliceStable(es, func(i, j int) bool {
		a, b := es[i], es[j]
		if a.off != b.off {
			return a.off < b.off
		}
		if a.kind != b.kind {
			// closes first, then opens, then replacements starting here
			rank := func(k int) int {
				switch k {
				case 0:
					return 0
				case 2:
					return 1
				}
				return 2
			}
			return rank(a.kind) < rank(b.kind)
		}
		if a.kind == 0 {
			return a.seq > b.seq
		}
		return a.seq < b.seq
	})
	var out strings.Builder
	pos := lo
	for _, e := range es {
		if e.off < pos {
			if e.kind == 1 || e.off < pos {
				die("internal: overlapping edits at %d: %q", e.off, e.text)
			}
		}
		out.Write(src[pos:e.off])
		out.WriteString(e.text)
		pos = e.end
	}
	out.Write(src[pos:hi])
	return out.String()
}

// render returns the rewritten text of a node, out of place.
func (r *rewriter) render(e ast.Node) string {
	saved := r.edits
	r.edits = nil
	r.visit(e)
	s := apply(r.src, r.off(e.Pos()), r.off(e.End()), r.edits)
	r.edits = saved
	return s
}

// boot collects functions that repeat the initialization of the file, the n-th
// of the package, and returns calls of those that repeat its init functions.
func (r *rewriter) boot(n int) (calls []string) {
	r.used = map[string]bool{}
	r.redirected = map[*ast.Ident]bool{}
	for i, in := range r.info.InitOrder {
		if in.Rhs.Pos() < r.file.FileStart || in.Rhs.Pos() >= r.file.FileEnd {
			continue
		}
		var lhs []string
		for _, v := range in.Lhs {
			lhs = append(lhs, v.Name())
		}
		body := ""
		if id, ok := in.Rhs.(*ast.Ident); !ok || id.Name != "nil" {
			body = strings.Join(lhs, ", ") + " = " + r.render(in.Rhs)
		}
		r.tail += fmt.Sprintf("\nfunc vsim_boot_var_%d() { %s }\n", i, body)
	}
	for _, d := range r.file.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Recv != nil || fd.Name.Name != "init" || fd.Body == nil || registrations(fd.Body) {
			continue
		}
		name := fmt.Sprintf("vsim_boot_init_%d_%d", n, len(calls))
		r.tail += fmt.Sprintf("\nfunc %s() %s\n", name, r.render(fd.Body))
		calls = append(calls, name+"()")
	}
	return
}

// registrations tells whether a function does nothing but gob.Register.
func registrations(b *ast.BlockStmt) bool {
	for _, s := range b.List {
		e, ok := s.(*ast.ExprStmt)
		if !ok {
			return false
		}
		c, ok := e.X.(*ast.CallExpr)
		if !ok {
			return false
		}
		f, ok := c.Fun.(*ast.SelectorExpr)
		if !ok || f.Sel.Name != "Register" {
			return false
		}
		if x, ok := f.X.(*ast.Ident); !ok || x.Name != "gob" {
			return false
		}
	}
	return true
}

func (r *rewriter) rewrite() []byte {
	for _, d := range r.file.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok {
			if fd.Body == nil {
				continue
			}
			skip := false
			if fd.Doc != nil {
				for _, c := range fd.Doc.List {
					if strings.HasPrefix(c.Text, "//go:nosplit") || strings.HasPrefix(c.Text, "//go:norace") {
						skip = true
					}
				}
			}
			if skip {
				y := r.yields
				r.yields = false
				r.visit(fd)
				r.yields = y
				continue
			}
		}
		if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.IMPORT {
			continue
		}
		r.visit(d)
	}
	if len(r.edits) == 0 && r.tail == "" {
		return nil
	}
	imports := ""
	if r.usesSim {
		imports += `; import vsim_ "spagosim/vsim"`
	}
	var al []string
	for a := range r.used {
		al = append(al, a)
	}
	sort.Strings(al)
	for _, a := range al {
		path := ""
		for _, s := range shims {
			if s[1] == a {
				path = s[0]
			}
		}
		if a == "vreflect_" {
			path = "spagosim/vsim/vreflect"
		}
		imports += "; import " + a + ` "` + path + `"`
	}
	r.close(r.file.Name.End(), imports)
	// imports whose every use was redirected
	for _, is := range r.file.Imports {
		path := strings.Trim(is.Path.Value, `"`)
		_, shimmed := shims[path]
		if !shimmed && path != "reflect" {
			continue
		}
		if is.Name != nil && (is.Name.Name == "_" || is.Name.Name == ".") {
			continue
		}
		still := false
		ast.Inspect(r.file, func(n ast.Node) bool {
			id, ok := n.(*ast.Ident)
			if !ok {
				return true
			}
			pn, ok := r.info.Uses[id].(*types.PkgName)
			if ok && pn.Imported().Path() == path && !r.redirected[id] {
				still = true
			}
			return true
		})
		if !still {
			if is.Name != nil {
				r.repl(is.Name.Pos(), is.Name.End(), "_")
			} else {
				r.open(is.Path.Pos(), "_ ")
			}
		}
	}
	s := apply(r.src, 0, len(r.src), r.edits)
	return []byte(s + r.tail)
}
