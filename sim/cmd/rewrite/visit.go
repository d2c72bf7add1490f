package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

func (r *rewriter) sim(name string) string {
	r.usesSim = true
	return "vsim_." + name
}

func (r *rewriter) typeOf(e ast.Expr) types.Type {
	t := r.info.TypeOf(e)
	if t == nil {
		return nil
	}
	return t
}

func coreType(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if tp, ok := t.(*types.TypeParam); ok {
		// single core type of the constraint, if any
		it, _ := tp.Constraint().Underlying().(*types.Interface)
		if it == nil {
			return nil
		}
		var core types.Type
		add := func(u types.Type) bool {
			if core == nil || types.Identical(core, u) {
				core = u
				return true
			}
			a, ok1 := core.(*types.Chan)
			b, ok2 := u.(*types.Chan)
			if !ok1 || !ok2 || !types.Identical(a.Elem(), b.Elem()) {
				return false
			}
			if a.Dir() == types.SendRecv {
				core = u
			}
			return true
		}
		for i := 0; i < it.NumEmbeddeds(); i++ {
			switch e := it.EmbeddedType(i).(type) {
			case *types.Union:
				for j := 0; j < e.Len(); j++ {
					if !add(e.Term(j).Type().Underlying()) {
						return nil
					}
				}
			default:
				if _, ok := e.Underlying().(*types.Interface); !ok && !add(e.Underlying()) {
					return nil
				}
			}
		}
		return core
	}
	return t.Underlying()
}

func (r *rewriter) chanType(e ast.Expr) *types.Chan {
	c, _ := coreType(r.typeOf(e)).(*types.Chan)
	return c
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func isRecv(e ast.Expr) (*ast.UnaryExpr, bool) {
	u, ok := unparen(e).(*ast.UnaryExpr)
	return u, ok && u.Op == token.ARROW
}

// visitChildren visits the direct children of n.
func (r *rewriter) visitChildren(n ast.Node) {
	ast.Inspect(n, func(c ast.Node) bool {
		if c == n {
			return true
		}
		if c != nil {
			r.visit(c)
		}
		return false
	})
}

func (r *rewriter) visit(n ast.Node) {
	switch n := n.(type) {
	case nil:
		return
	case *ast.BlockStmt:
		r.stmts(n.List)
		return
	case *ast.ForStmt:
		if r.yields && len(n.Body.List) == 0 {
			// an empty loop must not run forever without a scheduling point
			r.open(n.Body.Rbrace, r.sim("Y(); "))
		}
	case *ast.CaseClause:
		for _, e := range n.List {
			r.visit(e)
		}
		r.stmts(n.Body)
		return
	case *ast.FuncLit:
		r.lits = append(r.lits, n)
		r.visitChildren(n)
		r.lits = r.lits[:len(r.lits)-1]
		return
	case *ast.GoStmt:
		r.goStmt(n)
		return
	case *ast.SendStmt:
		r.stats["send"]++
		r.open(n.Chan.Pos(), r.sim("Send("))
		r.visit(n.Chan)
		r.repl(n.Chan.End(), n.Value.Pos(), ")(")
		r.visit(n.Value)
		r.close(n.Value.End(), ")")
		return
	case *ast.UnaryExpr:
		if n.Op == token.ARROW {
			r.recv(n, "Recv")
			return
		}
	case *ast.AssignStmt:
		if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
			if u, ok := isRecv(n.Rhs[0]); ok {
				for _, l := range n.Lhs {
					r.visit(l)
				}
				r.recv(u, "Recv2")
				return
			}
		}
	case *ast.ValueSpec:
		if len(n.Names) == 2 && len(n.Values) == 1 {
			if u, ok := isRecv(n.Values[0]); ok {
				if n.Type != nil {
					r.visit(n.Type)
				}
				r.recv(u, "Recv2")
				return
			}
		}
	case *ast.CallExpr:
		if r.callExpr(n) {
			return
		}
	case *ast.RangeStmt:
		if r.rangeStmt(n) {
			return
		}
	case *ast.SelectStmt:
		r.selectStmt(n)
		return
	case *ast.SelectorExpr:
		if id, ok := n.X.(*ast.Ident); ok {
			if pn, ok := r.info.Uses[id].(*types.PkgName); ok {
				path := pn.Imported().Path()
				if path == "reflect" && n.Sel.Name == "MapIter" {
					r.used["vreflect_"] = true
					r.redirected[id] = true
					r.repl(n.Pos(), n.End(), "vreflect_.Iter")
					return
				}
				if s, ok := shims[path]; ok && r.exports[path][n.Sel.Name] {
					r.used[s[1]] = true
					r.redirected[id] = true
					r.stats["shim "+path]++
					r.repl(id.Pos(), id.End(), s[1])
				}
				return
			}
		}
	case *ast.LabeledStmt:
		r.visit(n.Stmt)
		return
	}
	r.visitChildren(n)
}

func (r *rewriter) recv(u *ast.UnaryExpr, fn string) {
	r.stats["recv"]++
	r.repl(u.OpPos, u.OpPos+2, "")
	r.open(u.X.Pos(), r.sim(fn+"("))
	r.visit(u.X)
	r.close(u.X.End(), ")")
}

func (r *rewriter) stmts(list []ast.Stmt) {
	for _, s := range list {
		switch s.(type) {
		case *ast.EmptyStmt:
			continue
		case *ast.CaseClause, *ast.CommClause:
			r.visit(s)
			continue
		}
		if r.yields {
			r.stats["yield points"]++
			r.open(s.Pos(), r.sim("Y(); "))
		}
		after := false
		if r.yields {
			w, rd := r.memory(s)
			if w || rd {
				r.stats["memory points"]++
				r.open(s.Pos(), r.sim("M(); "))
			}
			after = w
		}
		if !r.yields || !r.rmw(s) {
			r.visit(s)
		}
		if after {
			r.close(s.End(), "; "+r.sim("M()"))
		}
	}
}

// memory reports whether an assignment writes to memory that others may see
// (elements of slices excepted), and whether a statement mentions a variable of
// the package that is assigned to somewhere.
func (r *rewriter) memory(s ast.Stmt) (write, read bool) {
	lhs := func(e ast.Expr) {
		e = unparen(e)
		if x, ok := e.(*ast.IndexExpr); ok {
			if t := r.info.TypeOf(x.X); t != nil {
				if _, ok := t.Underlying().(*types.Map); ok {
					write = true
				}
			}
			return
		}
		if id, ok := e.(*ast.Ident); ok && id.Name == "_" {
			return
		}
		write = write || r.shared(e)
	}
	switch s := s.(type) {
	case *ast.AssignStmt:
		if s.Tok != token.DEFINE {
			for _, e := range s.Lhs {
				lhs(e)
			}
		}
	case *ast.IncDecStmt:
		lhs(s.X)
	}
	ast.Inspect(s, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt, *ast.FuncLit:
			return false
		case *ast.Ident:
			if v, ok := r.info.Uses[n].(*types.Var); ok && r.globals[v] {
				read = true
			}
		}
		return !read
	})
	return
}

func pure(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.Ident, *ast.BasicLit:
		return true
	case *ast.SelectorExpr:
		return pure(e.X)
	case *ast.StarExpr:
		return pure(e.X)
	case *ast.ParenExpr:
		return pure(e.X)
	case *ast.IndexExpr:
		return pure(e.X) && pure(e.Index)
	case *ast.BinaryExpr:
		return pure(e.X) && pure(e.Y)
	}
	return false
}

func hasCall(e ast.Expr) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CallExpr, *ast.FuncLit:
			found = true
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				found = true
			}
		}
		return !found
	})
	return found
}

// shared reports whether e may denote memory visible to other goroutines.
func (r *rewriter) shared(e ast.Expr) bool {
	switch e := unparen(e).(type) {
	case *ast.Ident:
		v, ok := r.info.Uses[e].(*types.Var)
		if !ok {
			return false
		}
		if v.Parent() == r.pkg.Scope() {
			return true
		}
		if n := len(r.lits); n > 0 {
			l := r.lits[n-1]
			return v.Pos() < l.Pos() || v.Pos() > l.End()
		}
		return false
	case *ast.SelectorExpr:
		if id, ok := e.X.(*ast.Ident); ok {
			if _, ok := r.info.Uses[id].(*types.PkgName); ok {
				return false
			}
		}
		return true
	case *ast.StarExpr, *ast.IndexExpr:
		return true
	}
	return false
}

// rmw splits read-modify-write statements into a load, a preemption point and
// a store.
func (r *rewriter) rmw(s ast.Stmt) bool {
	switch s := s.(type) {
	case *ast.IncDecStmt:
		if !pure(s.X) || !r.shared(s.X) {
			return false
		}
		x := r.render(s.X)
		op := "+"
		if s.Tok == token.DEC {
			op = "-"
		}
		r.stats["split read-modify-write"]++
		r.repl(s.Pos(), s.End(), fmt.Sprintf("{ vt_ := %s; %s; %s = vt_ %s 1 }", x, r.sim("Y()"), x, op))
		return true
	case *ast.AssignStmt:
		if len(s.Lhs) != 1 || len(s.Rhs) != 1 || !pure(s.Lhs[0]) || !r.shared(s.Lhs[0]) {
			return false
		}
		if s.Tok == token.ASSIGN {
			lt := r.text(s.Lhs[0].Pos(), s.Lhs[0].End())
			if id, ok := s.Lhs[0].(*ast.Ident); ok && id.Name == "_" {
				return false
			}
			tv := r.info.Types[s.Rhs[0]]
			if tv.Value != nil || tv.Type == nil {
				return false
			}
			if b, ok := tv.Type.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
				return false
			}
			mentions := false
			ast.Inspect(s.Rhs[0], func(n ast.Node) bool {
				if e, ok := n.(ast.Expr); ok && r.text(e.Pos(), e.End()) == lt {
					mentions = true
				}
				return true
			})
			// the type of 1 << n depends on where it stands
			ast.Inspect(s.Rhs[0], func(n ast.Node) bool {
				if b, ok := n.(*ast.BinaryExpr); ok && (b.Op == token.SHL || b.Op == token.SHR) && r.info.Types[b.X].Value != nil {
					mentions = false
				}
				return true
			})
			if !mentions {
				return false
			}
			if _, isMap := coreType(r.typeOf(s.Rhs[0])).(*types.Tuple); isMap {
				return false
			}
			r.stats["split read-modify-write"]++
			// x = e  ->  { vt_ := e; Y(); x = vt_ }
			x := r.render(s.Lhs[0])
			r.repl(s.Lhs[0].Pos(), s.Rhs[0].Pos(), "{ vt_ := ")
			r.visit(s.Rhs[0])
			r.close(s.Rhs[0].End(), fmt.Sprintf("; %s; %s = vt_ }", r.sim("Y()"), x))
			return true
		}
		if s.Tok == token.DEFINE || hasCall(s.Rhs[0]) {
			return false
		}
		op := strings.TrimSuffix(s.Tok.String(), "=")
		x, y := r.render(s.Lhs[0]), r.render(s.Rhs[0])
		r.stats["split read-modify-write"]++
		r.repl(s.Pos(), s.End(), fmt.Sprintf("{ vt_ := %s; %s; %s = vt_ %s (%s) }", x, r.sim("Y()"), x, op, y))
		return true
	}
	return false
}

func (r *rewriter) goStmt(n *ast.GoStmt) {
	r.stats["go"]++
	call := n.Call
	if fl, ok := call.Fun.(*ast.FuncLit); ok && len(call.Args) == 0 {
		r.repl(n.Go, fl.Pos(), r.sim("Go("))
		r.visit(fl)
		r.repl(fl.End(), call.Rparen+1, ")")
		return
	}
	var names, vals, args []string
	fresh := false
	fun := unparen(call.Fun)
	static := false
	switch f := fun.(type) {
	case *ast.Ident:
		switch r.info.Uses[f].(type) {
		case *types.Func, *types.Builtin:
			static = true
		}
	case *ast.SelectorExpr:
		if id, ok := f.X.(*ast.Ident); ok {
			if _, ok := r.info.Uses[id].(*types.PkgName); ok {
				static = true
			}
		}
	case *ast.IndexExpr, *ast.IndexListExpr:
		static = true
	}
	if tv, ok := r.info.Types[call.Fun]; ok && (tv.IsType() || tv.IsBuiltin()) {
		static = true
	}
	ftext := r.renderFun(call.Fun)
	if !static {
		names, vals = append(names, "vf_"), append(vals, ftext)
		ftext = "vf_"
		fresh = true
	}
	for i, a := range call.Args {
		t := r.render(a)
		tv := r.info.Types[a]
		bt, _ := tv.Type.(*types.Basic)
		_, tuple := tv.Type.(*types.Tuple)
		if tv.Value != nil || tv.IsNil() || tuple || bt != nil && bt.Info()&types.IsUntyped != 0 || tv.IsType() {
			args = append(args, t)
			continue
		}
		v := fmt.Sprintf("va%d_", i)
		names, vals, args = append(names, v), append(vals, t), append(args, v)
		fresh = true
	}
	ell := ""
	if call.Ellipsis.IsValid() {
		ell = "..."
	}
	s := r.sim("Go(func() { ") + ftext + "(" + strings.Join(args, ", ") + ell + ") })"
	if fresh {
		s = "{ " + strings.Join(names, ", ") + " := " + strings.Join(vals, ", ") + "; " + s + " }"
	}
	r.repl(n.Pos(), n.End(), s)
}

func (r *rewriter) renderFun(f ast.Expr) string {
	if id, ok := f.(*ast.Ident); ok {
		if b, ok := r.info.Uses[id].(*types.Builtin); ok && b.Name() == "close" {
			return r.sim("Close")
		}
	}
	return r.render(f)
}

// callExpr handles close, len of channels and reflective map iteration.
func (r *rewriter) callExpr(n *ast.CallExpr) bool {
	switch f := unparen(n.Fun).(type) {
	case *ast.Ident:
		b, ok := r.info.Uses[f].(*types.Builtin)
		if !ok || len(n.Args) != 1 {
			return false
		}
		switch b.Name() {
		case "close":
			r.repl(f.Pos(), f.End(), r.sim("Close"))
			r.stats["close"]++
			r.visit(n.Args[0])
			return true
		case "len":
			if c := r.chanType(n.Args[0]); c != nil {
				fn := "Len"
				if c.Dir() == types.SendOnly {
					fn = "LenS"
				}
				r.repl(f.Pos(), f.End(), r.sim(fn))
				r.visit(n.Args[0])
				return true
			}
		}
	case *ast.SelectorExpr:
		if f.Sel.Name != "MapRange" && f.Sel.Name != "MapKeys" || len(n.Args) != 0 {
			return false
		}
		sel := r.info.Selections[f]
		if sel == nil {
			return false
		}
		fn, _ := sel.Obj().(*types.Func)
		if fn == nil || fn.Pkg() == nil || fn.Pkg().Path() != "reflect" || sel.Recv().String() != "reflect.Value" {
			return false
		}
		r.used["vreflect_"] = true
		r.stats["reflect map range"]++
		r.open(n.Pos(), "vreflect_."+f.Sel.Name+"(")
		r.visit(f.X)
		r.repl(f.X.End(), n.End(), ")")
		return true
	}
	return false
}

func (r *rewriter) rangeStmt(n *ast.RangeStmt) bool {
	named := func(e ast.Expr) string {
		if e == nil {
			return ""
		}
		if id, ok := e.(*ast.Ident); ok && id.Name == "_" {
			return ""
		}
		return r.render(e)
	}
	addr := func(s string) string {
		if s == "" {
			return "nil"
		}
		return "&" + s
	}
	addressable := func(e ast.Expr) bool {
		if ix, ok := e.(*ast.IndexExpr); ok {
			if _, m := coreType(r.typeOf(ix.X)).(*types.Map); m {
				return false
			}
		}
		return true
	}
	switch coreType(r.typeOf(n.X)).(type) {
	case *types.Chan:
		k := named(n.Key)
		if n.Key != nil && n.Tok == token.ASSIGN && !addressable(n.Key) {
			die("%s: unsupported range assignment", r.fset.Position(n.Pos()))
		}
		r.stats["range chan"]++
		if k != "" && n.Tok == token.DEFINE {
			r.repl(n.For, n.X.Pos(), "for "+k+", vit_ := "+r.sim("RangeInit("))
		} else {
			r.repl(n.For, n.X.Pos(), "for vit_ := "+r.sim("Range("))
		}
		r.visit(n.X)
		r.close(n.X.End(), "); vit_.Next("+addr(k)+"); ")
		r.visit(n.Body)
		return true
	case *types.Map:
		k, v := named(n.Key), named(n.Value)
		if n.Tok == token.ASSIGN && (n.Key != nil && !addressable(n.Key) || n.Value != nil && !addressable(n.Value)) {
			return false
		}
		r.stats["range map"]++
		if (k != "" || v != "") && n.Tok == token.DEFINE {
			bl := func(s string) string {
				if s == "" {
					return "_"
				}
				return s
			}
			r.repl(n.For, n.X.Pos(), "for "+bl(k)+", "+bl(v)+", vit_ := "+r.sim("MapInit("))
		} else {
			r.repl(n.For, n.X.Pos(), "for vit_ := "+r.sim("MapIter("))
		}
		r.visit(n.X)
		r.close(n.X.End(), "); vit_.Next("+addr(k)+", "+addr(v)+"); ")
		r.visit(n.Body)
		return true
	}
	return false
}

func (r *rewriter) selectStmt(n *ast.SelectStmt) {
	r.stats["select"]++
	var names, inits []string
	hasDefault := false
	type cl struct {
		c    *ast.CommClause
		text string
	}
	var cls []cl
	for _, s := range n.Body.List {
		c := s.(*ast.CommClause)
		if c.Comm == nil {
			hasDefault = true
			cls = append(cls, cl{c, "default:"})
			continue
		}
		v := fmt.Sprintf("vc%d_", len(names))
		txt := fmt.Sprintf("case %d:", len(names))
		names = append(names, v)
		var u *ast.UnaryExpr
		switch m := c.Comm.(type) {
		case *ast.SendStmt:
			inits = append(inits, r.sim("SendCase(")+r.render(m.Chan)+")("+r.render(m.Value)+")")
		case *ast.ExprStmt:
			u, _ = isRecv(m.X)
		case *ast.AssignStmt:
			u, _ = isRecv(m.Rhs[0])
			var l []string
			for _, e := range m.Lhs {
				l = append(l, r.render(e))
			}
			m2 := ".Val()"
			if len(l) == 2 {
				m2 = ".Val2()"
			}
			txt += " " + strings.Join(l, ", ") + " " + m.Tok.String() + " " + v + m2 + ";"
		}
		if u != nil {
			inits = append(inits, r.sim("RecvCase(")+r.render(u.X)+")")
		}
		cls = append(cls, cl{c, txt})
	}
	head := "switch "
	if len(names) > 0 {
		head += strings.Join(names, ", ") + " := " + strings.Join(inits, ", ") + "; "
	}
	head += r.sim("Select(") + fmt.Sprint(hasDefault)
	for _, v := range names {
		head += ", " + v
	}
	head += ") "
	head = strings.ReplaceAll(head, "\n", " ")
	r.repl(n.Select, n.Body.Lbrace, head)
	for _, c := range cls {
		r.repl(c.c.Case, c.c.Colon+1, c.text)
		r.stmts(c.c.Body)
	}
	if !hasDefault {
		r.close(n.Body.Rbrace, `default: panic("vsim: select") `)
	}
}
