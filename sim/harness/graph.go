package harness

import (
	"fmt"
	"math"
	"strings"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/nn"

	"spagosim/vsim"
)

// gnode is a node of the reference graph.
type gnode struct {
	ref
	rg bool // requires gradients
}

// gleaf describes a leaf tensor.
type gleaf struct {
	R, C int
	Kind int  // 0 matrix, 1 parameter, 2 buffer, 3 bare scalar
	Grad bool // requires gradients (not for buffers)
	Pre  bool // holds a gradient before the first pass
	Fill int  // values: 0 random, 1 ones, 2 zeros, 3 minus ones, 4 a unit vector
}

// ginstr is one operation; operands are selected among the earlier nodes.
type ginstr struct {
	Op   string
	Sel  []int
	Mode int // 0: function of package ag, 1: asynchronous operator, 2: synchronous operator
}

// graphW is a random expression graph.
type graphW struct {
	F64, Exact bool
	Huge       bool // a few operations on large matrices
	Seed       uint64
	Leaves     []gleaf
	Instrs     []ginstr
}

type pnode struct {
	gnode
	op   *opDef // nil: leaf
	in   []int
	k    []int
	mode int
	leaf gleaf
}

// gplan is a resolved graph with reference values.
type gplan struct {
	f64, exact bool
	flat       bool
	huge       bool
	nodes      []pnode
	nl         int // leaves
	uses       []int
	gelu       bool
	pre        [][]float64 // initial gradients of the leaves
}

func genGraph(r *Rng, leaves, instrs int) graphW {
	return genGraphP(r, leaves, instrs, .004)
}

// genGraphP draws a graph, of large matrices with the given probability.
func genGraphP(r *Rng, leaves, instrs int, huge float64) graphW {
	w := graphW{F64: r.P(.4), Exact: r.P(.5), Seed: r.U64()}
	base := [][2]int{}
	product := false
	for i := r.Range(1, 3); i > 0; i-- {
		base = append(base, [2]int{r.Size(5), r.Size(5)})
	}
	if r.P(huge) {
		w.Huge, w.Exact, w.F64 = true, true, r.P(.75)
		leaves, instrs = min(leaves, 4), min(instrs, 6)
		n := int(200 * math.Exp(r.F()*math.Log(60)))
		c := r.Range(1, 128)
		base = [][2]int{{max(1, n/c), c}}
		if r.P(.4) { // products of matrices of more than a few rows
			product = true
			a, b, c := r.Range(1, 24), r.Range(1, 24), r.Range(13, 200)
			d := []int{a, b, a}
			d[r.Intn(3)] = c
			for _, s := range [][2]int{{d[0], d[1]}, {d[1], d[2]}, {d[0], d[2]}, {d[0], 1}, {d[1], 1}} {
				w.Leaves = append(w.Leaves, gleaf{R: s[0], C: s[1], Kind: Pick(r, 0, 0, 1, 1, 2), Grad: r.P(.8), Pre: r.P(.15)})
			}
			leaves = 1
		}
	}
	special := Pick(r, .05, .05, .05, .5)
	for i := r.Range(1, leaves); i > 0; i-- {
		b := base[r.Intn(len(base))]
		l := gleaf{R: b[0], C: b[1], Kind: Pick(r, 0, 0, 1, 1, 2), Grad: r.P(.8), Pre: r.P(.15)}
		switch r.Intn(8) {
		case 0:
			l.R, l.C = l.C, l.R
		case 1:
			l.C = 1
		case 2:
			l.R = 1
		case 3:
			l.R, l.C = 1, 1
		case 4:
			l.R, l.C, l.Kind = 1, 1, 3
		case 5:
			l.R, l.C = l.C, 1
		}
		if r.P(special) {
			l.Fill = Pick(r, 1, 1, 2, 3, 4)
		}
		w.Leaves = append(w.Leaves, l)
	}
	var names []string
	for _, o := range ops {
		if !w.Exact || o.exact {
			names = append(names, o.name)
		}
	}
	if product {
		names = []string{"Mul", "Mul", "Affine", "Affine", "MulT", "Add", "ReduceSum"}
	} else if r.P(.3) { // few kinds of operations
		var s []string
		for i := r.Range(1, 4); i > 0; i-- {
			s = append(s, Pick(r, names...))
		}
		names = append(s, "Add", "ReduceSum")
	}
	for i := r.Range(1, instrs); i > 0; i-- {
		in := ginstr{Op: Pick(r, names...), Mode: Pick(r, 0, 0, 1, 1, 2)}
		for k := r.Range(3, 6); k > 0; k-- {
			in.Sel = append(in.Sel, r.Intn(1000))
		}
		w.Instrs = append(w.Instrs, in)
	}
	return w
}

func small(m ref, exact bool, limit float64) bool {
	for _, v := range m.v {
		if math.IsNaN(v) || math.IsInf(v, 0) || math.Abs(v) > limit {
			return false
		}
		if exact && v*1024 != math.Trunc(v*1024) {
			return false
		}
	}
	return true
}

// plan resolves a workload; it never fails, invalid instructions are dropped.
//
// noAlp: parameters of activations do not require gradients; flat: every
// operation is a single operator, so that no operator is out of reach.
func (w *graphW) plan(noAlp, flat bool) *gplan {
	p := &gplan{f64: w.F64, exact: w.Exact, flat: flat}
	r := NewRng(w.Seed)
	for _, l := range w.Leaves {
		if len(p.nodes) >= 40 {
			break
		}
		dim := func(v int) int {
			if v < 1 {
				return 1
			}
			if v > 12 && !w.Huge {
				return 12
			}
			return v
		}
		if l.R < 1 || l.C < 1 || l.R > 12800/l.C {
			l.R, l.C = 1, 1
		}
		l.R, l.C = dim(l.R), dim(l.C)
		if l.Kind == 3 {
			l.R, l.C = 1, 1
		}
		if l.Kind == 2 {
			l.Grad = false
		}
		m := ref{l.R, l.C, randData(r, l.R*l.C, w.Exact)}
		for i := range m.v {
			switch l.Fill {
			case 1:
				m.v[i] = 1
			case 2:
				if w.Exact {
					m.v[i] = 0
				}
			case 3:
				m.v[i] = -1
			case 4:
				if w.Exact && i != int(w.Seed%uint64(len(m.v))) {
					m.v[i] = 0
				} else {
					m.v[i] = 1
				}
			}
		}
		pre := randData(r, l.R*l.C, true)
		if !l.Grad || !l.Pre {
			pre = nil
		}
		p.pre = append(p.pre, pre)
		p.nodes = append(p.nodes, pnode{gnode: gnode{m, l.Grad}, leaf: l})
	}
	p.nl = len(p.nodes)
	p.uses = make([]int, p.nl)
	if w.Huge {
		p.huge = true
		if len(w.Instrs) > 8 {
			return p
		}
	}
	if p.nl > 0 {
		p.extend(w.Instrs, noAlp)
	}
	return p
}

// extend appends instructions to the plan.
func (p *gplan) extend(instrs []ginstr, noAlp bool) {
	gs := make([]gnode, len(p.nodes))
	for i, n := range p.nodes {
		gs[i] = n.gnode
	}
	for _, in := range instrs {
		if len(gs) >= 200 {
			break
		}
		op := opNamed(in.Op)
		if p.exact && !op.exact || p.flat && op.mk == nil && op.name != "StopGrad" {
			continue
		}
		pk := &picker{sel: in.Sel, nodes: gs, noAlp: noAlp}
		ids, k, ok := op.pick(pk)
		if !ok {
			continue
		}
		args := make([]ref, len(ids))
		for i, a := range ids {
			if a < 0 {
				ok = false
				break
			}
			args[i] = gs[a].ref
		}
		if !ok {
			continue
		}
		limit, most := 60., 400
		if p.huge {
			if most = 12800; p.f64 {
				limit = 2000
			}
			for _, h := range []string{"Mul", "Affine", "BiLinear", "BiAffine", "RotateR"} {
				if strings.HasPrefix(op.name, h) && args[0].size() > 2500 {
					ok = (op.name == "Mul" || op.name == "Affine") && args[0].size()*args[len(args)-1].size() < 400000
				}
			}
			if !ok {
				continue
			}
		}
		out, ok := op.fwd(args, k)
		if !ok || !small(out, p.exact, limit) || out.size() > most || out.size() == 0 {
			continue
		}
		n := pnode{gnode: gnode{ref: out}, op: op, in: ids, k: k, mode: in.Mode}
		if n.mode < 0 || n.mode > 2 || op.mk == nil {
			n.mode = 0
		}
		if op.name != "StopGrad" {
			for _, a := range ids {
				n.rg = n.rg || gs[a].rg
			}
		}
		if op.name == "GELU" {
			p.gelu = true
		}
		for _, a := range ids {
			p.uses[a]++
		}
		p.uses = append(p.uses, 0)
		p.nodes = append(p.nodes, n)
		gs = append(gs, n.gnode)
	}
}

// isOp tells whether node i is an operator (rather than a leaf or a blocker).
func (p *gplan) isOp(i int) bool {
	return p.nodes[i].op != nil && p.nodes[i].op.name != "StopGrad"
}

// valuesWithNoise evaluates the reference with a relative error per element.
func (p *gplan) valuesWithNoise(eps float64, r *Rng) []ref {
	out := make([]ref, len(p.nodes))
	for i, n := range p.nodes {
		if n.op == nil {
			out[i] = n.ref
			continue
		}
		args := make([]ref, len(n.in))
		for j, a := range n.in {
			args[j] = out[a]
		}
		m, _ := n.op.fwd(args, n.k)
		m = ref{m.r, m.c, append([]float64(nil), m.v...)}
		if eps > 0 && n.op.name != "StopGrad" {
			sc := 0.0
			for _, v := range m.v {
				sc = math.Max(sc, math.Abs(v))
			}
			for _, a := range args { // cancellation
				for _, v := range a.v {
					sc = math.Max(sc, math.Min(math.Abs(v), 1))
				}
			}
			for j := range m.v {
				m.v[j] += eps * sc * (2*r.F() - 1)
			}
		}
		out[i] = m
	}
	return out
}

func (p *gplan) eps() float64 {
	if p.f64 {
		return 2e-15
	}
	return 5e-7
}

// gpass is one backward pass.
type gpass struct {
	Outs []int // output nodes
	Seed []int // nodes that get an explicit gradient before the pass
	Zero int   // before the pass: 1 clear every gradient, 2 clear the gradients of the operators
}

func seedGrad(p *gplan, pass, node int) ref {
	n := p.nodes[node]
	return ref{n.r, n.c, randData(NewRng(Mix(uint64(pass)*1000+uint64(node), 99)), n.size(), true)}
}

// result of the reference: gradients (nil: none) after each pass, and for each
// pass the complete gradient each operator propagates (nil: none).
type gexpect struct {
	after [][]*ref
	prop  [][]*ref
}

func (p *gplan) reach(outs []int) []bool {
	in := make([]bool, len(p.nodes))
	for _, o := range outs {
		if p.isOp(o) && p.nodes[o].rg {
			in[o] = true
		}
	}
	for i := len(p.nodes) - 1; i >= 0; i-- {
		if in[i] {
			for _, a := range p.nodes[i].in {
				if p.isOp(a) && p.nodes[a].rg {
					in[a] = true
				}
			}
		}
	}
	return in
}

// backward computes the reference gradients of a sequence of passes.
func (p *gplan) backward(vals []ref, passes []gpass, eps float64, r *Rng) gexpect {
	var ex gexpect
	cur := make([]*ref, len(p.nodes))
	for i, g := range p.pre {
		if g != nil {
			cur[i] = &ref{p.nodes[i].r, p.nodes[i].c, g}
		}
	}
	acc := func(i int, g ref) {
		if !p.nodes[i].rg {
			return
		}
		if cur[i] == nil {
			z := zeros(g.r, g.c)
			cur[i] = &z
		}
		s := cur[i].zip(g, func(a, b float64) float64 { return a + b })
		if eps > 0 {
			m := 0.0
			for j := range s.v {
				m = math.Max(m, math.Max(math.Abs(g.v[j]), math.Abs(s.v[j])))
			}
			for j := range s.v {
				s.v[j] += eps * m * (2*r.F() - 1)
			}
		}
		cur[i] = &s
	}
	for pi, ps := range passes {
		if ps.Zero > 0 {
			for i := range cur {
				if ps.Zero == 1 || p.isOp(i) {
					cur[i] = nil
				}
			}
		}
		for _, s := range ps.Seed {
			acc(s, seedGrad(p, pi, s))
		}
		in := p.reach(ps.Outs)
		seeded := map[int]bool{}
		for _, o := range ps.Outs {
			if in[o] && cur[o] == nil && !seeded[o] {
				seeded[o] = true
				acc(o, scalarRef(1))
			}
		}
		prop := make([]*ref, len(p.nodes))
		for i := len(p.nodes) - 1; i >= 0; i-- {
			if !in[i] || cur[i] == nil {
				continue
			}
			n := p.nodes[i]
			g := *cur[i]
			prop[i] = &g
			args := make([]ref, len(n.in))
			for j, a := range n.in {
				args[j] = vals[a]
			}
			for j, gr := range n.op.vjp(args, vals[i], g, n.k) {
				if gr != nil {
					acc(n.in[j], *gr)
				}
			}
		}
		ex.prop = append(ex.prop, prop)
		ex.after = append(ex.after, append([]*ref(nil), cur...))
	}
	return ex
}

// expectation of gradients with an error model.
type gcheck struct {
	p     *gplan
	main  gexpect
	noisy []gexpect
	vals  []ref
	nvals [][]ref
}

func (p *gplan) expect(passes []gpass) *gcheck {
	c := &gcheck{p: p}
	c.vals = p.valuesWithNoise(0, nil)
	c.main = p.backward(c.vals, passes, 0, nil)
	if p.exact && !p.dyadic(c.main) {
		p.exact = false // rounding is possible after all
	}
	if !p.exact {
		for k := 0; k < 2; k++ {
			r := NewRng(uint64(k) + 17)
			v := p.valuesWithNoise(p.eps(), r)
			c.nvals = append(c.nvals, v)
			c.noisy = append(c.noisy, p.backward(v, passes, p.eps(), r))
		}
	}
	return c
}

// dyadic tells whether every gradient has so few significant bits that no
// rounding takes place.
func (p *gplan) dyadic(ex gexpect) bool {
	for _, pass := range append(append([][]*ref(nil), ex.after...), ex.prop...) {
		for _, g := range pass {
			if g != nil && !all(*g, p.short) {
				return false
			}
		}
	}
	return true
}

func (p *gplan) short(v float64) bool {
	unit, max := 1024.0, 4096.0
	if p.f64 {
		unit, max = 1<<24, 1<<26
	}
	return math.Abs(v) <= max && v*unit == math.Trunc(v*unit)
}

func (p *gplan) base() float64 {
	switch {
	case p.gelu:
		return 1e-4
	case p.f64:
		return 1e-10
	}
	return 2e-5
}

// compare judges got against want given noisy evaluations. The result is
// "" (agrees), "?" (too sensitive to judge) or a description.
func (c *gcheck) compare(got []float64, want ref, noisy []ref) string {
	if len(got) != want.size() {
		return fmt.Sprintf("has %d elements, expected %d", len(got), want.size())
	}
	scale, diff := 1.0, 0.0
	for i, v := range want.v {
		if c.p.exact && !c.p.short(v) {
			return "?"
		}
		scale = math.Max(scale, math.Abs(v))
		for _, n := range noisy {
			d := math.Abs(n.v[i] - v)
			if !(d <= diff) {
				diff = d
			}
		}
	}
	if math.IsNaN(diff) || math.IsNaN(scale) || diff > 3e-4*scale || scale > 1e7 {
		return "?"
	}
	tol := c.p.base()*scale + 300*diff
	if c.p.exact {
		tol = 0
	}
	for i := range got {
		if !(math.Abs(got[i]-want.v[i]) <= tol) {
			return fmt.Sprintf("element %d is %v, expected %v", i, got[i], want.v[i])
		}
	}
	return ""
}

func isZero(g *ref) bool { return g == nil || all(*g, func(v float64) bool { return v == 0 }) }

func zeroVals(g []float64) bool {
	for _, v := range g {
		if v != 0 {
			return false
		}
	}
	return true
}

func pick(e []gexpect, f func(gexpect) *ref) []ref {
	var out []ref
	for _, x := range e {
		if g := f(x); g != nil {
			out = append(out, *g)
		}
	}
	return out
}

// grad judges the observed gradient of node i after a pass (nil: none).
func (c *gcheck) grad(pass, i int, got []float64) string {
	want := c.main.after[pass][i]
	if want == nil {
		if got == nil || c.p.nodes[i].rg && zeroVals(got) {
			return ""
		}
		return fmt.Sprintf("is %s, expected none", short(got))
	}
	if got == nil {
		if isZero(want) {
			return ""
		}
		return "is missing, expected " + short(want.v)
	}
	return c.compare(got, *want, pick(c.noisy, func(x gexpect) *ref { return x.after[pass][i] }))
}

// rec records what the wrapped functions of a graph see.
type rec struct {
	calls  [][][]float64  // per node: the gradients given to its Backward
	after  func(i int)    // hook in Forward, before the computation
	hook   func(i int)    // hook in Backward
	around func(i, d int) // +1 on entering Forward, -1 on leaving it
}

func newRec(p *gplan) *rec { return &rec{calls: make([][][]float64, len(p.nodes))} }

// recFn delegates to a function of the library and records its use.
type recFn struct {
	ag.AutoGradFunction
	i int
	r *rec
}

func (f *recFn) Forward() (mat.Tensor, error) {
	if f.r.around != nil {
		f.r.around(f.i, 1)
		defer f.r.around(f.i, -1)
	}
	if f.r.after != nil {
		f.r.after(f.i)
	}
	return f.AutoGradFunction.Forward()
}

func (f *recFn) Backward(gy mat.Tensor) error {
	f.r.calls[f.i] = append(f.r.calls[f.i], vals(gy))
	if f.r.hook != nil {
		f.r.hook(f.i)
	}
	return f.AutoGradFunction.Backward(gy)
}

func (p *gplan) makeLeaf(i int) T {
	n := p.nodes[i]
	var t T
	switch n.leaf.Kind {
	case 1:
		t = nn.NewParam(newMat(p.f64, n.r, n.c, n.v, false)).WithGrad(n.rg)
	case 2:
		t = nn.Buf(newMat(p.f64, n.r, n.c, n.v, false))
	case 3:
		if p.f64 {
			t = mat.Scalar(n.v[0], mat.WithGrad(n.rg))
		} else {
			t = mat.Scalar(float32(n.v[0]), mat.WithGrad(n.rg))
		}
	default:
		t = newMat(p.f64, n.r, n.c, n.v, n.rg)
	}
	if p.pre[i] != nil {
		t.AccGrad(newMat(p.f64, n.r, n.c, p.pre[i], false))
	}
	return t
}

func (p *gplan) leafTensors() []T {
	out := make([]T, p.nl)
	for i := range out {
		out[i] = p.makeLeaf(i)
	}
	return out
}

// makeNode builds node i from the tensors of the earlier ones.
func (p *gplan) makeNode(i int, ts []T, r *rec) T {
	n := p.nodes[i]
	x := make([]T, len(n.in))
	for j, a := range n.in {
		x[j] = ts[a]
	}
	if n.mode == 0 {
		return n.op.api(x, n.k)
	}
	fn := n.op.mk(x, n.k)
	if r != nil {
		fn = &recFn{fn, i, r}
	}
	if n.mode == 1 {
		return ag.NewOperator(fn).Run(true)
	}
	return ag.NewOperator(fn).Run()
}

// build builds the whole graph; step is called after each operation.
func (p *gplan) build(leaves []T, r *rec, step func(i int, ts []T)) []T {
	ts := append(make([]T, 0, len(p.nodes)), leaves...)
	for i := p.nl; i < len(p.nodes); i++ {
		ts = append(ts, p.makeNode(i, ts, r))
		if step != nil {
			step(i, ts)
		}
	}
	return ts
}

func (p *gplan) desc(i int) string {
	n := p.nodes[i]
	if n.op == nil {
		return fmt.Sprintf("leaf %d (%dx%d)", i, n.r, n.c)
	}
	s := fmt.Sprintf("node %d = %s(", i, n.op.name)
	for j, a := range n.in {
		if j > 0 {
			s += ", "
		}
		s += fmt.Sprintf("%d:%dx%d", a, p.nodes[a].r, p.nodes[a].c)
	}
	return s + fmt.Sprintf("; %v) %dx%d", n.k, n.r, n.c)
}

// readValue reads a tensor in one of several ways.
func readValue(t T, how int) []float64 {
	if o, ok := t.(*ag.Operator); ok {
		switch how / 4 % 4 {
		case 1:
			o.RequiresGrad()
		case 2:
			o.Operands()
		case 3:
			if o.HasGrad() {
				o.Grad()
			}
		}
	}
	switch how % 4 {
	case 1:
		return append([]float64(nil), t.Data().F64()...)
	case 2:
		if t.Size() == 1 {
			return []float64{t.Item().F64()}
		}
		return vals(t)
	case 3:
		sh := t.Shape()
		var out []float64
		for i := 0; i < sh[0]; i++ {
			for j := 0; j < sh[1]; j++ {
				out = append(out, t.At(i, j).Item().F64())
			}
		}
		return out
	}
	return vals(t)
}

// ---- P01 ----------------------------------------------------------------

type fwdW struct {
	G       graphW
	Force   bool  // force synchronous execution in the run under test
	Readers []rdr // concurrent readers
	Back    []int // outputs of a final backward pass
	Inline  int   // every n-th node is read by the builder at once (0: none)
	Big     *bigW
}

type rdr struct {
	At    int // started after this instruction
	Nodes []int
	How   int
}

func genFwd(r *Rng) any {
	if b := genBig(r, .002); b != nil {
		return &fwdW{Big: b}
	}
	w := &fwdW{G: genGraph(r, 8, 24), Force: r.P(.05), Inline: Pick(r, 0, 0, 1, 3)}
	for k := r.Range(0, 4); k > 0; k-- {
		x := rdr{At: r.Intn(24), How: r.Intn(16)}
		for j := r.Range(1, 6); j > 0; j-- {
			x.Nodes = append(x.Nodes, r.Intn(1000))
		}
		w.Readers = append(w.Readers, x)
	}
	for k := r.Range(0, 2); k > 0; k-- {
		w.Back = append(w.Back, r.Intn(1000))
	}
	return w
}

func modulo(v, n int) int {
	if v < 0 {
		v = -v
	}
	return v % n
}

func execFwd(wl any, e *Env) *Violation {
	w := wl.(*fwdW)
	if w.Big != nil {
		return execBig(w.Big, e)
	}
	p := w.G.plan(true, false)
	n := len(p.nodes)
	if n == p.nl {
		return nil
	}
	chk := p.expect(nil)
	var want [][]float64
	if v := e.Must("sequential", func() {
		ag.SetForceSyncExecution(true)
		for i, t := range p.build(p.leafTensors(), nil, nil) {
			got := vals(t)
			sh := t.Shape()
			if len(sh) != 2 || sh[0] != p.nodes[i].r || sh[1] != p.nodes[i].c {
				Fail("shape", "%s has shape %v", p.desc(i), sh)
			}
			var noisy []ref
			for _, v := range chk.nvals {
				noisy = append(noisy, v[i])
			}
			switch d := chk.compare(got, chk.vals[i], noisy); d {
			case "":
			case "?":
				e.Probe("value too sensitive to judge")
			default:
				Fail("denotation", "%s: %s", p.desc(i), d)
			}
			want = append(want, got)
		}
		ag.SetForceSyncExecution(false)
	}, Sequential); v != nil {
		return v
	}
	return e.Must("random schedule", func() {
		ag.SetForceSyncExecution(w.Force)
		defer ag.SetForceSyncExecution(false)
		check := func(who string, i int, got []float64) {
			if !sameBits(got, want[i]) {
				Fail("value", "%s: %s reads %s, the sequential evaluation gives %s", p.desc(i), who, short(got), short(want[i]))
			}
		}
		type held struct {
			i int
			t mat.Tensor
		}
		var kept []held
		pending := 0
		start := func(x rdr, ts []T) {
			ts = append([]T(nil), ts...)
			pending++
			vsim.Go(func() {
				for _, s := range x.Nodes {
					i := modulo(s, len(ts))
					how := x.How
					if len(w.Back) > 0 && how/4%4 == 3 { // gradients are not read while a pass begins
						how %= 4
					}
					check("a concurrent reader", i, readValue(ts[i], how))
					if v := ts[i].Value(); isNilTensor(v) {
						Fail("value", "%s: a concurrent reader obtained no value", p.desc(i))
					} else {
						kept = append(kept, held{i, v})
					}
					e.Probe("concurrent read")
				}
				pending--
			})
		}
		ts := p.build(p.leafTensors(), nil, func(i int, ts []T) {
			for _, x := range w.Readers {
				if modulo(x.At, n-p.nl) == i-p.nl {
					start(x, ts)
				}
			}
			if w.Inline > 0 && i%w.Inline == 0 {
				check("the builder", i, readValue(ts[i], i))
			}
		})
		for i := len(ts) - 1; i >= 0; i-- {
			check("the builder", i, readValue(ts[i], i+len(w.Back)))
		}
		var outs []T
		for _, b := range w.Back {
			i := modulo(b, n)
			if p.isOp(i) && p.nodes[i].rg {
				if p.nodes[i].size() > 1 && !ts[i].HasGrad() {
					s := seedGrad(p, 0, i)
					ts[i].AccGrad(newMat(p.f64, s.r, s.c, s.v, false))
				}
				outs = append(outs, ts[i])
			}
		}
		if len(outs) > 0 {
			if err := ag.Backward(outs...); err != nil {
				Fail("backward", "Backward returned %v", err)
			}
			e.Probe("backward pass")
		}
		CheckLeaks("forward evaluation")
		if pending != 0 {
			Fail("stuck", "a reader never obtained its value")
		}
		for i := range ts {
			check("the builder, after everything,", i, vals(ts[i]))
		}
		for _, h := range kept {
			check("the holder of an earlier value, after everything,", h.i, vals(h.t))
		}
	})
}

// ---- P02 ----------------------------------------------------------------

type bwdW struct {
	G      graphW
	Passes []gpass // Outs and Seed are selectors
	Append int     // a fixed scenario: append a column vector of this size to a matrix
	Big    *bigW
}

func genBwd(r *Rng) any {
	w := &bwdW{G: genGraph(r, 8, 24)}
	if r.P(.005) {
		return &bwdW{G: graphW{F64: r.P(.5)}, Append: r.Range(2, 5)}
	}
	if b := genBig(r, .004); b != nil {
		return &bwdW{Big: b}
	}
	if r.P(.1) {
		w.G = genGraph(r, 10, 70)
	}
	for k := Pick(r, 1, 1, 1, 2, 3); k > 0; k-- {
		ps := gpass{Zero: Pick(r, 0, 0, 1, 1, 2)}
		for j := Pick(r, 1, 1, 2, 3); j > 0; j-- {
			ps.Outs = append(ps.Outs, r.Intn(1000))
		}
		for j := Pick(r, 0, 0, 1); j > 0; j-- {
			ps.Seed = append(ps.Seed, r.Intn(1000))
		}
		if r.P(.2) {
			ps.Outs = append(ps.Outs, ps.Outs[0])
		}
		w.Passes = append(w.Passes, ps)
	}
	return w
}

// resolvePasses turns selectors into nodes. Non-scalar outputs without a
// gradient get an explicit one.
func (p *gplan) resolvePasses(in []gpass) []gpass {
	var cand []int
	for i := range p.nodes {
		if p.isOp(i) && p.nodes[i].rg {
			cand = append(cand, i)
		}
	}
	if len(cand) == 0 {
		return nil
	}
	sel := func(s int) int {
		s = modulo(s, 1<<30)
		if s%2 == 0 && len(cand) > 2 { // late nodes more often
			return cand[len(cand)-1-(s/2)%3]
		}
		return cand[(s/2)%len(cand)]
	}
	var out []gpass
	has := make([]bool, len(p.nodes))
	for _, ps := range in {
		if len(ps.Outs) == 0 || len(out) >= 4 {
			continue
		}
		q := gpass{Zero: ps.Zero}
		if q.Zero < 0 || q.Zero > 2 {
			q.Zero = 0
		}
		if q.Zero > 0 {
			for i := range has {
				if q.Zero == 1 || p.isOp(i) {
					has[i] = false
				}
			}
		}
		for _, s := range ps.Seed {
			q.Seed = append(q.Seed, sel(s))
		}
		for _, s := range q.Seed {
			has[s] = true
		}
		for _, s := range ps.Outs {
			o := sel(s)
			q.Outs = append(q.Outs, o)
			if p.nodes[o].size() > 1 && !has[o] {
				q.Seed = append(q.Seed, o)
				has[o] = true
			}
		}
		out = append(out, q)
	}
	return out
}

// kept are gradients that a caller has got before they were cleared: they are the
// caller's, whatever is accumulated later.
type kept []struct {
	what string
	g    T
	v    []float64
}

func (k *kept) keep(what string, t T) {
	if g := t.Grad(); !isNilTensor(g) {
		*k = append(*k, struct {
			what string
			g    T
			v    []float64
		}{what, g, vals(g)})
	}
}

func (k kept) check() {
	for _, x := range k {
		if got := vals(x.g); !sameBits(got, x.v) {
			Fail("kept", "the gradient of %s that was obtained before it was cleared changed later from %s to %s", x.what, short(x.v), short(got))
		}
	}
}

func (p *gplan) prepare(ts []T, pass int, ps gpass, k *kept) {
	if ps.Zero > 0 {
		for i := range ts {
			if ps.Zero == 1 || p.isOp(i) {
				if k != nil {
					k.keep(p.desc(i), ts[i])
				}
				ts[i].ZeroGrad()
			}
		}
	}
	for i := range ts {
		if n := p.nodes[i]; n.op != nil && n.op.name == "StopGrad" {
			// neither has an effect on what it blocks
			ts[i].AccGrad(newMat(p.f64, n.r, n.c, nTimes(n.r*n.c, 1), false))
			if ps.Zero != 1 {
				ts[i].ZeroGrad()
			}
		}
	}
	for _, s := range ps.Seed {
		g := seedGrad(p, pass, s)
		ts[s].AccGrad(newMat(p.f64, g.r, g.c, g.v, false))
	}
}

func tensorsOf(ts []T, ids []int) []T {
	out := make([]T, len(ids))
	for i, o := range ids {
		out[i] = ts[o]
	}
	return out
}

// checkGrads compares every gradient of the graph after a pass.
func (c *gcheck) checkGrads(e *Env, pass int, ts []T, class string) {
	for i := range ts {
		got := gradVals(ts[i])
		switch d := c.grad(pass, i, got); d {
		case "":
		case "?":
			e.Probe("gradient too sensitive to judge")
		default:
			Fail(class, "after pass %d the gradient of %s %s", pass, c.p.desc(i), d)
		}
		if got != nil {
			if sh, n := ts[i].Grad().Shape(), c.p.nodes[i]; sh[0] != n.r || sh[1] != n.c {
				Fail("grad-shape", "after pass %d the gradient of %s has shape %v", pass, c.p.desc(i), sh)
			}
		}
	}
}

// checkCalls verifies that each operator propagated once with its complete gradient.
func (c *gcheck) checkCalls(e *Env, pass int, r *rec) {
	for i, n := range c.p.nodes {
		if n.op == nil || n.mode == 0 {
			continue
		}
		want := c.main.prop[pass][i]
		got := r.calls[i]
		r.calls[i] = nil
		if len(got) > 1 {
			Fail("propagations", "%s propagated %d times in pass %d", c.p.desc(i), len(got), pass)
		}
		if want == nil {
			for _, g := range got {
				if !zeroVals(g) {
					Fail("propagations", "%s propagated %s in pass %d, expected nothing", c.p.desc(i), short(g), pass)
				}
			}
			continue
		}
		if len(got) == 0 {
			if isZero(want) {
				continue
			}
			Fail("propagations", "%s did not propagate in pass %d", c.p.desc(i), pass)
		}
		if d := c.compare(got[0], *want, pick(c.noisy, func(x gexpect) *ref { return x.prop[pass][i] })); d != "" && d != "?" {
			Fail("incomplete", "%s propagated an incomplete gradient in pass %d: %s", c.p.desc(i), pass, d)
		}
	}
}

// execAppend appends a column vector to a matrix.
func execAppend(w *bwdW, e *Env) *Violation {
	n := w.Append
	if n > 12 {
		n = 12
	}
	return e.Must("append", func() {
		ones := make([]float64, 2*n)
		for i := range ones {
			ones[i] = 1
		}
		x, v := newMat(w.G.F64, 2, n, ones, true), newMat(w.G.F64, n, 1, ones[:n], true)
		if err := ag.Backward(ag.ReduceSum(ag.AppendRows(x, v))); err != nil {
			Fail("error", "Backward returned %v", err)
		}
		if g := gradVals(v); !sameBits(g, ones[:n]) {
			Fail("gradient", "the gradient of the appended column vector is %s", short(g))
		}
		if sh := v.Grad().Shape(); sh[0] != n || sh[1] != 1 {
			Fail("append-column", "AppendRows(2xN, Nx1): the column-vector operand receives a gradient of the shape of a row vector")
		}
	})
}

func execBwd(wl any, e *Env) *Violation {
	w := wl.(*bwdW)
	if w.Big != nil {
		return execBig(w.Big, e)
	}
	if w.Append > 1 {
		return execAppend(w, e)
	}
	p := w.G.plan(true, len(w.Passes) > 1)
	passes := p.resolvePasses(w.Passes)
	if len(passes) == 0 {
		return nil
	}
	chk := p.expect(passes)
	return e.Must("backward", func() {
		r := newRec(p)
		ts := p.build(p.leafTensors(), r, nil)
		var held kept
		for pi, ps := range passes {
			p.prepare(ts, pi, ps, &held)
			if err := ag.Backward(tensorsOf(ts, ps.Outs)...); err != nil {
				Fail("error", "pass %d: Backward returned %v", pi, err)
			}
			chk.checkGrads(e, pi, ts, "gradient")
			chk.checkCalls(e, pi, r)
			if pi > 0 {
				e.Probe("repeated pass")
			}
			if len(ps.Outs) > 1 {
				e.Probe("pass from several outputs")
			}
		}
		CheckLeaks("Backward")
		held.check()
		last := len(passes) - 1
		chk.checkGrads(e, last, ts, "late")
	})
}

func init() {
	const real = "ag, mat, mat/gradfn, nn.Param/Buffer"
	const stub = "Go scheduler, channels, sync, atomics (simulated)"
	register(&Prop{
		ID: "P01", Flavours: map[string]int{"sim": 2, "fine": 1}, Quick: 200000, Thorough: 4000000,
		Gen: genFwd, New: func() any { return &fwdW{} }, Exec: execFwd,
		Rule: "a run is one random expression graph evaluated once in sequence and once under a random schedule with concurrent readers and an optional backward pass; non-trivial if the scheduler switched goroutines beyond start-up",
		Real: real, Stub: stub,
	})
	register(&Prop{
		ID: "P02", Flavours: map[string]int{"sim": 2, "fine": 1}, Quick: 200000, Thorough: 4000000,
		Gen: genBwd, New: func() any { return &bwdW{} }, Exec: execBwd,
		Rule: "a run is one random expression graph with 1-4 backward passes under a random schedule; non-trivial if the scheduler switched goroutines beyond start-up",
		Real: real, Stub: stub,
	})
}
