package harness

import (
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"strings"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/optimizers"

	"spagosim/vsim"
)

// ---- P03 ----------------------------------------------------------------

// errW is a graph with attempts at backward passes, some of which are refused.
type errW struct {
	G     graphW
	Tries []gtry
	Rush  bool // attempts follow each other at once
	Big   *bigW
}

type gtry struct {
	Outs  []int
	Zero  int
	Seed  int // 0: all missing gradients are supplied, 1: none, 2: some
	Retry int // after a refusal: 0 nothing, 1 supply and retry, 2 another pass, then supply and retry
	Other int
}

func genErr(r *Rng) any {
	if b := genBig(r, .004); b != nil {
		return &errW{Big: b}
	}
	w := &errW{G: genGraph(r, 7, 22), Rush: r.P(.5)}
	if r.P(.4) { // operations that propagate to some operands only
		names := []string{"ScalarMax", "ELU", "CELU", "LeakyReLU", "SELU", "SoftPlus", "SoftShrink", "Threshold"}
		w.G.Exact = false
		for i := range w.G.Instrs {
			if r.P(.4) {
				w.G.Instrs[i].Op = Pick(r, names...)
			}
		}
	}
	for k := r.Range(1, 4); k > 0; k-- {
		t := gtry{Zero: Pick(r, 0, 0, 1, 2), Seed: Pick(r, 0, 1, 1, 2), Retry: Pick(r, 1, 1, 2, 0), Other: r.Intn(1000)}
		for j := Pick(r, 1, 1, 2, 3, 4); j > 0; j-- {
			t.Outs = append(t.Outs, r.Intn(1000))
		}
		w.Tries = append(w.Tries, t)
	}
	return w
}

type attempt struct {
	gpass
	refused bool
}

// attempts resolves the tries.
func (p *gplan) attempts(in []gtry) []attempt {
	var cand, wide []int
	for i := range p.nodes {
		if p.isOp(i) && p.nodes[i].rg {
			cand = append(cand, i)
			if p.nodes[i].size() > 1 {
				wide = append(wide, i)
			}
		}
	}
	if len(cand) == 0 {
		return nil
	}
	sel := func(s int) int {
		s = modulo(s, 1<<30)
		if s%5 == 0 && len(wide) > 0 {
			return wide[(s/5)%len(wide)]
		}
		return cand[(s/5)%len(cand)]
	}
	const none, maybe, yes = 0, 1, 2
	has := make([]int, len(p.nodes))
	var out []attempt
	push := func(q gpass) {
		out = append(out, attempt{q, false})
		for i, x := range p.reach(q.Outs) {
			if x && has[i] == none {
				has[i] = maybe
			}
		}
	}
	supply := func(outs []int) []int {
		var seed []int
		for _, o := range outs {
			if p.nodes[o].size() > 1 && has[o] != yes {
				seed = append(seed, o)
				has[o] = yes
			}
		}
		return seed
	}
	for _, t := range in {
		if len(out) > 8 || len(t.Outs) == 0 {
			break
		}
		q := gpass{Zero: modulo(t.Zero, 3)}
		if q.Zero > 0 {
			for i := range has {
				if q.Zero == 1 || p.isOp(i) {
					has[i] = none
				}
			}
		}
		for _, s := range t.Outs {
			q.Outs = append(q.Outs, sel(s))
		}
		refused := false
		switch modulo(t.Seed, 3) {
		case 0:
			q.Seed = supply(q.Outs)
		case 1:
		default:
			q.Seed = supply(q.Outs[:len(q.Outs)/2])
		}
		for _, o := range q.Outs {
			if p.nodes[o].size() > 1 && has[o] == none {
				refused = true
			}
		}
		if !refused {
			// nothing is known to be missing: supply what may be
			q.Seed = append(q.Seed, supply(q.Outs)...)
			push(q)
			continue
		}
		out = append(out, attempt{q, true})
		if modulo(t.Retry, 3) == 2 {
			o := gpass{Outs: []int{sel(t.Other)}}
			o.Seed = supply(o.Outs)
			push(o)
		}
		if modulo(t.Retry, 3) > 0 {
			push(gpass{Outs: q.Outs, Seed: supply(q.Outs)})
		}
	}
	return out
}

func execErr(wl any, e *Env) *Violation {
	w := wl.(*errW)
	if w.Big != nil {
		return execBig(w.Big, e)
	}
	p := w.G.plan(false, true)
	at := p.attempts(w.Tries)
	if len(at) == 0 {
		return nil
	}
	var passes []gpass
	for _, a := range at {
		q := a.gpass
		if a.refused {
			q.Outs = nil // changes nothing but what was supplied before
		}
		passes = append(passes, q)
	}
	chk := p.expect(passes)
	return e.Must("backward", func() {
		r := newRec(p)
		ts := p.build(p.leafTensors(), r, nil)
		for pi, a := range at {
			p.prepare(ts, pi, a.gpass, nil)
			err := ag.Backward(tensorsOf(ts, a.Outs)...)
			if a.refused {
				e.Fault("missing output gradient")
				if err == nil {
					Fail("accepted", "attempt %d: Backward from a non-scalar output without gradient reported success", pi)
				}
			} else if err != nil {
				Fail("refused", "attempt %d: Backward returned %v although every output has a gradient", pi, err)
			}
			chk.checkGrads(e, pi, ts, "gradient")
			chk.checkCalls(e, pi, r)
			if pi > 0 && at[pi-1].refused && !a.refused {
				e.Probe("pass after a refused one")
			}
			if w.Rush && pi < len(at)-1 {
				continue
			}
			CheckLeaks("Backward")
			chk.checkGrads(e, pi, ts, "late")
		}
	})
}

// ---- P04 ----------------------------------------------------------------

// conW is a set of concurrent graphs over shared tensors.
type conW struct {
	G       graphW // shared leaves, and a prefix computed once without gradients
	Workers []conWorker
	Phases  int
	Zero    []bool // clear all gradients before phase i
	Async   bool   // workers start while the prefix is still being evaluated
	Rush    bool   // the phases follow each other at once
	Clr     *clrW
}

type conWorker struct {
	Instrs []ginstr
	Outs   []int
	Rep    int
}

func genCon(r *Rng) any {
	if r.P(.06) {
		return &conW{Clr: genClr(r)}
	}
	w := &conW{G: genGraphP(r, 6, 6, .015), Phases: Pick(r, 1, 1, 2, 3), Async: r.P(.7), Rush: r.P(.5)}
	if r.P(.5) {
		w.G.Instrs = nil
	}
	for range [3]int{} {
		w.Zero = append(w.Zero, r.P(.5))
	}
	n, instrs := r.Range(2, 5), 10
	if w.G.Huge {
		instrs = 5
	}
	for i := 0; i < n; i++ {
		g := genGraph(r, 1, instrs)
		c := conWorker{Instrs: g.Instrs, Rep: Pick(r, 1, 1, 1, 2, 3)}
		if i > 0 && r.P(.4) {
			c.Instrs = w.Workers[0].Instrs // same computation: maximal contention
		}
		for j := Pick(r, 1, 1, 2); j > 0; j-- {
			c.Outs = append(c.Outs, r.Intn(1000))
		}
		w.Workers = append(w.Workers, c)
	}
	return w
}

// frozen turns every node of p into a leaf; computed ones get no gradients.
func (p *gplan) frozen() *gplan {
	q := &gplan{f64: p.f64, exact: p.exact, huge: p.huge, nl: len(p.nodes), uses: make([]int, len(p.nodes)), pre: make([][]float64, len(p.nodes))}
	for _, n := range p.nodes {
		m := pnode{gnode: n.gnode, leaf: n.leaf}
		if n.op != nil {
			m.rg = false
		}
		q.nodes = append(q.nodes, m)
	}
	return q
}

func execCon(wl any, e *Env) *Violation {
	w := wl.(*conW)
	if w.Clr != nil {
		return execClr(w.Clr, e)
	}
	base := w.G.plan(true, false)
	if base.nl == 0 || len(w.Workers) == 0 || len(w.Workers) > 12 {
		return nil
	}
	type job struct {
		p      *gplan
		passes []gpass
		chk    *gcheck
		rep    int
	}
	var jobs []job
	for _, c := range w.Workers {
		p := base.frozen()
		if p.huge && len(c.Instrs) > 8 {
			return nil
		}
		p.extend(c.Instrs, true)
		passes := p.resolvePasses([]gpass{{Outs: c.Outs}})
		if len(passes) == 0 {
			continue
		}
		rep := c.Rep
		if rep < 1 || rep > 4 {
			rep = 1
		}
		jobs = append(jobs, job{p, passes, p.expect(passes), rep})
	}
	if len(jobs) == 0 {
		return nil
	}
	for _, j := range jobs {
		base.exact = base.exact && j.p.exact
	}
	if !base.exact {
		for i, j := range jobs {
			if j.p.exact {
				j.p.exact = false
				jobs[i].chk = j.p.expect(j.passes)
			}
		}
	}
	phases := w.Phases
	if phases < 1 || phases > 4 {
		phases = 1
	}
	zeroAt := func(ph int) bool { return ph < len(w.Zero) && w.Zero[ph] }
	// Expected gradient of each shared leaf after each phase.
	type sums struct{ main, n0, n1 []ref }
	var want []sums
	anyGelu := false
	for ph := 0; ph < phases; ph++ {
		var s sums
		for i := 0; i < base.nl; i++ {
			n := base.nodes[i]
			tot := [3]ref{zeros(n.r, n.c), zeros(n.r, n.c), zeros(n.r, n.c)}
			prev := func(k int) ref {
				if ph == 0 {
					if base.pre[i] != nil {
						return ref{n.r, n.c, base.pre[i]}
					}
					return zeros(n.r, n.c)
				}
				return [][]ref{want[ph-1].main, want[ph-1].n0, want[ph-1].n1}[k][i]
			}
			for k := range tot {
				if !zeroAt(ph) {
					tot[k] = prev(k)
				}
				for _, j := range jobs {
					anyGelu = anyGelu || j.p.gelu
					ex := j.chk.main
					if k > 0 && !base.exact {
						ex = j.chk.noisy[k-1]
					}
					if g := ex.after[0][i]; g != nil && n.rg {
						for x := 0; x < j.rep; x++ {
							tot[k] = tot[k].zip(*g, func(a, b float64) float64 { return a + b })
						}
					}
				}
			}
			s.main, s.n0, s.n1 = append(s.main, tot[0]), append(s.n0, tot[1]), append(s.n1, tot[2])
		}
		want = append(want, s)
	}
	base.gelu = anyGelu
	return e.Must("concurrent graphs", func() {
		shared := base.build(base.leafTensors(), nil, nil)
		if !w.Async {
			for _, t := range shared {
				t.Value()
			}
		}
		for i := range shared {
			if base.isOp(i) && base.nodes[i].rg {
				shared[i] = ag.StopGrad(shared[i])
			}
		}
		chk := &gcheck{p: base}
		var held kept
		for ph := 0; ph < phases; ph++ {
			if zeroAt(ph) {
				for i := 0; i < base.nl; i++ {
					held.keep(base.desc(i), shared[i])
					shared[i].ZeroGrad()
					if g := gradVals(shared[i]); g != nil {
						Fail("zero", "leaf %d has a gradient right after ZeroGrad", i)
					}
				}
			}
			done := 0
			fin := make(chan int, len(jobs))
			for _, j := range jobs {
				j := j
				vsim.Go(func() {
					for k := 0; k < j.rep; k++ {
						ts := j.p.build(shared, nil, nil)
						for _, s := range j.passes[0].Seed {
							g := seedGrad(j.p, 0, s)
							ts[s].AccGrad(newMat(j.p.f64, g.r, g.c, g.v, false))
						}
						if err := ag.Backward(tensorsOf(ts, j.passes[0].Outs)...); err != nil {
							Fail("error", "Backward returned %v", err)
						}
						// Nodes of the private part must be exact right away.
						for i := j.p.nl; i < len(ts); i++ {
							if d := j.chk.grad(0, i, gradVals(ts[i])); d != "" && d != "?" {
								Fail("private", "the gradient of %s of one of the concurrent graphs %s", j.p.desc(i), d)
							}
						}
						e.Probe("concurrent graph")
					}
					vsim.Send(fin)(1)
				})
			}
			for range jobs {
				done += vsim.Recv(fin)
			}
			if !w.Rush {
				CheckLeaks("the concurrent graphs")
			}
			for i := 0; i < base.nl; i++ {
				got := gradVals(shared[i])
				wm := want[ph].main[i]
				if got == nil {
					if !zeroVals(wm.v) {
						Fail("lost", "phase %d: %s has no gradient, expected %s", ph, base.desc(i), short(wm.v))
					}
					continue
				}
				if !base.nodes[i].rg {
					Fail("unwanted", "phase %d: %s requires no gradient but has %s", ph, base.desc(i), short(got))
				}
				switch d := chk.compare(got, wm, []ref{want[ph].n0[i], want[ph].n1[i]}); d {
				case "":
				case "?":
					e.Probe("gradient too sensitive to judge")
				default:
					Fail("lost", "phase %d: the gradient of the shared %s: %s", ph, base.desc(i), d)
				}
			}
			for i := range shared {
				if got := vals(shared[i]); ph == phases-1 && base.nodes[i].op == nil && !sameBits(got, valsOf(base.makeLeaf(i))) {
					Fail("modified", "the value of the shared %s changed", base.desc(i))
				}
			}
		}
		CheckLeaks("the concurrent graphs")
		held.check()
	})
}

func valsOf(t T) []float64 { return vals(t) }

// ---- P16 ----------------------------------------------------------------

type failW struct {
	G       graphW
	At      int // failing operator
	Back    bool
	Also    bool // the failing function does its work all the same
	Err     int  // which error it reports
	Force   bool
	Work    int
	Readers []rdr
	Outs    []int
}

func genFail(r *Rng) any {
	w := &failW{G: genGraph(r, 6, 16), At: r.Intn(1000), Back: r.P(.5), Force: r.P(.1), Work: r.Intn(4), Also: r.P(.3), Err: Pick(r, 0, 0, 1, 2, 3)}
	for k := r.Range(0, 3); k > 0; k-- {
		x := rdr{At: r.Intn(24), How: r.Intn(16)}
		for j := r.Range(1, 5); j > 0; j-- {
			x.Nodes = append(x.Nodes, r.Intn(1000))
		}
		w.Readers = append(w.Readers, x)
	}
	for k := r.Range(1, 3); k > 0; k-- {
		w.Outs = append(w.Outs, r.Intn(1000))
	}
	return w
}

// failFn fails in one of its functions.
type failFn struct {
	ag.AutoGradFunction
	back  bool
	also  bool
	err   int
	work  int
	fired func()
}

var errInjected = errors.New("injected failure")

// error returns the error of a failing function.
func (f *failFn) error() error {
	switch f.err {
	case 1:
		return fmt.Errorf("injected failure: %w", io.EOF)
	case 2:
		return fmt.Errorf("injected failure: %w", context.Canceled)
	case 3:
		return &os.PathError{Op: "injected failure", Path: "/", Err: os.ErrNotExist}
	}
	return errInjected
}

func (f *failFn) Forward() (mat.Tensor, error) {
	v, err := f.AutoGradFunction.Forward()
	if f.back || err != nil {
		return v, err
	}
	for k := 0; k < f.work; k++ {
		vsim.Step()
	}
	f.fired()
	if f.also {
		return v, f.error()
	}
	return nil, f.error()
}

func (f *failFn) Backward(gy mat.Tensor) error {
	if !f.back {
		return f.AutoGradFunction.Backward(gy)
	}
	for k := 0; k < f.work; k++ {
		vsim.Step()
	}
	if f.also {
		if err := f.AutoGradFunction.Backward(gy); err != nil {
			return err
		}
	}
	f.fired()
	return f.error()
}

func execFail(wl any, e *Env) *Violation {
	w := wl.(*failW)
	p := w.G.plan(true, true)
	var cand []int
	for i, n := range p.nodes {
		if n.op != nil && n.op.mk != nil && (!w.Back || n.rg) {
			cand = append(cand, i)
		}
	}
	if len(cand) == 0 {
		return nil
	}
	bad1 := cand[modulo(w.At, len(cand))]
	if p.nodes[bad1].mode == 0 {
		p.nodes[bad1].mode = 1
	}
	dep := make([]bool, len(p.nodes))
	dep[bad1] = true
	for i := bad1 + 1; i < len(p.nodes); i++ {
		for _, a := range p.nodes[i].in {
			dep[i] = dep[i] || dep[a]
		}
	}
	// Outputs of the backward pass: at least one through the failing operator.
	var outs []int
	if w.Back {
		var c []int
		for i := range p.nodes {
			if p.isOp(i) && p.nodes[i].rg && p.reach([]int{i})[bad1] {
				c = append(c, i)
			}
		}
		for k, s := range w.Outs {
			if k == 0 {
				outs = append(outs, c[modulo(s, len(c))])
			} else if i := cand[modulo(s, len(cand))]; p.isOp(i) {
				outs = append(outs, i)
			}
		}
		if len(outs) == 0 {
			outs = c[:1]
		}
		// The pass must really propagate through the failing operator.
		ps := gpass{Outs: outs}
		for _, o := range outs {
			if p.nodes[o].size() > 1 {
				ps.Seed = append(ps.Seed, o)
			}
		}
		ex := p.expect([]gpass{ps})
		if ex.main.prop[0][bad1] == nil || isZero(ex.main.prop[0][bad1]) {
			return nil
		}
	}
	yielded := ""
	fired := false
	res := e.Sim("failing operator", func() {
		ag.SetForceSyncExecution(w.Force)
		note := func(f string, a ...any) {
			if yielded == "" {
				yielded = fmt.Sprintf(f, a...)
			}
		}
		var down []bool // nodes whose gradient depends on the failing operator
		if w.Back {
			down = p.reach([]int{bad1})
			down[bad1] = false
		}
		begun := make(chan int)
		read := func(who string, i int, t T, how int) {
			if w.Back && p.isOp(i) && p.nodes[i].rg && down[i] {
				vsim.Recv(begun)
				for k := how; k > 0; k-- {
					vsim.Step()
				}
				after := fired
				if g := t.Grad(); after && !isNilTensor(g) {
					note("%s obtained a gradient of %s, which depends on the failed operator %d", who, p.desc(i), bad1)
				}
				e.Probe("gradient read during the pass")
				return
			}
			readValue(t, how)
			if !w.Back && dep[i] {
				note("%s obtained a value of %s, which depends on the failed operator %d", who, p.desc(i), bad1)
			}
		}
		ts := make([]T, 0, len(p.nodes))
		ts = append(ts, p.leafTensors()...)
		for i := p.nl; i < len(p.nodes); i++ {
			n := p.nodes[i]
			if i == bad1 {
				x := make([]T, len(n.in))
				for j, a := range n.in {
					x[j] = ts[a]
				}
				fn := &failFn{n.op.mk(x, n.k), w.Back, w.Also, w.Err, w.Work, func() { fired = true; e.Fault("operator error") }}
				if n.mode == 1 {
					ts = append(ts, ag.NewOperator(fn).Run(true))
				} else {
					ts = append(ts, ag.NewOperator(fn).Run())
				}
			} else {
				ts = append(ts, p.makeNode(i, ts, nil))
			}
			for _, x := range w.Readers {
				if modulo(x.At, len(p.nodes)-p.nl) == i-p.nl {
					x, ts := x, append([]T(nil), ts...)
					vsim.Go(func() {
						for _, s := range x.Nodes {
							k := modulo(s, len(ts))
							read("a concurrent reader", k, ts[k], x.How)
						}
					})
				}
			}
		}
		if w.Back {
			for _, o := range outs {
				if p.nodes[o].size() > 1 {
					g := seedGrad(p, 0, o)
					ts[o].AccGrad(newMat(p.f64, g.r, g.c, g.v, false))
				}
			}
			vsim.Close(begun)
			err := ag.Backward(tensorsOf(ts, outs)...)
			note("Backward returned %v after the backward function of %s had failed", err, p.desc(bad1))
			return
		}
		for i := len(ts) - 1; i >= 0; i-- {
			read("the builder", i, ts[i], i)
		}
	})
	switch res.Outcome {
	case "fatal", "exit", "panic":
		if yielded != "" {
			return bad("yielded", "%s", yielded)
		}
		if !fired {
			return Abnormal("failing operator", res)
		}
		if w.Back {
			e.Probe("failing backward function")
		} else {
			e.Probe("failing forward function")
		}
		if res.Outcome == "panic" && !strings.Contains(res.Detail, "injected failure") {
			return bad("survived", "the failure did not end the process; it ended later: %s", res.Detail)
		}
		return nil
	case "fail":
		return Abnormal("failing operator", res)
	}
	if yielded != "" {
		return bad("yielded", "%s", yielded)
	}
	return bad("survived", "the process did not end although an operator failed (outcome %s: %s)", res.Outcome, res.Detail)
}

// ---- P06 ----------------------------------------------------------------

type limW struct {
	G        graphW
	Builders int
	Rounds   int
	Work     int
	Slow     []int // nodes with extra work
	Params   int   // parameters of an optimization step
	PWork    int
	PFail    []int
	PSkip    []int // parameters without gradient
	Toggle   int   // a single builder switches forced synchronous execution at every n-th operator
	Measure  bool
	Back     bool
}

func genLim(r *Rng) any {
	w := &limW{G: genGraph(r, 5, 30), Builders: Pick(r, 1, 1, 2, 3), Rounds: Pick(r, 1, 2, 4), Work: r.Intn(5),
		Measure: r.P(.6), Back: r.P(.4)}
	for i := range w.G.Instrs {
		w.G.Instrs[i].Mode = Pick(r, 1, 1, 1, 0, 2)
	}
	if r.P(.6) {
		w.Params = r.Range(1, 40)
		w.PWork = r.Intn(5)
		if r.P(.3) {
			for k := r.Size(20); k > 0; k-- {
				w.PFail = append(w.PFail, r.Intn(40))
			}
		}
		if r.P(.5) {
			for k := r.Range(1, 40); k > 0; k-- {
				w.PSkip = append(w.PSkip, r.Intn(40))
			}
		}
	}
	if r.P(.3) {
		w.Builders, w.Toggle = 1, r.Range(1, 6)
	}
	return w
}

// gateFn waits in Forward until a channel is closed.
type gateFn struct {
	gate    chan struct{}
	entered *int
	v       mat.Matrix
}

func (f *gateFn) Forward() (mat.Tensor, error) {
	*f.entered++
	vsim.Recv(f.gate)
	return f.v.Clone(), nil
}
func (f *gateFn) Backward(mat.Tensor) error { return nil }
func (f *gateFn) Operands() []mat.Tensor    { return nil }

// capacity measures how many asynchronous evaluations can run at once.
func capacity() int {
	gate := make(chan struct{})
	n := 0
	vsim.Go(func() {
		for i := 0; i < 2*vsim.NCPU+3; i++ {
			ag.NewOperator(&gateFn{gate, &n, newMat(true, 1, 1, []float64{1}, false)}).Run(true)
		}
	})
	vsim.Quiesce()
	c := n
	vsim.Close(gate)
	CheckLeaks("asynchronous evaluations")
	if n != 2*vsim.NCPU+3 {
		Fail("lost-evaluation", "only %d of %d asynchronous evaluations were executed", n, 2*vsim.NCPU+3)
	}
	return c
}

type limStrategy struct {
	act, max, n int
	work        int
	fail        map[*nn.Param]bool
}

func (s *limStrategy) OptimizeParams(p *nn.Param) error {
	s.act++
	s.n++
	if s.act > s.max {
		s.max = s.act
	}
	for k := 0; k < s.work; k++ {
		vsim.Step()
	}
	s.act--
	if s.fail[p] {
		return fmt.Errorf("injected failure")
	}
	p.ZeroGrad()
	return nil
}

func execLim(wl any, e *Env) *Violation {
	w := wl.(*limW)
	p := w.G.plan(true, false)
	limit := 2 * vsim.NCPU
	nb := 1 + modulo(w.Builders-1, 4)
	rounds := 1 + modulo(w.Rounds-1, 6)
	return e.Must("bounded concurrency", func() {
		c0 := 0
		if w.Measure {
			c0 = capacity()
			if c0 > limit {
				Fail("limit", "%d asynchronous evaluations were executing at once, the limit is %d", c0, limit)
			}
		}
		act, started, finished := 0, 0, 0
		hook := func(i int) {
			if p.nodes[i].mode != 1 {
				return
			}
			for k := 0; k < w.Work; k++ {
				vsim.Step()
			}
		}
		fin := make(chan int, nb)
		for b := 0; b < nb; b++ {
			vsim.Go(func() {
				for k := 0; k < rounds; k++ {
					r := newRec(p)
					r.after = hook
					forced := make([]bool, len(p.nodes)+1)
					inline := make([]bool, len(p.nodes))
					r.around = func(i, d int) {
						if d < 0 {
							inline[i] = true
						}
						if p.nodes[i].mode != 1 || forced[i] {
							return
						}
						if act += d; d > 0 {
							started++
						} else {
							finished++
						}
						if act > limit {
							Fail("limit", "%d asynchronous evaluations are executing at once, the limit is %d", act, limit)
						}
						if act == limit {
							e.Probe("evaluation limit reached")
						}
					}
					toggle := func(int, []T) {}
					if nb == 1 && w.Toggle > 0 {
						on, n := false, 0
						ag.SetForceSyncExecution(false)
						toggle = func(i int, _ []T) {
							if forced[i] && p.nodes[i].mode == 1 && !inline[i] {
								Fail("forced", "synchronous execution is forced, but %s was not evaluated when Run returned", p.desc(i))
							}
							if n++; n%w.Toggle == 0 {
								on = !on
								ag.SetForceSyncExecution(on)
								e.Probe("execution mode switched while operators run")
							}
							forced[i+1] = on
						}
					}
					ts := p.build(p.leafTensors(), r, toggle)
					if w.Back && len(ts) > p.nl {
						last := len(ts) - 1
						if p.isOp(last) && p.nodes[last].rg {
							if p.nodes[last].size() > 1 {
								g := seedGrad(p, 0, last)
								ts[last].AccGrad(newMat(p.f64, g.r, g.c, g.v, false))
							}
							if err := ag.Backward(ts[last]); err != nil {
								Fail("error", "Backward returned %v", err)
							}
						}
					}
					if k%2 == 0 {
						for _, t := range ts {
							t.Value()
						}
					}
				}
				vsim.Send(fin)(1)
			})
		}
		for b := 0; b < nb; b++ {
			vsim.Recv(fin)
		}
		CheckLeaks("asynchronous evaluations")
		ag.SetForceSyncExecution(false)
		if started != finished {
			Fail("lost-evaluation", "%d evaluations started, %d finished", started, finished)
		}
		if started > 4*limit {
			e.Probe("many times the limit")
		}
		if w.Params > 0 && w.Params < 200 {
			var ps []*nn.Param
			st := &limStrategy{work: w.PWork, fail: map[*nn.Param]bool{}}
			for i := 0; i < w.Params; i++ {
				ps = append(ps, nn.NewParam(newMat(true, 1, 1, []float64{1}, false)))
			}
			for _, i := range w.PFail {
				st.fail[ps[modulo(i, len(ps))]] = true
			}
			skip := map[*nn.Param]bool{}
			for _, i := range w.PSkip {
				skip[ps[modulo(i, len(ps))]] = true
			}
			o := optimizers.New(nn.StreamParams(ps), st)
			for k := 0; k < 3; k++ {
				for _, q := range ps {
					q.ZeroGrad()
					if !skip[q] {
						q.AccGrad(newMat(true, 1, 1, []float64{1}, false))
					}
				}
				st.n = 0
				err := o.Optimize()
				if st.max > limit {
					Fail("limit", "%d updates were executing at once, the limit is %d", st.max, limit)
				}
				if want := len(ps) - len(skip); err == nil && st.n != want {
					Fail("lost-update", "%d of %d updates were executed", st.n, want)
				}
				if len(w.PFail) > 0 {
					e.Fault("update error")
				}
				CheckLeaks("an optimization step")
			}
			if st.max == limit {
				e.Probe("update limit reached")
			}
		}
		if w.Measure {
			if c1 := capacity(); c1 != c0 {
				Fail("slot", "%d asynchronous evaluations can run at once at the end, %d could at the beginning", c1, c0)
			}
		}
	})
}

func init() {
	const real = "ag, mat, mat/gradfn, nn.Param/Buffer"
	const stub = "Go scheduler, channels, sync, atomics (simulated)"
	register(&Prop{
		ID: "P03", Flavours: map[string]int{"sim": 1}, Quick: 200000, Thorough: 4000000,
		Gen: genErr, New: func() any { return &errW{} }, Exec: execErr,
		Rule: "a run is one random expression graph with 1-8 attempts at a backward pass, some refused for a missing output gradient and retried, under a random schedule; non-trivial if the scheduler switched goroutines beyond start-up",
		Real: real, Stub: stub, Faults: []string{"missing output gradient"},
	})
	register(&Prop{
		ID: "P04", Flavours: map[string]int{"sim": 2, "fine": 1}, Quick: 120000, Thorough: 2000000,
		Gen: genCon, New: func() any { return &conW{} }, Exec: execCon,
		Rule: "a run is 2-5 goroutines building and back-propagating random graphs over shared leaves for 1-3 phases under a random schedule; non-trivial if the scheduler switched goroutines beyond start-up",
		Real: real, Stub: stub,
	})
	register(&Prop{
		ID: "P06", Flavours: map[string]int{"sim": 1}, Quick: 80000, Thorough: 1500000,
		Gen: genLim, New: func() any { return &limW{} }, Exec: execLim,
		Rule: "a run is 1-3 goroutines evaluating random graphs repeatedly, optimization steps with slow and failing updates, and measurements of the available concurrency before and after, under a random schedule and 1-8 CPUs; non-trivial if the scheduler switched goroutines beyond start-up",
		Real: real + ", optimizers", Stub: stub + "; instrumented functions and strategy", Faults: []string{"update error"},
	})
	register(&Prop{
		ID: "P16", Flavours: map[string]int{"sim": 1}, Quick: 200000, Thorough: 4000000,
		Gen: genFail, New: func() any { return &failW{} }, Exec: execFail,
		Rule: "a run is one random expression graph with one operator whose forward or backward function reports an error, with concurrent readers, under a random schedule; non-trivial if the scheduler switched goroutines beyond start-up",
		Real: real, Stub: stub + "; the failing function; process termination", Faults: []string{"operator error"},
	})
}
