package harness

import (
	"fmt"
	"math"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/losses"
	"github.com/nlpodyssey/spago/mat/float"
	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/nn/embedding"
	"github.com/nlpodyssey/spago/optimizers"
	"github.com/nlpodyssey/spago/optimizers/gradclipper"

	"spagosim/vsim"
)

// dpW is a data-parallel training program.
type dpW struct {
	F64      bool
	Sync     bool
	In       int
	Layers   []layerSpec
	Table    int // rows of an embedding table, if positive
	Loss     int
	Strat    string
	Clip     int
	Zero     bool // gradients are also cleared explicitly before each step
	Steps    int
	Examples []int // lengths of the examples of a step
	Workers  int   // goroutines processing the examples; 0: one per example
	Batch    int   // 0: each example is propagated by its worker; 1: all together
	Reader   bool  // an observer reads losses while others propagate
	Seed     uint64
	Rush     bool // the steps follow each other at once
}

func genDp(r *Rng) any {
	w := &dpW{F64: r.P(.6), Sync: r.P(.1), Rush: r.P(.5), In: r.Range(2, 4), Loss: r.Intn(15), Strat: Pick(r, strategyNames...), Clip: r.Intn(5), Zero: r.P(.3),
		Steps: r.Range(1, 4), Workers: Pick(r, 0, 0, 1, 2, 3), Batch: Pick(r, 0, 0, 0, 1), Seed: r.U64()}
	if r.P(.4) {
		w.Table = r.Range(1, 6)
	}
	w.Layers = genChain(r, seqKinds, 3)
	for k := Pick(r, 1, 2, 3, 4, 6); k > 0; k-- {
		w.Examples = append(w.Examples, r.Range(1, 3))
	}
	return w
}

// dpModel is the model of the program.
type dpModel struct {
	nn.Module
	Layers []nn.Model
	Table  *embedding.Model
}

type dpRun struct {
	w   *dpW
	net *net
	m   *dpModel
	inc func()
	opt *optimizers.Optimizer
	bad bool
}

func (w *dpW) start() *dpRun {
	t := &dpRun{w: w, net: buildNet(w.F64, w.In, 2, w.Layers)}
	t.m = &dpModel{Layers: t.net.models()}
	if w.Table > 0 {
		if w.F64 {
			t.m.Table = embedding.New[float64](w.Table, w.In)
		} else {
			t.m.Table = embedding.New[float32](w.Table, w.In)
		}
		fillModel(t.m.Table, NewRng(w.Seed))
	}
	var s optimizers.OptimizationStrategy
	s, t.inc = newStrategy(w.Strat, w.F64)
	t.opt = optimizers.New(nn.Parameters(t.m), s)
	return t
}

func (t *dpRun) params() (ps []*nn.Param) {
	for _, m := range t.m.Layers {
		ps = append(ps, allParams(m)...)
	}
	if t.m.Table != nil {
		ps = append(ps, t.m.Table.Weights...)
	}
	return
}

func (t *dpRun) grads() (out [][]float64) {
	for _, p := range t.params() {
		out = append(out, gradVals(p))
	}
	return
}

// accumulate adds to the gradient of the i-th parameter.
func (t *dpRun) accumulate(i int, p *nn.Param, g T) {
	if k := i - (len(t.params()) - t.w.Table); t.m.Table != nil && k >= 0 {
		em, err := t.m.Table.Embedding(k)
		if err != nil {
			Fail("error", "Embedding returned %v", err)
		}
		em.AccGrad(g)
		return
	}
	p.AccGrad(g)
}

func (t *dpRun) snap() (out [][]float64) {
	for _, p := range t.params() {
		out = append(out, vals(p))
	}
	return
}

// example builds the loss of an example.
func (t *dpRun) example(step, k int) T {
	w := t.w
	r := NewRng(Mix(w.Seed, uint64(step)*100+uint64(k)))
	n := 1 + modulo(w.Examples[k]-1, 4)
	for _, l := range t.net.layers {
		if !anyLength(l.name) {
			n = 2
		}
	}
	var xs []T
	if w.Table > 0 {
		idx := make([]int, n)
		for i := range idx {
			idx[i] = r.Intn(w.Table)
		}
		xs = t.m.Table.MustEncode(idx)
	} else {
		for i := 0; i < n; i++ {
			xs = append(xs, newMat(w.F64, w.In, 1, randData(r, w.In, false), false))
		}
	}
	ys := t.net.run(xs)
	size := t.net.out
	if size < 1 {
		size = 1
	}
	return drawLoss(w.Loss, w.F64, size, ys, r)
}

// drawLoss is one of the losses over a sequence of vectors.
func drawLoss(kind int, f64 bool, size int, ys []T, r *Rng) T {
	vec := func() T { return newMat(f64, size, 1, randData(r, size, false), false) }
	cls := make([]int, len(ys))
	targets := make([]T, len(ys))
	for i := range cls {
		cls[i], targets[i] = r.Intn(size), vec()
	}
	each := func(f func(y T, i int) T) (s T) {
		for i, y := range ys {
			l := f(y, i)
			if s == nil {
				s = l
			} else {
				s = ag.Add(s, l)
			}
		}
		return
	}
	switch modulo(kind, 15) {
	case 0:
		return losses.MSESeq(ys, targets, true)
	case 1:
		return losses.MAESeq(ys, targets, false)
	case 2:
		return losses.CrossEntropySeq(ys, cls, true)
	case 3:
		return each(func(y T, i int) T { return losses.FocalLoss(y, cls[i], 2) })
	case 4:
		return each(func(y T, i int) T { return losses.ZeroOneQuantization(y) })
	case 5:
		return each(func(y T, i int) T { return losses.Norm2Quantization(y) })
	case 6:
		return each(func(y T, i int) T { return losses.OneHotQuantization(y, .1) })
	case 7:
		u := make([]float64, size)
		for i := range u {
			u[i] = .25 + float64(i)/4
		}
		f := losses.WeightedCrossEntropy(newMat(f64, size, 1, u, false))
		return each(func(y T, i int) T { return f(y, cls[i]) })
	case 8:
		return each(func(y T, i int) T { return losses.Distance(ag.ReduceSum(y), .5) })
	case 9:
		return each(func(y T, i int) T {
			u := make([]float64, size)
			u[cls[i]] = 1
			return losses.NLL(ag.Softmax(y), newMat(f64, size, 1, u, false))
		})
	case 10:
		u := make([]float64, size)
		for i := range u {
			u[i] = 1 - float64(i)/16
		}
		f := losses.WeightedFocalLoss(newMat(f64, size, 1, u, false))
		return each(func(y T, i int) T { return f(y, cls[i], 2) })
	case 11:
		return each(func(y T, i int) T { return losses.Perplexity(ag.Tanh(y), cls[i]) })
	case 12:
		var as, bs []T
		for i, y := range ys {
			as, bs = append(as, ag.ReduceSum(ag.Tanh(y))), append(bs, ag.ReduceSum(ag.Prod(targets[i], y)))
		}
		return losses.SPG(as, bs)
	case 13:
		return losses.MAESeq(ys, targets, true)
	default:
		return each(func(y T, i int) T { return losses.MSE(y, targets[i], true) })
	}
}

func (t *dpRun) propagate(ls ...T) {
	out := ls[:0:0]
	for _, l := range ls {
		if wild(vals(l)) {
			t.bad = true
		}
		if l.RequiresGrad() {
			out = append(out, l)
		}
	}
	if t.bad || len(out) == 0 {
		return
	}
	if err := ag.Backward(out...); err != nil {
		Fail("error", "Backward returned %v", err)
	}
}

// update ends a step.
func (t *dpRun) update(step int) {
	params := nn.Parameters(t.m)
	switch modulo(t.w.Clip, 5) {
	case 1:
		(&gradclipper.NormClipper{MaxNorm: .5, NormType: 2}).ClipGradients(params)
	case 2:
		(&gradclipper.ValueClipper{Value: .25}).ClipGrads(params)
	}
	if err := t.opt.Optimize(); err != nil {
		Fail("error", "Optimize returned %v", err)
	}
	t.inc()
	for i, p := range t.params() {
		if !zeroVals(gradVals(p)) {
			Fail("not cleared", "step %d: parameter %d still has gradients %s", step, i, short(gradVals(p)))
		}
	}
}

func (t *dpRun) clear() {
	if t.w.Zero {
		nn.ZeroGrad(t.m)
	}
}

func execDp(wl any, e *Env) *Violation {
	w := wl.(*dpW)
	if w.In < 2 || w.In > 8 || len(w.Layers) == 0 || len(w.Layers) > 5 || w.Steps < 1 || w.Steps > 6 || len(w.Examples) == 0 || len(w.Examples) > 8 || w.Workers < 0 || w.Workers > 8 {
		return nil
	}
	ok := false
	for _, s := range strategyNames {
		ok = ok || s == w.Strat
	}
	for _, s := range w.Layers {
		found := false
		for _, k := range seqKinds {
			found = found || k == s.Kind
		}
		ok = ok && found
	}
	if !ok {
		return nil
	}
	defer ag.SetForceSyncExecution(false)

	var before, grads, after [][][]float64 // by step: parameters, gradients, parameters
	if v := e.Must("parallel", func() {
		ag.SetForceSyncExecution(w.Sync)
		t := w.start()
		for s := 0; s < w.Steps; s++ {
			t.clear()
			start := t.snap()
			n := len(w.Examples)
			workers := w.Workers
			if workers == 0 {
				workers = n
			}
			next := make(chan int, n)
			for i := 0; i < n; i++ {
				vsim.Send(next)(i)
			}
			vsim.Close(next)
			ls := make([]T, n)
			done := make(chan int)
			for k := 0; k < workers; k++ {
				k := k
				vsim.Go(func() {
					for i, it := 0, vsim.Range(next); it.Next(&i); {
						ls[i] = t.example(s, i)
						if w.Batch == 0 {
							t.propagate(ls[i])
						}
					}
					vsim.Send(done)(k)
				})
			}
			for k := 0; k < workers; k++ {
				vsim.Recv(done)
			}
			if w.Batch != 0 {
				t.propagate(ls...)
				e.Probe("propagated together")
			}
			if workers > 1 && n > 1 {
				e.Probe("parallel examples")
			}
			if t.bad {
				return // the values grow out of any reasonable range
			}
			g := t.grads()
			t.update(s)
			before, grads, after = append(before, start), append(grads, g), append(after, t.snap())
			if !w.Rush || s == w.Steps-1 {
				CheckLeaks(fmt.Sprintf("step %d", s))
			}
		}
	}); v != nil {
		return v
	}

	// The sequential program: every step starts with the same parameters and
	// ends with the same gradients up to summation order, and with the update
	// that these gradients make. To know how sensitive the gradients are they
	// are also computed with slightly moved parameters and in another order.
	nudge := 1e-6
	if w.F64 {
		nudge = 1e-12
	}
	return e.Must("sequential", func() {
		ag.SetForceSyncExecution(true)
		const refs = 4
		var ts [refs]*dpRun
		for k := range ts {
			ts[k] = w.start()
		}
		for s := range before {
			var gs [refs][][]float64
			for k, t := range ts {
				if k == 0 {
					for i, p := range t.snap() {
						if !sameBits(p, before[s][i]) {
							Fail("diverged", "step %d starts with parameter %d at %s instead of %s", s, i, short(before[s][i]), short(p))
						}
					}
				}
				for i, p := range t.params() {
					d := append([]float64(nil), before[s][i]...)
					r := NewRng(uint64(i))
					for j := range d {
						d[j] += []float64{0, nudge, -nudge, 0}[k] * (2*r.F() - 1)
					}
					p.Matrix.SetData(float.Make(d...))
				}
				t.clear()
				n := len(w.Examples)
				for i := 0; i < n; i++ {
					x := i
					if k == 3 {
						x = n - 1 - i
					}
					t.propagate(t.example(s, x))
				}
				if t.bad {
					return
				}
				gs[k] = t.grads()
			}
			terms := 1.
			for _, g := range gs[0] {
				for _, v := range g {
					terms = math.Max(terms, math.Abs(v))
				}
			}
			if !(terms < 1e4) {
				return
			}
			for i, g := range grads[s] {
				d := agreeAbs(w.F64, g, gs[0][i], [][]float64{gs[1][i], gs[2][i], gs[3][i]}, 100*terms)
				if d == "?" {
					e.Probe("sensitive gradients")
				} else if d != "" {
					Fail("gradients", "step %d: the gradient of parameter %d %s", s, i, d)
				} else {
					e.Probe("gradients compared")
				}
			}
			t := ts[0]
			for i, p := range t.params() {
				p.ZeroGrad()
				if g := grads[s][i]; g != nil {
					sh := p.Value().Shape()
					t.accumulate(i, p, newMat(w.F64, sh[0], sh[1], g, false))
				}
			}
			t.update(s)
			for i, p := range t.snap() {
				if sameBits(p, after[s][i]) {
					continue
				}
				d := fmt.Sprintf("is %s instead of %s", short(after[s][i]), short(p))
				if w.Table > 0 && modulo(w.Clip, 5) == 1 { // the rows are visited in any order
					d = agree(w.F64, after[s][i], p, nil)
				}
				if d != "" {
					Fail("diverged", "after step %d parameter %d %s", s, i, d)
				}
				p := t.params()[i]
				p.Matrix.SetData(float.Make(after[s][i]...))
			}
			for _, t := range ts[1:] {
				for _, p := range t.params() {
					p.ZeroGrad()
				}
			}
			e.Probe("steps compared")
		}
	}, Sequential)
}

func init() {
	register(&Prop{
		ID: "P18", Flavours: map[string]int{"sim": 3, "fine": 1}, Quick: 4000, Thorough: 200000,
		Gen: genDp, New: func() any { return &dpW{} }, Exec: execDp,
		Rule: "a run is a training program of 1-4 steps over a shared model (1-3 layers, optionally an embedding table) with 1-6 examples per step, executed with the examples in parallel goroutines under a drawn schedule and then sequentially in lockstep: gradients up to summation order (the sensitivity is measured with moved parameters and another order), parameters after the update bit by bit; distinct by the interleaving of synchronisation operations",
		Real: "nn/*, ag, mat, losses, optimizers/*, gradclipper", Stub: "Go scheduler, channels, sync, atomics (simulated)",
		Faults: []string{"adversarial schedules (starvation, priority inversion, preemption at any statement)", "1-8 CPUs"},
	})
}
