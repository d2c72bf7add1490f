package harness

import (
	"fmt"
	"math"

	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/optimizers"

	"spagosim/vsim"
)

// indW is a history of optimization steps over parameters that have nothing
// to do with each other.
type indW struct {
	Groups []indGroup
	Steps  int
	Seed   uint64
}

// indGroup is what one optimizer, with a strategy of its own, takes care of.
type indGroup struct {
	Strat  string
	F64    bool
	Params []indParam
	Split  int     // so many optimizers with the one strategy
	Absent float64 // how often a parameter has no gradient
	Wild   float64 // how often a gradient contains something that is not a number
}

type indParam struct {
	Rows, Cols int
	Seed       uint64
	Times      int  // in the stream
	Other      bool // of the other element type
	From       int  // joins at this step
}

func genInd(r *Rng) any {
	w := &indW{Steps: r.Range(2, 5), Seed: r.U64()}
	for g := Pick(r, 1, 1, 1, 2, 3); g > 0; g-- {
		x := indGroup{Strat: Pick(r, strategyNames...), F64: r.P(.5), Split: Pick(r, 1, 1, 1, 2), Absent: Pick(r, 0, .3, .6), Wild: Pick(r, 0, 0, .2)}
		n := r.Range(1, 6)
		if r.P(.1) {
			n = r.Range(10, 40)
		}
		big := r.P(.1)
		rows, cols := r.Range(1, 4), r.Range(1, 4)
		for ; n > 0; n-- {
			p := indParam{Rows: r.Range(1, 4), Cols: r.Range(1, 4), Seed: r.U64(), Times: Pick(r, 1, 1, 1, 1, 2, 3), Other: r.P(.15)}
			if r.P(.5) {
				p.Rows, p.Cols = rows, cols // the same shape
			}
			if big && r.P(.3) {
				p.Rows = r.Range(10, 200)
			}
			if r.P(.2) {
				p.From = r.Intn(w.Steps)
			}
			x.Params = append(x.Params, p)
		}
		w.Groups = append(w.Groups, x)
	}
	return w
}

func (p indParam) make(f64 bool) *nn.Param {
	n := p.Rows * p.Cols
	return nn.NewParam(newMat(f64 != p.Other, p.Rows, p.Cols, randData(NewRng(p.Seed), n, false), true))
}

// grad is the gradient of the step, or nil. There is one in the last step,
// which shows what the strategy has kept.
func (g indGroup) grad(k, step int, last bool) mat.Matrix {
	p := g.Params[k]
	r := NewRng(Mix(p.Seed, uint64(step)+1))
	if step < p.From || r.P(g.Absent) && !last {
		return nil
	}
	data := randData(r, p.Rows*p.Cols, false)
	if r.P(g.Wild) && !last {
		data[r.Intn(len(data))] = Pick(r, math.NaN(), math.Inf(1), math.Inf(-1), 1e30)
	}
	return newMat(g.F64 != p.Other, p.Rows, p.Cols, data, false)
}

// indState is what is known of a parameter after a step.
type indState struct {
	vals, grad []float64
	has        bool
}

func seeParam(p *nn.Param) indState {
	s := indState{vals: vals(p), has: p.HasGrad()}
	if s.has {
		s.grad = gradVals(p)
	}
	return s
}

func execInd(wl any, e *Env) *Violation {
	w := wl.(*indW)
	if w.Steps < 1 || w.Steps > 8 || len(w.Groups) > 4 {
		return nil
	}
	for _, g := range w.Groups {
		ok := false
		for _, s := range strategyNames {
			ok = ok || s == g.Strat
		}
		if !ok || len(g.Params) > 60 {
			return nil
		}
		for _, p := range g.Params {
			if p.Rows < 1 || p.Rows > 300 || p.Cols < 1 || p.Cols > 8 || p.Times < 1 || p.Times > 4 {
				return nil
			}
		}
	}
	// every parameter alone
	want := make([][][]indState, len(w.Groups))
	if v := e.Must("alone", func() {
		for i, g := range w.Groups {
			for k, ip := range g.Params {
				strat, inc := newStrategy(g.Strat, g.F64)
				p := ip.make(g.F64)
				var hist []indState
				for s := 0; s < w.Steps; s++ {
					if gx := g.grad(k, s, s == w.Steps-1); gx != nil {
						p.AccGrad(gx)
						if err := strat.OptimizeParams(p); err != nil {
							Fail("error", "%s: OptimizeParams returned %v", g.Strat, err)
						}
					}
					inc()
					hist = append(hist, seeParam(p))
				}
				want[i] = append(want[i], hist)
			}
		}
	}, Sequential); v != nil {
		return v
	}
	return e.Must("together", func() {
		type group struct {
			ps    []*nn.Param
			strat optimizers.OptimizationStrategy
			inc   func()
		}
		var gs []group
		for _, g := range w.Groups {
			x := group{}
			x.strat, x.inc = newStrategy(g.Strat, g.F64)
			for _, ip := range g.Params {
				x.ps = append(x.ps, ip.make(g.F64))
			}
			gs = append(gs, x)
		}
		step := func(i, s int) {
			g, x := w.Groups[i], gs[i]
			r := NewRng(Mix(w.Seed, uint64(i*100+s)))
			lists := make([][]*nn.Param, 1+modulo(g.Split-1, 3))
			for k, p := range x.ps {
				if gx := g.grad(k, s, s == w.Steps-1); gx != nil {
					p.AccGrad(gx)
				}
				if s < g.Params[k].From {
					continue
				}
				l := k % len(lists)
				for t := g.Params[k].Times; t > 0; t-- {
					lists[l] = append(lists[l], p)
				}
			}
			ready := make(chan int)
			for l, list := range lists {
				for k := range list {
					j := r.Range(k, len(list)-1)
					list[k], list[j] = list[j], list[k]
				}
				optimize := func() {
					if err := optimizers.New(nn.StreamParams(list), x.strat).Optimize(); err != nil {
						Fail("error", "%s: Optimize returned %v", g.Strat, err)
					}
				}
				if len(lists) == 1 {
					optimize()
					break
				}
				vsim.Go(func() {
					optimize()
					vsim.Send(ready)(l)
				})
			}
			if len(lists) > 1 {
				for range lists {
					vsim.Recv(ready)
				}
				e.Probe("one strategy shared by optimizers")
			}
			x.inc()
			for k, p := range x.ps {
				got, exp := seeParam(p), want[i][k][s]
				what := fmt.Sprintf("%s: after step %d, parameter %d of %d (%d×%d)", g.Strat, s, k, len(x.ps), g.Params[k].Rows, g.Params[k].Cols)
				if !sameBits(got.vals, exp.vals) {
					Fail("value", "%s is %s; optimized alone it is %s", what, short(got.vals), short(exp.vals))
				}
				if got.has != exp.has || !sameBits(got.grad, exp.grad) {
					Fail("gradient", "%s has the gradient %v %s; optimized alone %v %s", what, got.has, short(got.grad), exp.has, short(exp.grad))
				}
				e.Probe("parameter compared")
			}
		}
		done := make(chan int)
		for i := range gs {
			work := func() {
				for s := 0; s < w.Steps; s++ {
					step(i, s)
				}
			}
			if len(gs) == 1 {
				work()
				break
			}
			vsim.Go(func() {
				work()
				vsim.Send(done)(i)
			})
		}
		if len(gs) > 1 {
			for range gs {
				vsim.Recv(done)
			}
			e.Probe("several optimizers")
		}
		CheckLeaks("the steps")
	})
}

func init() {
	register(&Prop{
		ID: "P23", Flavours: map[string]int{"sim": 2, "fine": 1}, Quick: 40000, Thorough: 1000000,
		Gen: genInd, New: func() any { return &indW{} }, Exec: execInd,
		Rule: "a run is a history of 1-5 optimization steps by 1-3 concurrent optimizers over 1-40 unrelated parameters each, under a drawn schedule, compared with the history of each parameter alone; distinct by the interleaving of synchronisation operations",
		Real: "optimizers and all strategies, nn, mat", Stub: "Go scheduler, channels, sync, atomics (simulated)",
		Faults: []string{"adversarial schedules (starvation, priority inversion, preemption at any statement)", "1-8 CPUs"},
	})
}
