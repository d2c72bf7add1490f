package harness

import (
	"fmt"
	"math"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat/float"
	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/nn/activation"

	"spagosim/vsim"
)

// derW compares the gradients of a layer with the slope of what it computes.
type derW struct {
	L    layW
	Loss int // -1: a weighted sum of the outputs
	Dirs []derDir
}

// derDir is a direction in the space of the inputs and parameters.
type derDir struct {
	Seed uint64
	One  int // only one tensor moves (-1: all)
}

func genDer(r *Rng) any {
	w := &derW{Loss: -1}
	w.L = layW{F64: true, Sync: r.P(.1), Callers: Pick(r, 1, 1, 2, 3), In: r.Range(2, 4), N: r.Range(1, 4)}
	kinds := func(in []string) (out []string) {
		for _, k := range in {
			// batch statistics change with every call; AdaNorm cuts the gradient of a factor on purpose
			if k != "batchnormT" && k != "adanorm" {
				out = append(out, k)
			}
		}
		return
	}
	if r.P(.5) {
		w.L.Chain = genChain(r, kinds(seqKinds), 3)
		if r.P(.5) {
			w.Loss = r.Intn(15)
		}
	} else {
		w.L.Layer = genLayer(r, append(kinds(layerKinds), "batchnormT"))
		if w.L.Layer.Kind == "batchnormT" {
			w.L.Callers = 1
		}
	}
	n := Pick(r, 1, 1, w.L.Callers)
	if w.L.Layer.Kind == "batchnormT" {
		n = 1
	}
	for ; n > 0; n-- {
		w.L.Calls = append(w.L.Calls, layCall{Seed: r.U64(), N: r.Range(1, 5), InGrad: r.P(.8)})
	}
	w.Dirs = append(w.Dirs, derDir{Seed: r.U64(), One: -1})
	for k := r.Intn(4); k > 0; k-- {
		w.Dirs = append(w.Dirs, derDir{Seed: r.U64(), One: r.Intn(100)})
	}
	return w
}

// derSubj is a model with the inputs of all calls.
type derSubj struct {
	w  *derW
	s  *subject
	ps []*nn.Param
	xs [][]T
}

func (w *derW) make() *derSubj {
	d := &derSubj{w: w, s: w.L.make()}
	for _, l := range d.s.layers() {
		if a, ok := l.model.(*activation.Model); ok && a.Activation != activation.SwishB {
			continue // constants of the function
		}
		d.ps = append(d.ps, allParams(l.model)...)
	}
	for _, c := range w.L.Calls {
		d.xs = append(d.xs, d.s.inputs(c, 0))
	}
	return d
}

// moving lists what the loss is differentiated by: every tensor once.
func (d *derSubj) moving() (ts []T) {
	seen := map[T]bool{}
	for _, p := range d.ps {
		if p.RequiresGrad() && !seen[p] {
			seen[p] = true
			ts = append(ts, p)
		}
	}
	for i, xs := range d.xs {
		if !d.w.L.Calls[i].InGrad || d.s.l != nil && d.s.l.exactIn {
			continue
		}
		for _, x := range xs {
			ts = append(ts, x)
		}
	}
	return
}

// move adds h times the direction to the tensors.
func (dir derDir) move(ts []T, h float64) {
	r := NewRng(dir.Seed)
	for k, t := range ts {
		v := vals(t)
		for i := range v {
			g := 2*r.F() - 1
			if dir.One < 0 || dir.One%len(ts) == k {
				v[i] += h * g
			}
		}
		if p, ok := t.(*nn.Param); ok {
			p.Matrix.SetData(float.Make(v...))
		} else {
			t.Value().(interface{ SetData(float.Slice) }).SetData(float.Make(v...))
		}
	}
}

// slope is the sum of the gradients times the direction; it also tells the
// size of its terms.
func (dir derDir) slope(ts []T, gs [][]float64) (s, terms float64) {
	r := NewRng(dir.Seed)
	for k, t := range ts {
		for i := 0; i < t.Size(); i++ {
			g := 2*r.F() - 1
			if (dir.One < 0 || dir.One%len(ts) == k) && gs[k] != nil {
				s += g * gs[k][i]
				terms += math.Abs(g * gs[k][i])
			}
		}
	}
	return
}

// loss runs call i.
func (d *derSubj) loss(i int) T {
	c := d.w.L.Calls[i]
	ys := d.s.run(append([]T(nil), d.xs[i]...))
	r := NewRng(c.Seed + 13)
	if d.w.Loss >= 0 && d.s.c != nil {
		return drawLoss(d.w.Loss, true, max(1, d.s.c.out), ys, r)
	}
	var loss T
	for _, y := range ys {
		if d.s.l != nil && d.s.l.name == "crf" && len(vals(y)) != 1 {
			continue // the decoded labels
		}
		sh := y.Value().Shape()
		t := ag.ReduceSum(ag.Prod(y, newMat(true, sh[0], sh[1], randData(r, sh[0]*sh[1], false), false)))
		if loss == nil {
			loss = t
		} else {
			loss = ag.Add(loss, t)
		}
	}
	return loss
}

// loose tells whether an approximated function (GELU, with constants rounded
// to a few digits) may take part.
func (d *derSubj) loose() bool {
	for _, l := range d.s.layers() {
		if l.loose || l.name == "conv1d" || l.name == "activation" {
			return true
		}
	}
	return false
}

// normed tells whether a layer divides by the length of a vector, which has no
// derivative where the vector is zero (or constant).
func (d *derSubj) normed() bool {
	for _, l := range d.s.layers() {
		switch l.name {
		case "fixnorm", "scalenorm", "layernormsimple", "rmsnorm":
			return true
		}
	}
	return false
}

// total is the value of the sum of the losses of all calls.
func (d *derSubj) total() (s float64) {
	for i := range d.w.L.Calls {
		if l := d.loss(i); l != nil {
			s += vals(l)[0]
		}
	}
	return
}

func execDer(wl any, e *Env) *Violation {
	w := wl.(*derW)
	l := &w.L
	l.F64 = true
	if l.In < 1 || l.In > 8 || l.N < 1 || l.N > 6 || len(l.Calls) == 0 || len(l.Calls) > 4 || len(l.Chain) > 5 || len(w.Dirs) == 0 {
		return nil
	}
	for _, s := range l.Chain {
		ok := false
		for _, k := range seqKinds {
			ok = ok || k == s.Kind && k != "adanorm"
		}
		if !ok {
			return nil
		}
	}
	if len(l.Chain) == 0 && (l.Layer.Kind == "adanorm" || l.Layer.Kind == "dropoutHalf" || l.Layer.Kind == "batchnormT" && len(l.Calls) > 1) {
		return nil
	}
	if len(l.Chain) == 0 && l.Layer.Kind == "layernormsimple" && l.Layer.In < 2 {
		return nil // a vector of one element has no deviation, whose root has no derivative
	}
	callers := 1 + modulo(l.Callers-1, 4)
	defer ag.SetForceSyncExecution(false)

	type sample struct{ mid, hi, lo, hi2, lo2 float64 }
	const h = 1e-4
	samples := make([]sample, len(w.Dirs))
	label := ""
	if v := e.Must("samples", func() {
		ag.SetForceSyncExecution(true)
		at := func(dir derDir, h float64) float64 {
			d := w.make()
			label = d.s.layers()[0].name
			dir.move(d.moving(), h)
			return d.total()
		}
		for i, dir := range w.Dirs {
			samples[i] = sample{at(dir, 0), at(dir, h), at(dir, -h), at(dir, h/2), at(dir, -h/2)}
		}
	}, Sequential); v != nil {
		return v
	}
	for _, s := range samples {
		if wild([]float64{s.mid, s.hi, s.lo, s.hi2, s.lo2}) {
			return nil
		}
	}
	return e.Must("backward", func() {
		ag.SetForceSyncExecution(l.Sync)
		d := w.make()
		done := make(chan int)
		for k := 0; k < callers; k++ {
			work := func() {
				for i := k; i < len(l.Calls); i += callers {
					loss := d.loss(i)
					if loss == nil || !loss.RequiresGrad() {
						continue
					}
					if err := ag.Backward(loss); err != nil {
						Fail("error", "Backward returned %v", err)
					}
				}
			}
			if callers == 1 {
				work()
				break
			}
			vsim.Go(func() {
				work()
				vsim.Send(done)(k)
			})
		}
		if callers > 1 {
			for k := 0; k < callers; k++ {
				vsim.Recv(done)
			}
			e.Probe("several callers")
		}
		ts := d.moving()
		if len(ts) == 0 {
			return
		}
		var gs [][]float64
		for _, t := range ts {
			gs = append(gs, gradVals(t))
		}
		for i, dir := range w.Dirs {
			s := samples[i]
			got, terms := dir.slope(ts, gs)
			c1, c2 := (s.hi-s.lo)/(2*h), (s.hi2-s.lo2)/h
			want := (4*c2 - c1) / 3
			right, left := (s.hi2-s.mid)/(h/2), (s.mid-s.lo2)/(h/2)
			scale := math.Abs(want) + terms + math.Abs(s.mid)
			// a kink or a strong curvature nearby
			if math.Abs(c1-c2) > 1e-5*scale || math.Abs(right-left) > 1e-2*scale {
				e.Probe("too sensitive to judge")
				continue
			}
			rel := 1e-6
			if d.loose() {
				rel = 1e-3
			}
			tol := 1e-8 + rel*scale + 4*math.Abs(c1-c2)
			if math.IsNaN(got) && d.normed() {
				e.Probe("no derivative: the norm of a constant vector")
				continue
			}
			if !(math.Abs(got-want) <= tol) {
				what := "all inputs and parameters move"
				if dir.One >= 0 {
					k := dir.One % len(ts)
					what = fmt.Sprintf("tensor %d of %d (%v) moves", k, len(ts), ts[k].Shape())
				}
				Fail("derivative", "%s: when %s, the gradients say that the loss changes at the rate %v, it changes at the rate %v (tolerance %v)", label, what, got, want, tol)
			}
			e.Probe("slope compared")
		}
		for _, l := range d.s.layers() {
			nn.ZeroGrad(l.model)
		}
		CheckLeaks("the calls")
	})
}

func init() {
	register(&Prop{
		ID: "P21", Flavours: map[string]int{"sim": 3, "fine": 1}, Quick: 20000, Thorough: 400000,
		Gen: genDer, New: func() any { return &derW{} }, Exec: execDer,
		Rule: "a run is one built-in layer or a chain of up to 3 sequence layers with one of 16 losses, executed forward and backward by 1-3 concurrent callers on one shared model under a drawn schedule, and compared with the slope of its loss along 1-4 directions; distinct by the interleaving of synchronisation operations",
		Real: "nn/* layers, losses, ag, mat, mat/gradfn", Stub: "Go scheduler, channels, sync, atomics (simulated)",
		Faults: []string{"adversarial schedules (starvation, priority inversion, preemption at any statement)", "1-8 CPUs"},
	})
}
