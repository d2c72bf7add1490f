package harness

import (
	"bytes"
	"fmt"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/nn"

	"spagosim/vsim"
)

// layW runs built-in layers, one model shared by several callers.
type layW struct {
	F64     bool
	Sync    bool // operators run synchronously
	Layer   layerSpec
	Chain   []layerSpec // or a chain of sequence layers
	In, N   int
	Calls   []layCall
	Callers int
	Frozen  bool // on the shared model, nothing requires gradients
}

// layCall is a forward pass and possibly a backward pass.
type layCall struct {
	Seed   uint64
	N      int  // length of the sequence
	Back   bool // of a weighted sum of the outputs
	InGrad bool
	Wait   int // outputs awaited before going on
}

func genLay(r *Rng) any {
	w := &layW{F64: r.P(.6), Sync: r.P(.15), Callers: Pick(r, 1, 1, 2, 2, 3, 4), In: r.Range(2, 4), N: r.Range(1, 4), Frozen: r.P(.15)}
	long := r.P(.02)
	if r.P(.35) {
		w.Chain = genChain(r, seqKinds, 3)
	} else {
		w.Layer = genLayer(r, append([]string{"batchnormT", "dropoutHalf"}, layerKinds...))
	}
	back := Pick(r, 0., .5, 1.)
	for k := Pick(r, w.Callers, w.Callers, w.Callers+r.Intn(3)); k > 0; k-- {
		w.Calls = append(w.Calls, layCall{Seed: r.U64(), N: r.Range(1, 5), Back: r.P(back), InGrad: r.P(.7), Wait: r.Intn(3)})
		if long {
			w.Calls[len(w.Calls)-1].N = r.Range(6, 40)
		}
	}
	return w
}

// subject is the model under test: a layer or a chain.
type subject struct {
	w *layW
	l *layer
	c *net
}

func (w *layW) make() *subject {
	if len(w.Chain) > 0 {
		return &subject{w: w, c: buildNet(w.F64, w.In, w.N, w.Chain)}
	}
	return &subject{w: w, l: w.Layer.build(w.F64)}
}

func (s *subject) layers() []*layer {
	if s.c != nil {
		return s.c.layers
	}
	return []*layer{s.l}
}

func (s *subject) stateful() (yes bool) {
	for _, l := range s.layers() {
		yes = yes || l.stateful || l.name == "dropoutHalf"
	}
	return
}

func (s *subject) inputs(c layCall, nudge float64) []T {
	if s.c == nil {
		l := *s.l
		if anyLength(l.name) {
			l.n = 1 + modulo(c.N-1, 48)
		}
		return l.inputs(s.w.F64, c.Seed, c.InGrad, nudge)
	}
	n := 1 + modulo(c.N-1, 48)
	for _, l := range s.c.layers {
		if !anyLength(l.name) {
			n = s.w.N
		}
	}
	r, q := NewRng(c.Seed), NewRng(c.Seed+77)
	xs := make([]T, n)
	for i := range xs {
		d := randData(r, s.w.In, false)
		for j := range d {
			d[j] += nudge * (2*q.F() - 1)
		}
		xs[i] = newMat(s.w.F64, s.w.In, 1, d, c.InGrad)
	}
	return xs
}

// anyLength tells the layers that accept any number of inputs.
func anyLength(kind string) bool {
	if kind == "gmlp" {
		return false
	}
	for _, k := range seqKinds {
		if k == kind {
			return true
		}
	}
	return kind == "crf" || kind == "embedding" || kind == "sqrdist"
}

func (s *subject) run(xs []T) []T {
	if s.c != nil {
		return s.c.run(xs)
	}
	return s.l.run(xs)
}

// grads copies the gradients of all parameters.
func (s *subject) grads() (out [][]float64) {
	for _, l := range s.layers() {
		for _, p := range allParams(l.model) {
			out = append(out, gradVals(p))
		}
	}
	return
}

// saved is everything the models hold, as they would be saved.
func (s *subject) saved() []byte {
	var b bytes.Buffer
	for _, l := range s.layers() {
		if err := nn.Dump(l.model, &b); err != nil {
			Fail("error", "Dump returned %v", err)
		}
	}
	return b.Bytes()
}

// layOut is what a caller gets.
type layOut struct {
	outs   [][]float64
	shapes [][]int
	in     [][]float64
}

// call performs a call.
func (s *subject) call(c layCall, nudge float64) (o layOut) {
	xs := s.inputs(c, nudge)
	before := make([][]float64, len(xs))
	for i, x := range xs {
		before[i] = vals(x)
	}
	arg := append([]T(nil), xs...)
	ys := s.run(arg)
	for i := range arg {
		if arg[i] != xs[i] {
			Fail("inputs", "the layer changed the slice of its inputs")
		}
	}
	for i := 0; i < len(ys) && i < c.Wait; i++ {
		_ = ys[i].Value()
	}
	var loss T
	if c.Back {
		r := NewRng(c.Seed + 13)
		for _, y := range ys {
			sh := y.Value().Shape()
			k := newMat(s.w.F64, sh[0], sh[1], randData(r, sh[0]*sh[1], false), false)
			t := ag.ReduceSum(ag.Prod(y, k))
			if loss == nil {
				loss = t
			} else {
				loss = ag.Add(loss, t)
			}
		}
		if loss != nil && loss.RequiresGrad() {
			if err := ag.Backward(loss); err != nil {
				Fail("error", "Backward returned %v", err)
			}
		} else if loss != nil {
			_ = loss.Value()
		}
	}
	for _, y := range ys {
		o.outs = append(o.outs, vals(y))
		o.shapes = append(o.shapes, append([]int(nil), y.Value().Shape()...))
	}
	for i, x := range xs {
		if !sameBits(before[i], vals(x)) {
			Fail("inputs", "input %d was modified: %s instead of %s", i, short(vals(x)), short(before[i]))
		}
		o.in = append(o.in, gradVals(x))
	}
	return
}

// sumGrads adds the gradients of the calls.
func sumGrads(gs [][][]float64) (out [][]float64) {
	for _, g := range gs {
		if out == nil {
			out = make([][]float64, len(g))
		}
		for i, v := range g {
			if v == nil {
				continue
			}
			if out[i] == nil {
				out[i] = make([]float64, len(v))
			}
			for j := range v {
				out[i][j] += v[j]
			}
		}
	}
	return
}

func execLay(wl any, e *Env) *Violation {
	w := wl.(*layW)
	if w.In < 1 || w.In > 8 || w.N < 1 || w.N > 6 || len(w.Calls) == 0 || len(w.Calls) > 8 || len(w.Chain) > 5 {
		return nil
	}
	for _, s := range w.Chain {
		ok := false
		for _, k := range seqKinds {
			ok = ok || k == s.Kind
		}
		if !ok {
			return nil
		}
	}
	callers := 1 + modulo(w.Callers-1, 5)
	defer ag.SetForceSyncExecution(false)

	// Every call alone, on a model of its own; twice again slightly moved.
	const refs = 3
	want := make([][refs]layOut, len(w.Calls))
	var sums [refs][][]float64
	nudge := 1e-5
	if w.F64 {
		nudge = 1e-11
	}
	label := ""
	v := e.Must("alone", func() {
		ag.SetForceSyncExecution(true)
		var gs [refs][][][]float64
		for i, c := range w.Calls {
			for k := 0; k < refs; k++ {
				s := w.make()
				if s.stateful() {
					callers = 1
				}
				d := 0.
				if k > 0 {
					d = nudge * float64(3-2*k) // in both directions
					for _, l := range s.layers() {
						nudgeModel(l.model, d, NewRng(c.Seed+uint64(k)))
					}
				}
				label = s.layers()[0].name
				ag.ManualSeed(c.Seed)
				want[i][k] = s.call(c, d)
				gs[k] = append(gs[k], s.grads())
			}
		}
		for k := range sums {
			sums[k] = sumGrads(gs[k])
		}
	}, Sequential)
	if v != nil {
		return v
	}
	for i := range want {
		for _, o := range want[i][0].outs {
			if wild(o) {
				return nil
			}
		}
	}

	// All calls on one model.
	return e.Must("shared", func() {
		ag.SetForceSyncExecution(w.Sync)
		s := w.make()
		stateful := s.stateful()
		calls := append([]layCall(nil), w.Calls...)
		if w.Frozen {
			for _, l := range s.layers() {
				for _, p := range allParams(l.model) {
					p.SetRequiresGrad(false)
				}
			}
			for i := range calls {
				calls[i].Back, calls[i].InGrad = false, false
			}
			e.Probe("nothing requires gradients")
		}
		if stateful {
			calls = calls[:1] // what follows depends on the first
		}
		saved := s.saved()
		ag.ManualSeed(calls[0].Seed)
		got := make([]layOut, len(calls))
		done := make(chan int)
		for k := 0; k < callers; k++ {
			k := k
			work := func() {
				for i := k; i < len(calls); i += callers {
					got[i] = s.call(calls[i], 0)
				}
			}
			if callers == 1 {
				work()
				break
			}
			vsim.Go(func() {
				work()
				vsim.Send(done)(k)
			})
		}
		if callers > 1 {
			for k := 0; k < callers; k++ {
				vsim.Recv(done)
			}
			e.Probe("several callers")
		}
		back := 0
		for i, c := range calls {
			a := want[i]
			if c.Back {
				back++
			}
			if len(got[i].outs) != len(a[0].outs) {
				Fail("outputs", "%s: call %d returned %d outputs instead of %d", label, i, len(got[i].outs), len(a[0].outs))
			}
			for j := range got[i].outs {
				if fmt.Sprint(got[i].shapes[j]) != fmt.Sprint(a[0].shapes[j]) || !sameBits(got[i].outs[j], a[0].outs[j]) {
					Fail("outputs", "%s: output %d of call %d is %s, alone it is %s", label, j, i, short(got[i].outs[j]), short(a[0].outs[j]))
				}
			}
			for j := range got[i].in {
				if w.Frozen {
					if got[i].in[j] != nil {
						Fail("input gradients", "%s: input %d of call %d, which requires no gradient, has one", label, j, i)
					}
					continue
				}
				others := [][]float64{a[1].in[j], a[2].in[j]}
				if d := agreeAbs(w.F64, got[i].in[j], a[0].in[j], others, 100); d != "" && d != "?" {
					Fail("input gradients", "%s: the gradient of input %d of call %d %s", label, j, i, d)
				} else if d == "?" {
					e.Probe("sensitive gradients")
				}
			}
		}
		if back > 0 {
			e.Probe("backward")
		}
		if !stateful {
			for j, g := range s.grads() {
				if w.Frozen {
					continue
				}
				others := [][]float64{sums[1][j], sums[2][j]}
				if d := agreeAbs(w.F64, g, sums[0][j], others, 100); d != "" && d != "?" {
					Fail("parameter gradients", "%s: the gradient of parameter %d %s", label, j, d)
				}
			}
			if !bytes.Equal(saved, s.saved()) {
				Fail("modified", "%s: the calls modified the parameters or the saved state of the model", label)
			}
		}
		for _, l := range s.layers() {
			nn.ZeroGrad(l.model)
		}
		CheckLeaks("the calls")
	})
}

func init() {
	register(&Prop{
		ID: "P15", Flavours: map[string]int{"sim": 3, "fine": 1}, Quick: 20000, Thorough: 400000,
		Gen: genLay, New: func() any { return &layW{} }, Exec: execLay,
		Rule: "a run is one built-in layer or a chain of up to 3 sequence layers, executed by 1-4 concurrent callers (forward, some with backward) on one shared model under a drawn schedule, after each call was executed alone on a model of its own; distinct by the interleaving of synchronisation operations",
		Real: "nn/* layers, ag, mat, mat/gradfn, nn (Dump)", Stub: "Go scheduler, channels, sync, atomics (simulated)",
		Faults: []string{"adversarial schedules (starvation, priority inversion, preemption at any statement)", "1-8 CPUs"},
	})
}
