package harness

import (
	"bytes"
	"fmt"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/nn/attention/multiheadattention"
	"github.com/nlpodyssey/spago/nn/attention/selfattention"
	"github.com/nlpodyssey/spago/nn/recurrent/gru"
	"github.com/nlpodyssey/spago/nn/recurrent/lstm"
	"github.com/nlpodyssey/spago/nn/recurrent/srn"

	"spagosim/vsim"
)

// incW processes sequences that branch, as a decoder does: every chunk goes on
// from the state its parent left, which several chunks may go on from.
type incW struct {
	F64    bool
	Sync   bool
	Layer  layerSpec
	Keys   int // of cross attention
	Chunks []incChunk
	Back   bool
	Frozen bool // step by step, the parameters require no gradients
	Detach bool // states are detached from the graph before they are continued
}

type incChunk struct {
	Parent int // modulo the number of chunks before, 0 none
	Caller int
	N      int
	Seed   uint64
	Grad   bool
	Wait   bool // for the values before the others go on from here
}

var incKinds = []string{"srn", "gru", "lstm", "selfattention", "selfattention", "multihead", "multihead"}

func genInc(r *Rng) any {
	w := &incW{F64: r.P(.6), Sync: r.P(.15), Layer: genLayer(r, incKinds), Keys: r.Range(1, 5), Back: r.P(.6), Frozen: r.P(.15), Detach: r.P(.15)}
	long := r.P(.02)
	callers := r.Range(1, 3)
	deep := Pick(r, .2, .6, .9)
	k := r.Range(2, 8)
	if long {
		k = r.Range(2, 3)
	}
	for i := 0; i < k; i++ {
		c := incChunk{Parent: r.Intn(i + 1), Caller: r.Intn(callers), N: r.Size(4), Seed: r.U64(), Grad: r.P(.7), Wait: r.P(.4)}
		if r.P(deep) {
			c.Parent = i
		}
		if long {
			c.N = r.Range(1, 20)
		}
		w.Chunks = append(w.Chunks, c)
	}
	return w
}

// stepper processes chunks with a model.
type stepper struct {
	l      *layer
	cross  bool
	causal bool
}

// incState is what a chunk leaves to the next.
type incState struct {
	s     any
	parts []T // the tensors of the state
}

func (w *incW) stepper() *stepper {
	s := &stepper{l: w.Layer.build(w.F64)}
	switch m := s.l.model.(type) {
	case *selfattention.Model:
		if m.IsCrossAttention {
			m.UseCausalMask = false
		}
		s.cross, s.causal = m.IsCrossAttention, m.UseCausalMask
	case *multiheadattention.Model:
		for _, h := range m.Heads {
			if h.IsCrossAttention {
				h.UseCausalMask = false
			}
			s.cross, s.causal = h.IsCrossAttention, h.UseCausalMask
		}
	}
	return s
}

// step processes xs after the given state; keys are those of cross attention.
func (s *stepper) step(from *incState, xs, keys []T) (ys []T, to *incState) {
	to = &incState{}
	switch m := s.l.model.(type) {
	case *srn.Model:
		var st *srn.State
		if from != nil {
			st = from.s.(*srn.State)
		}
		for _, x := range xs {
			st = m.Next(st, x)
			ys = append(ys, st.Y)
		}
		to.s, to.parts = st, []T{st.Y}
	case *gru.Model:
		var st *gru.State
		if from != nil {
			st = from.s.(*gru.State)
		}
		for _, x := range xs {
			st = m.Next(st, x)
			ys = append(ys, st.Y)
		}
		to.s, to.parts = st, []T{st.R, st.P, st.C, st.Y}
	case *lstm.Model:
		var st *lstm.State
		if from != nil {
			st = from.s.(*lstm.State)
		}
		for _, x := range xs {
			st = m.Next(st, x)
			ys = append(ys, st.Y)
		}
		to.s, to.parts = st, []T{st.InG, st.OutG, st.ForG, st.Cand, st.Cell, st.Y}
	case *selfattention.Model:
		var c selfattention.Cache
		if from != nil {
			c = from.s.(selfattention.Cache)
		}
		if !s.cross {
			keys = xs
		} else if from != nil {
			keys = nil
		}
		ys, _, c = m.Forward(c, xs, keys)
		to.s, to.parts = c, c[:]
	case *multiheadattention.Model:
		var c multiheadattention.Cache
		if from != nil {
			c = from.s.(multiheadattention.Cache)
		}
		if !s.cross {
			keys = xs
		} else if from != nil {
			keys = nil
		}
		ys, _, c = m.Forward(c, xs, keys)
		to.s = c
		for _, h := range c {
			to.parts = append(to.parts, h[:]...)
		}
	}
	return
}

// detached returns the state without the graph it comes from.
func (t *incState) detached() *incState {
	if t == nil {
		return nil
	}
	cut := func(x T) T { return ag.StopGrad(x) }
	to := &incState{}
	switch s := t.s.(type) {
	case *srn.State:
		to.s = &srn.State{Y: cut(s.Y)}
	case *gru.State:
		to.s = &gru.State{R: s.R, P: s.P, C: s.C, Y: cut(s.Y)}
	case *lstm.State:
		to.s = &lstm.State{InG: s.InG, OutG: s.OutG, ForG: s.ForG, Cand: s.Cand, Cell: cut(s.Cell), Y: cut(s.Y)}
	case selfattention.Cache:
		to.s = selfattention.Cache{cut(s[0]), cut(s[1])}
	case multiheadattention.Cache:
		c := make(multiheadattention.Cache, len(s))
		for i := range c {
			c[i] = selfattention.Cache{cut(s[i][0]), cut(s[i][1])}
		}
		to.s = c
	}
	return to
}

// current returns the tensors of the state as they are now.
func (t *incState) current() (ts []T) {
	switch s := t.s.(type) {
	case *srn.State:
		ts = []T{s.Y}
	case *gru.State:
		ts = []T{s.R, s.P, s.C, s.Y}
	case *lstm.State:
		ts = []T{s.InG, s.OutG, s.ForG, s.Cand, s.Cell, s.Y}
	case selfattention.Cache:
		ts = s[:]
	case multiheadattention.Cache:
		for _, h := range s {
			ts = append(ts, h[:]...)
		}
	}
	return
}

// whole processes a whole sequence at once; the outputs are those of the last n.
func (s *stepper) whole(xs, keys []T, n int) ([]T, *incState) {
	q := xs
	switch m := s.l.model.(type) {
	case *srn.Model:
		ys := m.Forward(xs...)
		return ys[len(ys)-n:], nil
	case *gru.Model:
		ys := m.Forward(xs...)
		return ys[len(ys)-n:], nil
	case *lstm.Model:
		ys := m.Forward(xs...)
		return ys[len(ys)-n:], nil
	case *selfattention.Model:
		if !s.cross {
			keys = xs
		}
		if s.cross || !s.causal {
			q = xs[len(xs)-n:]
		}
		ys, _, c := m.Forward(selfattention.Cache{}, q, keys)
		return ys[len(ys)-n:], &incState{s: c, parts: c[:]}
	case *multiheadattention.Model:
		if !s.cross {
			keys = xs
		}
		if s.cross || !s.causal {
			q = xs[len(xs)-n:]
		}
		ys, _, c := m.Forward(nil, q, keys)
		st := &incState{s: c}
		for _, h := range c {
			st.parts = append(st.parts, h[:]...)
		}
		return ys[len(ys)-n:], st
	}
	panic("not incremental")
}

// weighted sums the outputs of a chunk with weights.
func (w *incW) weighted(seed uint64, ys []T) (loss T) {
	r := NewRng(seed + 13)
	for _, y := range ys {
		sh := y.Value().Shape()
		k := newMat(w.F64, sh[0], sh[1], randData(r, sh[0]*sh[1], false), false)
		t := ag.ReduceSum(ag.Prod(y, k))
		if loss == nil {
			loss = t
		} else {
			loss = ag.Add(loss, t)
		}
	}
	return
}

func (w *incW) vectors(n, size int, seed uint64, grad bool, nudge float64) []T {
	r, q := NewRng(seed), NewRng(seed+77)
	xs := make([]T, n)
	for i := range xs {
		d := randData(r, size, false)
		for j := range d {
			d[j] += nudge * (2*q.F() - 1)
		}
		xs[i] = newMat(w.F64, size, 1, d, grad)
	}
	return xs
}

func execInc(wl any, e *Env) *Violation {
	w := wl.(*incW)
	n := len(w.Chunks)
	if n == 0 || n > 16 {
		return nil
	}
	ok := false
	for _, k := range incKinds {
		ok = ok || k == w.Layer.Kind
	}
	if !ok {
		return nil
	}
	defer ag.SetForceSyncExecution(false)
	parent := make([]int, n)
	size := make([]int, n)
	forks := map[int]int{}
	for i, c := range w.Chunks {
		parent[i] = modulo(c.Parent, i+1) - 1
		size[i] = 1 + modulo(c.N-1, 24)
		forks[parent[i]]++
	}
	nKeys := 1 + modulo(w.Keys-1, 8)
	// The values do not depend on what requires gradients.
	back := w.Back && !w.Frozen && !w.Detach

	// All the sequences that end with a chunk at once, each on a model of its own.
	const refs = 3
	nudge := 1e-5
	if w.F64 {
		nudge = 1e-11
	}
	type result struct {
		outs   [][]float64
		shapes []string
		state  [][]float64
	}
	want := make([][refs]result, n)
	var params [refs][][][]float64 // gradients, of each chunk's loss
	inputs := make([][refs][][]float64, n)
	var keyGrads [refs][][][]float64
	v := e.Must("at once", func() {
		ag.SetForceSyncExecution(true)
		for k := 0; k < refs; k++ {
			d := nudge * float64([]int{0, 1, -1}[k])
			for i := range w.Chunks {
				s := w.stepper()
				nudgeModel(s.l.model, d, NewRng(w.Layer.Seed+uint64(k)))
				var path []int
				for j := i; j >= 0; j = parent[j] {
					path = append([]int{j}, path...)
				}
				var xs []T
				for _, j := range path {
					xs = append(xs, w.vectors(size[j], s.l.rows, w.Chunks[j].Seed, w.Chunks[j].Grad, d)...)
				}
				keys := w.vectors(nKeys, s.l.rows, w.Layer.Seed+5, true, d)
				ys, st := s.whole(xs, keys, size[i])
				var o result
				for _, y := range ys {
					o.outs = append(o.outs, vals(y))
					o.shapes = append(o.shapes, fmt.Sprint(y.Value().Shape()))
				}
				if st != nil {
					for _, t := range st.parts {
						o.state = append(o.state, vals(t))
					}
				}
				want[i][k] = o
				if !back {
					continue
				}
				if err := ag.Backward(w.weighted(w.Chunks[i].Seed, ys)); err != nil {
					Fail("error", "Backward returned %v", err)
				}
				var g [][]float64
				for _, p := range allParams(s.l.model) {
					g = append(g, gradVals(p))
				}
				params[k] = append(params[k], g)
				at := 0
				for _, j := range path {
					var g [][]float64
					for range make([]int, size[j]) {
						g = append(g, gradVals(xs[at]))
						at++
					}
					if inputs[j][k] != nil {
						g = sumGrads([][][]float64{inputs[j][k], g})
					}
					inputs[j][k] = g
				}
				g = nil
				for _, x := range keys {
					g = append(g, gradVals(x))
				}
				keyGrads[k] = append(keyGrads[k], g)
			}
		}
	}, Sequential)
	if v != nil {
		return v
	}
	for i := range want {
		for _, o := range want[i][0].outs {
			if wild(o) {
				return nil
			}
		}
	}

	kind := w.Layer.Kind
	return e.Must("step by step", func() {
		ag.SetForceSyncExecution(w.Sync)
		s := w.stepper()
		var saved, after bytes.Buffer
		if w.Frozen {
			for _, p := range allParams(s.l.model) {
				p.SetRequiresGrad(false)
			}
			e.Probe("frozen parameters")
		}
		if err := nn.Dump(s.l.model, &saved); err != nil {
			Fail("error", "Dump returned %v", err)
		}
		keys := w.vectors(nKeys, s.l.rows, w.Layer.Seed+5, !w.Frozen, 0)
		if w.Detach {
			e.Probe("detached states")
		}
		xs := make([][]T, n)
		ys := make([][]T, n)
		states := make([]*incState, n)
		early := make([][][]float64, n)
		ready := make([]chan int, n)
		callers := map[int]bool{}
		var order []int
		for i, c := range w.Chunks {
			xs[i] = w.vectors(size[i], s.l.rows, c.Seed, c.Grad && !w.Frozen, 0)
			ready[i] = make(chan int)
			if k := modulo(c.Caller, 4); !callers[k] {
				callers[k] = true
				order = append(order, k)
			}
		}
		work := func(caller int) {
			for i, c := range w.Chunks {
				if modulo(c.Caller, 4) != caller {
					continue
				}
				var from *incState
				if p := parent[i]; p >= 0 {
					vsim.Recv2(ready[p])
					from = states[p]
				}
				if w.Detach {
					from = from.detached()
				}
				ys[i], states[i] = s.step(from, append([]T(nil), xs[i]...), keys)
				if c.Wait {
					for _, t := range states[i].parts {
						early[i] = append(early[i], vals(t))
					}
				}
				vsim.Close(ready[i])
			}
		}
		if len(order) == 1 {
			work(order[0])
		} else {
			done := make(chan int)
			for _, k := range order {
				k := k
				vsim.Go(func() {
					work(k)
					vsim.Send(done)(k)
				})
			}
			for range order {
				vsim.Recv(done)
			}
			e.Probe("several callers")
		}
		for p, k := range forks {
			if p >= 0 && k > 1 {
				e.Probe("forks of a state")
			}
		}
		if back {
			var loss T
			for i, c := range w.Chunks {
				t := w.weighted(c.Seed, ys[i])
				if loss == nil {
					loss = t
				} else {
					loss = ag.Add(loss, t)
				}
			}
			if err := ag.Backward(loss); err != nil {
				Fail("error", "Backward returned %v", err)
			}
			e.Probe("backward")
		}
		rough := func(got, want []float64, o1, o2 []float64) string {
			if d := agreeAbs(w.F64, got, want, [][]float64{o1, o2}, 100); d != "?" {
				return d
			}
			e.Probe("sensitive values")
			return ""
		}
		for i := range w.Chunks {
			a, b, c := want[i][0], want[i][1], want[i][2]
			if len(ys[i]) != len(a.outs) {
				Fail("outputs", "%s: chunk %d: %d outputs, at once %d", kind, i, len(ys[i]), len(a.outs))
			}
			for j, y := range ys[i] {
				if sh := fmt.Sprint(y.Value().Shape()); sh != a.shapes[j] {
					Fail("outputs", "%s: output %d of chunk %d has shape %s, at once %s", kind, j, i, sh, a.shapes[j])
				}
				if d := rough(vals(y), a.outs[j], b.outs[j], c.outs[j]); d != "" {
					Fail("outputs", "%s: output %d of chunk %d (after %d): what goes on from a state differs from the whole sequence at once: it %s", kind, j, i, parent[i], d)
				}
			}
			now := states[i].current()
			for j, t := range states[i].parts {
				if t != now[j] {
					Fail("state", "%s: the state chunk %d left was replaced in part %d", kind, i, j)
				}
				got := vals(t)
				if early[i] != nil && !sameBits(early[i][j], got) {
					Fail("state", "%s: the state chunk %d left changed in part %d: %s instead of %s", kind, i, j, short(got), short(early[i][j]))
				}
				if len(a.state) > 0 {
					if d := rough(got, a.state[j], b.state[j], c.state[j]); d != "" {
						Fail("state", "%s: part %d of the state chunk %d left differs from that of the whole sequence: it %s", kind, j, i, d)
					}
				}
			}
			if !back {
				continue
			}
			for j, x := range xs[i] {
				if d := rough(gradVals(x), inputs[i][0][j], inputs[i][1][j], inputs[i][2][j]); d != "" {
					Fail("input gradients", "%s: the gradient of input %d of chunk %d %s", kind, j, i, d)
				}
			}
		}
		if back {
			sums, ks := [refs][][]float64{}, [refs][][]float64{}
			for k := range sums {
				sums[k], ks[k] = sumGrads(params[k]), sumGrads(keyGrads[k])
			}
			for j, p := range allParams(s.l.model) {
				if d := rough(gradVals(p), sums[0][j], sums[1][j], sums[2][j]); d != "" {
					Fail("parameter gradients", "%s: the gradient of parameter %d %s", kind, j, d)
				}
			}
			if s.cross {
				// only the chunks that begin a sequence look at the keys, for all that follow
				for j, x := range keys {
					if d := rough(gradVals(x), ks[0][j], ks[1][j], ks[2][j]); d != "" {
						Fail("input gradients", "%s: the gradient of key %d %s", kind, j, d)
					}
				}
			}
		}
		nn.ZeroGrad(s.l.model)
		if err := nn.Dump(s.l.model, &after); err != nil {
			Fail("error", "Dump returned %v", err)
		}
		if !bytes.Equal(saved.Bytes(), after.Bytes()) {
			Fail("modified", "%s: the model was modified", kind)
		}
		CheckLeaks("the chunks")
	})
}

func init() {
	register(&Prop{
		ID: "P20", Flavours: map[string]int{"sim": 3, "fine": 1}, Quick: 20000, Thorough: 400000,
		Gen: genInc, New: func() any { return &incW{} }, Exec: execInc,
		Rule: "a run is a tree of 2-8 chunks processed by 1-3 concurrent callers with one shared recurrent or attention model, each chunk going on from the state (or key/value cache) its parent left, under a drawn schedule, after every sequence was processed at once on a model of its own; distinct by the interleaving of synchronisation operations",
		Real: "nn/recurrent, nn/attention, ag, mat, mat/gradfn, nn (Dump)", Stub: "Go scheduler, channels, sync, atomics (simulated)",
		Faults: []string{"adversarial schedules (starvation, priority inversion, preemption at any statement)", "1-8 CPUs"},
	})
}
