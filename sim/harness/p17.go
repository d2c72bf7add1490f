package harness

import (
	"math"

	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/nn/embedding"
	"github.com/nlpodyssey/spago/optimizers/gradclipper"

	"spagosim/vsim"
	"spagosim/vsim/vcontext"
)

// clipW is a set of parameters whose gradients are accumulated concurrently
// and then clipped, in several rounds.
type clipW struct {
	F64    bool
	Params []clipParam
	Order  []int
	Stream int // 0 list, 1 model, 2 custom, 3 embedding rows
	Slow   int
	Rounds []clipRound
	Twin   bool // another clipping runs at the same time on other parameters
	Seed   uint64
}

type clipParam struct {
	R, C   int
	Frozen int // bit s: no gradient in round s
	Const  bool
}

type clipRound struct {
	Kind  int // 0 value, 1 norm
	Norm  int // index of the norm type
	Scale float64
	Adds  int // contributions per parameter
	Zero  bool
}

func genClip(r *Rng) any {
	w := &clipW{F64: r.P(.5), Stream: Pick(r, 0, 0, 1, 2, 3), Slow: r.Intn(4), Twin: r.P(.3), Seed: r.U64()}
	n := r.Size(12)
	if r.P(.02) {
		n = r.Range(20, 150)
	}
	for i := n; i > 0; i-- {
		p := clipParam{R: r.Size(5), C: r.Size(5), Const: r.P(.1)}
		if r.P(.005) {
			p.R, p.C = r.Range(9, 80), r.Range(1, 80)
		}
		if r.P(.3) {
			p.Frozen = r.Intn(8)
		}
		w.Order = append(w.Order, len(w.Params))
		w.Params = append(w.Params, p)
	}
	if r.P(.5) {
		for k := r.Range(1, 4); k > 0; k-- {
			at := r.Intn(len(w.Order) + 1)
			w.Order = append(w.Order, 0)
			copy(w.Order[at+1:], w.Order[at:])
			w.Order[at] = r.Intn(len(w.Params))
		}
	}
	for k := r.Range(1, 3); k > 0; k-- {
		w.Rounds = append(w.Rounds, clipRound{Kind: r.Intn(3), Norm: r.Intn(5), Scale: Pick(r, .01, .3, .5, .9, .99, .999, .9999, 1, 1.0001, 1.1, 2, 100), Adds: r.Range(1, 3), Zero: r.P(.6)})
	}
	return w
}

var clipNorms = []float64{2, 2, 3, 1.5, math.Inf(1)}

type clipModel struct {
	nn.Module
	P    *nn.Param
	Next *clipModel
}

// clipSet is one set of parameters with its stream.
type clipSet struct {
	ps  []*nn.Param
	cur [][]float64 // nil: no gradient
	acc func(i int, data []float64)
	f   nn.ParamChannelFunc
	emb *embedding.Model
}

func (w *clipW) set(salt uint64) *clipSet {
	s := &clipSet{}
	n := len(w.Params)
	if modulo(w.Stream, 4) == 3 {
		const dim = 3
		if w.F64 {
			s.emb = embedding.New[float64](n, dim)
		} else {
			s.emb = embedding.New[float32](n, dim)
		}
		s.ps = s.emb.Weights
		s.f = nn.Parameters(s.emb)
		s.acc = func(i int, data []float64) {
			e, err := s.emb.Embedding(i)
			if err != nil {
				Fail("error", "Embedding returned %v", err)
			}
			e.AccGrad(newMat(w.F64, dim, 1, data, false))
		}
	} else {
		for _, p := range w.Params {
			r, c := 1+modulo(p.R-1, 128), 1+modulo(p.C-1, 128)
			s.ps = append(s.ps, nn.NewParam(newMat(w.F64, r, c, make([]float64, r*c), false)).WithGrad(!p.Const))
		}
		s.acc = func(i int, data []float64) {
			p := s.ps[i]
			p.AccGrad(newMat(w.F64, p.Shape()[0], p.Shape()[1], data, false))
		}
		var list []*nn.Param
		var m *clipModel
		for k := len(w.Order) - 1; k >= 0; k-- {
			m = &clipModel{P: s.ps[modulo(w.Order[k], n)], Next: m}
		}
		for _, k := range w.Order {
			list = append(list, s.ps[modulo(k, n)])
		}
		switch {
		case modulo(w.Stream, 4) == 1 && m != nil:
			s.f = nn.Parameters(m)
		case modulo(w.Stream, 4) == 2:
			s.f = func(ctx vcontext.Context) <-chan *nn.Param {
				ch := make(chan *nn.Param, w.Slow)
				vsim.Go(func() {
					defer vsim.Close(ch)
					for _, p := range list {
						for k := 0; k < w.Slow; k++ {
							vsim.Step()
						}
						if vsim.Select(false, vsim.RecvCase(ctx.Done()), vsim.SendCase(ch)(p)) == 0 {
							return
						}
					}
				})
				return ch
			}
		default:
			s.f = nn.StreamParams(list)
		}
	}
	s.cur = make([][]float64, n)
	return s
}

// streamed tells which parameters the stream delivers.
func (w *clipW) streamed(s *clipSet, i int) bool {
	if s.emb != nil {
		return s.cur[i] != nil
	}
	for _, k := range w.Order {
		if modulo(k, len(w.Params)) == i {
			return true
		}
	}
	return false
}

func (w *clipW) round(e *Env, s *clipSet, ri int, c clipRound, salt uint64) {
	n := len(s.ps)
	if c.Zero {
		for i := range s.ps {
			if s.emb == nil {
				s.ps[i].ZeroGrad()
			}
			s.cur[i] = nil
		}
		if s.emb != nil {
			s.emb.ZeroGrad()
		}
	}
	// Gradients are contributed by several goroutines.
	adds := 1 + modulo(c.Adds-1, 3)
	fin := make(chan int, adds)
	part := make([][][]float64, adds)
	for a := range part {
		part[a] = make([][]float64, n)
		r := NewRng(Mix(w.Seed, salt*1000+uint64(ri*10+a)))
		for i, p := range s.ps {
			d := randData(r, p.Size(), true)
			if w.Params[i].Frozen>>ri&1 == 1 {
				continue
			}
			if w.Params[i].Const && s.emb == nil {
				continue
			}
			part[a][i] = d
			if s.cur[i] == nil {
				s.cur[i] = make([]float64, len(d))
			}
			for k, v := range d {
				s.cur[i][k] += v
			}
		}
	}
	for a := range part {
		vsim.Go(func() {
			for i, d := range part[a] {
				if d != nil {
					s.acc(i, d)
				}
			}
			vsim.Send(fin)(1)
		})
	}
	for range part {
		vsim.Recv(fin)
	}
	before := make([][]float64, n)
	for i, p := range s.ps {
		before[i] = gradVals(p)
		if (before[i] == nil) != (s.cur[i] == nil) {
			Fail("accumulate", "parameter %d: gradient %s after accumulation, expected %s", i, short(before[i]), short(s.cur[i]))
		}
		for k, v := range before[i] {
			if v != s.cur[i][k] && !(math.Abs(v-s.cur[i][k]) <= 1e-4*(1+math.Abs(v))) {
				Fail("accumulate", "parameter %d: gradient %s after accumulation, expected %s", i, short(before[i]), short(s.cur[i]))
			}
		}
		s.cur[i] = before[i]
	}
	scale := c.Scale
	if !(scale > 1e-3 && scale < 1e4) {
		scale = 1
	}
	in := make([]bool, n)
	for i := range s.ps {
		in[i] = w.streamed(s, i)
	}
	after := func() [][]float64 {
		out := make([][]float64, n)
		for i, p := range s.ps {
			out[i] = gradVals(p)
			if (out[i] == nil) != (before[i] == nil) || len(out[i]) != len(before[i]) {
				Fail("presence", "round %d: parameter %d had the gradient %s, after clipping it has %s", ri, i, short(before[i]), short(out[i]))
			}
			if !in[i] && !sameBits(out[i], before[i]) {
				Fail("foreign", "round %d: the gradient of parameter %d, which is not in the stream, changed from %s to %s", ri, i, short(before[i]), short(out[i]))
			}
		}
		return out
	}
	if modulo(c.Kind, 3) == 0 {
		lim := float64(float32(scale * .75))
		(&gradclipper.ValueClipper{Value: lim}).ClipGrads(s.f)
		out := after()
		for i := range out {
			if !in[i] {
				continue
			}
			for k, v := range out[i] {
				if want := math.Max(-lim, math.Min(lim, before[i][k])); v != want {
					Fail("value", "round %d: component %d of parameter %d was %v, clipped to [-%v,%v] it is %v", ri, k, i, before[i][k], lim, lim, v)
				}
			}
		}
		s.cur = out
		e.Probe("clipping by value")
		return
	}
	nt := clipNorms[modulo(c.Norm, len(clipNorms))]
	norm := func(gs [][]float64) float64 {
		sum, mx := 0.0, 0.0
		for i, g := range gs {
			if !in[i] {
				continue
			}
			for _, v := range g {
				sum += math.Pow(math.Abs(v), nt)
				mx = math.Max(mx, math.Abs(v))
			}
		}
		if math.IsInf(nt, 1) {
			return mx
		}
		return math.Pow(sum, 1/nt)
	}
	total := norm(before)
	max := total * scale
	if total < .05 {
		max = scale
	}
	(&gradclipper.NormClipper{MaxNorm: max, NormType: nt}).ClipGradients(s.f)
	out := after()
	same := true
	for i := range out {
		same = same && sameBits(out[i], before[i])
	}
	// the rounding of the norm, and the constant that avoids a division by zero
	tol := 1e-7 + 2e-7/max
	if !w.F64 {
		n := 0
		for _, g := range before {
			if n < len(g) {
				n = len(g)
			}
		}
		tol += 1e-5 + 1.2e-7*float64(n)
	}
	if total < max*(1-tol) {
		if !same {
			Fail("norm", "round %d: the norm %v is below the maximum %v, but gradients changed", ri, total, max)
		}
		e.Probe("norm below the maximum")
	} else if total > max*(1+tol) && total > .05 {
		f := max / total
		for i := range out {
			if !in[i] {
				continue
			}
			for k, v := range out[i] {
				if b := before[i][k]; !(math.Abs(v-f*b) <= (tol+3e-6)*math.Abs(f*b)+1e-9) {
					Fail("norm", "round %d: the %v-norm is %v and the maximum %v: component %d of parameter %d should have been scaled by %v, but changed from %v to %v", ri, nt, total, max, k, i, f, b, v)
				}
			}
		}
		if g := norm(out); g > max*(1+tol) {
			Fail("norm", "round %d: the %v-norm is %v after clipping to %v", ri, nt, g, max)
		}
		e.Probe("clipping by norm")
	}
	s.cur = out
}

func execClip(wl any, e *Env) *Violation {
	w := wl.(*clipW)
	if len(w.Params) == 0 || len(w.Params) > 200 || len(w.Rounds) > 3 {
		return nil
	}
	return e.Must("clipping", func() {
		work := func(salt uint64) {
			s := w.set(salt)
			for ri, c := range w.Rounds {
				w.round(e, s, ri, c, salt)
			}
		}
		if w.Twin {
			fin := make(chan int)
			vsim.Go(func() { work(2); vsim.Send(fin)(1) })
			work(1)
			vsim.Recv(fin)
		} else {
			work(1)
		}
		CheckLeaks("gradient clipping")
	})
}

func init() {
	register(&Prop{
		ID: "P17", Flavours: map[string]int{"sim": 2, "fine": 1}, Quick: 150000, Thorough: 3000000,
		Gen: genClip, New: func() any { return &clipW{} }, Exec: execClip,
		Rule: "a run is 1-3 rounds of concurrent accumulation of gradients and clipping by value or norm of a stream with repeated, frozen and gradient-less parameters, optionally next to another clipping, under a random schedule; non-trivial if the scheduler switched goroutines beyond start-up",
		Real: "optimizers/gradclipper, nn (streams, Param), nn/embedding, mat", Stub: "Go scheduler, channels, select, sync, context (simulated)",
	})
}
