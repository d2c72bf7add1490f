package harness

import (
	"bytes"
	"errors"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/nn/embedding"
	"github.com/nlpodyssey/spago/optimizers"

	"spagosim/vsim"
	"spagosim/vsim/vcontext"
)

// embW is the concurrent use of one embedding table, in phases.
type embW struct {
	F64    bool
	Size   int
	Dim    int
	Holder int // 0: the table itself, 1: inside a model, 2: shared by two models
	Loaded bool
	Phases []embPhase
	Seed   uint64
	Rush   bool // the phases follow each other at once
}

type embPhase struct {
	Workers [][]embOp
	Clear   int
	Mid     int // times the model is cleared while the others accumulate
}

type embOp struct {
	Op   int
	Idx  []int
	Seed int
}

func genEmb(r *Rng) any {
	w := &embW{F64: r.P(.4), Size: r.Size(12), Dim: r.Size(5), Holder: r.Intn(3), Loaded: r.P(.4), Seed: r.U64(), Rush: r.P(.5)}
	if r.P(.02) {
		w.Dim = r.Range(20, 2500)
	}
	many := 6
	if r.P(.04) {
		w.Size, many = r.Range(20, 300), 60
	}
	for k := Pick(r, 1, 1, 2, 3, 4); k > 0; k-- {
		ph := embPhase{Clear: r.Intn(5)}
		if r.P(.15) {
			ph.Mid = r.Range(1, 3)
		}
		for i := r.Range(1, 4); i > 0; i-- {
			var ops []embOp
			for j := r.Range(1, 5); j > 0; j-- {
				o := embOp{Op: Pick(r, 0, 0, 1, 1, 1, 2, 3, 4, 5, 6, 7, 8), Seed: r.Intn(1000)}
				for x := r.Size(many); x > 0; x-- {
					o.Idx = append(o.Idx, r.Intn(w.Size))
				}
				ops = append(ops, o)
			}
			ph.Workers = append(ph.Workers, ops)
		}
		w.Phases = append(w.Phases, ph)
	}
	return w
}

type embHolder struct {
	nn.Module
	Emb  *embedding.Model
	Proj *nn.Param
}

type embSharers struct {
	nn.Module
	A embedding.Shared
	P *nn.Param
}

// embStrategy records the parameters it is applied to.
type embStrategy struct {
	seen map[*nn.Param]int
}

func (s *embStrategy) OptimizeParams(p *nn.Param) error {
	vsim.Step()
	s.seen[p]++
	p.SubInPlace(p.Grad().(mat.Matrix))
	p.ZeroGrad()
	return nil
}

func (w *embW) model() (*embedding.Model, nn.Model, [][]float64) {
	var m *embedding.Model
	if w.F64 {
		m = embedding.New[float64](w.Size, w.Dim)
	} else {
		m = embedding.New[float32](w.Size, w.Dim)
	}
	r := NewRng(w.Seed)
	var rows [][]float64
	for _, p := range m.Weights {
		d := randData(r, w.Dim, true)
		rows = append(rows, d)
		p.ReplaceValue(newMat(w.F64, w.Dim, 1, d, true))
	}
	if w.Loaded {
		// Some gradients exist while the model is dumped.
		if e, err := m.Embedding(0); err == nil {
			e.AccGrad(newMat(w.F64, w.Dim, 1, make([]float64, w.Dim), false))
		}
		var b bytes.Buffer
		if err := nn.Dump(m, &b); err != nil {
			Fail("error", "Dump returned %v", err)
		}
		var err error
		if m, err = nn.Load[*embedding.Model](&b); err != nil {
			Fail("error", "Load returned %v", err)
		}
	}
	proj := nn.NewParam(newMat(w.F64, 1, 1, []float64{1}, false))
	switch modulo(w.Holder, 3) {
	case 1:
		return m, &embHolder{Emb: m, Proj: proj}, rows
	case 2:
		return m, &embSharers{A: embedding.Shared{Model: m}, P: proj}, rows
	}
	return m, m, rows
}

func execEmb(wl any, e *Env) *Violation {
	w := wl.(*embW)
	if w.Size < 1 || w.Size > 300 || w.Dim < 1 || w.Dim > 2500 || w.Size*w.Dim > 100000 || len(w.Phases) > 6 {
		return nil
	}
	return e.Must("embeddings", func() {
		m, root, rows := w.model()
		n := w.Size
		cur := make([][]float64, n) // expected gradients
		if w.Loaded {
			e.Probe("loaded model")
		}
		rowOf := map[*nn.Param]int{}
		for i, p := range m.Weights {
			rowOf[p] = i
		}
		check := func(when string) {
			want := 0
			for i, p := range m.Weights {
				g := gradVals(p)
				if cur[i] != nil {
					want++
				}
				if (g == nil) != (cur[i] == nil) || !sameBits(g, cur[i]) {
					Fail("gradient", "%s: row %d has the gradient %s, the contributions sum to %s", when, i, short(g), short(cur[i]))
				}
				x, err := m.Embedding(i)
				if err != nil {
					Fail("error", "Embedding(%d) returned %v", i, err)
				}
				if x.HasGrad() != (cur[i] != nil) || !sameBits(gradVals(x), cur[i]) {
					Fail("gradient", "%s: the embedding of row %d reports the gradient %s, expected %s", when, i, short(gradVals(x)), short(cur[i]))
				}
				if v := vals(x); !sameBits(v, rows[i]) {
					Fail("value", "%s: the value of row %d is %s, expected %s", when, i, short(v), short(rows[i]))
				}
			}
			if c := m.CountEmbedWithGrad(); c != want {
				Fail("count", "%s: %d rows have gradients, CountEmbedWithGrad reports %d", when, want, c)
			}
			visit := func(how string, each func(f func(*nn.Param))) {
				seen := map[int]bool{}
				each(func(p *nn.Param) {
					i, ok := rowOf[p]
					if !ok {
						return // not a row
					}
					if cur[i] == nil {
						Fail("stream", "%s: %s yields row %d, which has no gradient", when, how, i)
					}
					if seen[i] {
						Fail("stream", "%s: %s yields row %d twice", when, how, i)
					}
					seen[i] = true
				})
				if len(seen) != want {
					Fail("stream", "%s: %s yields %d rows, %d have gradients", when, how, len(seen), want)
				}
			}
			visit("the visit", func(f func(*nn.Param)) { nn.ForEachParam(root, f) })
			visit("the stream", func(f func(*nn.Param)) {
				ch := nn.Parameters(root)(vcontext.Background())
				for {
					p, ok := vsim.Recv2(ch)
					if !ok {
						return
					}
					f(p)
				}
			})
		}
		check("at the beginning")
		for pi, ph := range w.Phases {
			nw := len(ph.Workers)
			if nw > 8 {
				return
			}
			if ph.Mid > 0 {
				w.cleared(e, m, root, pi, ph, cur, rows)
				check("after the phase with concurrent clearing")
				continue
			}
			fin := make(chan int, nw)
			// Expected contributions; rows cleared individually belong to one worker.
			owner := make([]int, n)
			for i := range owner {
				owner[i] = -1
			}
			for k, ops := range ph.Workers {
				for _, o := range ops {
					if modulo(o.Op, 9) == 6 && len(o.Idx) > 0 {
						if i := modulo(o.Idx[0], n); owner[i] < 0 {
							owner[i] = k
						}
					}
				}
			}
			before := 0
			for i := range cur {
				if cur[i] != nil && owner[i] < 0 {
					before++
				}
			}
			may := make([]bool, n) // rows that have a gradient at some time in this phase
			for i := range cur {
				may[i] = cur[i] != nil
			}
			add := func(i int, g []float64) {
				may[i] = true
				if cur[i] == nil {
					cur[i] = make([]float64, w.Dim)
				}
				for j := range g {
					cur[i][j] += g[j]
				}
			}
			type todo struct {
				op  int
				how int
				idx []int
				g   []float64
			}
			work := make([][]todo, nw)
			for k, ops := range ph.Workers {
				for _, o := range ops {
					t := todo{op: modulo(o.Op, 9), how: modulo(o.Seed, 4), g: randData(NewRng(Mix(w.Seed, uint64(o.Seed))), w.Dim, true)}
					for _, i := range o.Idx {
						if i = modulo(i, n); owner[i] < 0 || owner[i] == k {
							t.idx = append(t.idx, i)
						}
					}
					if len(t.idx) == 0 {
						continue
					}
					if t.op == 6 {
						if t.idx = t.idx[:1]; owner[t.idx[0]] != k {
							continue
						}
						cur[t.idx[0]] = nil
					}
					if t.op <= 1 || t.op == 8 {
						for _, i := range t.idx {
							add(i, t.g)
						}
					}
					work[k] = append(work[k], t)
				}
			}
			for k := range work {
				vsim.Go(func() {
					for _, t := range work[k] {
						switch t.op {
						case 0: // direct accumulation
							for _, i := range t.idx {
								x, err := m.Embedding(i)
								if err != nil {
									Fail("error", "Embedding(%d) returned %v", i, err)
								}
								x.AccGrad(newMat(w.F64, w.Dim, 1, t.g, false))
							}
						case 1, 8: // through a graph
							var xs []mat.Tensor
							var err error
							if t.op == 1 {
								if xs, err = m.Encode(t.idx); err != nil {
									Fail("error", "Encode returned %v", err)
								}
							} else {
								xs = m.MustEncode(t.idx)
							}
							for j, x := range xs {
								if v := vals(x); !sameBits(v, rows[t.idx[j]]) {
									Fail("value", "phase %d: the embedding of row %d is %s, expected %s", pi, t.idx[j], short(v), short(rows[t.idx[j]]))
								}
							}
							y := ag.Sum(xs...)
							z := ag.Prod(y, newMat(w.F64, w.Dim, 1, t.g, false))
							if err := ag.Backward(ag.ReduceSum(z)); err != nil {
								Fail("error", "Backward returned %v", err)
							}
						case 2: // inference
							xs, err := m.Encode(t.idx)
							if err != nil {
								Fail("error", "Encode returned %v", err)
							}
							y := vals(ag.Concat(xs...))
							for j, i := range t.idx {
								if !sameBits(y[j*w.Dim:(j+1)*w.Dim], rows[i]) {
									Fail("value", "phase %d: a concurrent lookup of row %d gives %s", pi, i, short(y))
								}
							}
						case 3:
							if c := m.CountEmbedWithGrad(); c < before || c > n {
								Fail("count", "phase %d: CountEmbedWithGrad reports %d rows while at least %d and at most %d have gradients", pi, c, before, n)
							}
						case 4:
							for _, bad := range []int{-1, n, n + 7} {
								if _, err := m.Encode(append(append([]int{}, t.idx...), bad)); !errors.Is(err, nn.ErrInvalidIndex) {
									Fail("index", "Encode of a row number out of range returned %v", err)
								}
								if x, err := m.Embedding(bad); !errors.Is(err, nn.ErrInvalidIndex) || x != nil {
									Fail("index", "Embedding(%d) returned %v", bad, err)
								}
							}
						case 5: // a visit while others accumulate
							seen := 0
							dup := map[*nn.Param]bool{}
							visit := func(p *nn.Param) {
								i, ok := rowOf[p]
								if !ok {
									return
								}
								if t.how > 1 { // the visitor uses the model
									if c := m.CountEmbedWithGrad(); c < before || c > n {
										Fail("count", "phase %d: CountEmbedWithGrad reports %d rows during a visit", pi, c)
									}
									if xs, err := m.Encode(t.idx); err != nil || !sameBits(vals(xs[0]), rows[t.idx[0]]) {
										Fail("value", "phase %d: wrong embedding during a visit", pi)
									}
									e.Probe("model used during a visit")
								}
								if !may[i] || dup[p] {
									Fail("stream", "phase %d: a concurrent visit yields row %d twice or without gradient", pi, i)
								}
								dup[p] = true
								if owner[i] < 0 {
									seen++
								}
							}
							if t.how%2 == 0 {
								nn.ForEachParam(root, visit)
							} else {
								ctx, cancel := vcontext.WithCancel(vcontext.Background())
								var p *nn.Param
								for it := vsim.Range(nn.Parameters(root)(ctx)); it.Next(&p); {
									visit(p)
								}
								cancel()
							}
							if seen < before {
								Fail("stream", "phase %d: a concurrent visit yields %d rows, %d had gradients before", pi, seen, before)
							}
						case 6:
							x, err := m.Embedding(t.idx[0])
							if err != nil {
								Fail("error", "Embedding returned %v", err)
							}
							x.ZeroGrad()
							if x.HasGrad() {
								Fail("gradient", "phase %d: row %d has a gradient right after ZeroGrad", pi, t.idx[0])
							}
						case 7:
							for _, i := range t.idx {
								x, _ := m.Embedding(i)
								if x.RequiresGrad() != true {
									Fail("value", "row %d requires no gradient", i)
								}
								_ = x.HasGrad()
								_ = x.Grad()
							}
						}
					}
					vsim.Send(fin)(1)
				})
			}
			for range work {
				vsim.Recv(fin)
			}
			if !w.Rush {
				CheckLeaks("the use of an embedding model")
			}
			check("after the concurrent phase")
			switch modulo(ph.Clear, 5) {
			case 1:
				m.ZeroGrad()
				cur = make([][]float64, n)
				check("after ZeroGrad of the model")
			case 2:
				for i := range cur {
					x, _ := m.Embedding(i)
					x.ZeroGrad()
				}
				cur = make([][]float64, n)
				check("after ZeroGrad of every row")
			case 3:
				st := &embStrategy{seen: map[*nn.Param]int{}}
				if err := optimizers.New(nn.Parameters(root), st).Optimize(); err != nil {
					Fail("error", "Optimize returned %v", err)
				}
				for i, p := range m.Weights {
					if k := st.seen[p]; (k == 1) != (cur[i] != nil) || k > 1 {
						Fail("optimize", "row %d was updated %d times, its gradient was %s", i, k, short(cur[i]))
					}
					for j := range cur[i] {
						rows[i][j] -= cur[i][j]
					}
				}
				cur = make([][]float64, n)
				check("after an optimization step")
				e.Probe("optimization step")
			case 4:
				nn.ZeroGrad(root)
				cur = make([][]float64, n)
				check("after nn.ZeroGrad")
			}
		}
		CheckLeaks("the use of an embedding model")
	})
}

// cleared runs a phase in which the model is cleared while others accumulate: of
// the contributions of each worker to a row, those before some point are taken
// away and those after it are not.
func (w *embW) cleared(e *Env, m *embedding.Model, root nn.Model, pi int, ph embPhase, cur, rows [][]float64) {
	n := w.Size
	type todo struct {
		row int
		g   []float64
	}
	work := make([][]todo, len(ph.Workers))
	per := make([][][][]float64, n) // row, worker, contributions in order
	for i := range per {
		per[i] = make([][][]float64, len(ph.Workers)+1)
		if cur[i] != nil {
			per[i][len(ph.Workers)] = [][]float64{cur[i]}
		}
	}
	for k, ops := range ph.Workers {
		for _, o := range ops {
			for x, i := range o.Idx {
				if i = modulo(i, n); len(per[i][k]) < 3 {
					g := randData(NewRng(Mix(w.Seed, uint64(o.Seed+x))), w.Dim, true)
					per[i][k] = append(per[i][k], g)
					work[k] = append(work[k], todo{i, g})
				}
			}
		}
	}
	fin := make(chan int, len(work)+1)
	for k := range work {
		vsim.Go(func() {
			for _, t := range work[k] {
				x, err := m.Embedding(t.row)
				if err != nil {
					Fail("error", "Embedding(%d) returned %v", t.row, err)
				}
				x.AccGrad(newMat(w.F64, w.Dim, 1, t.g, false))
			}
			vsim.Send(fin)(1)
		})
	}
	vsim.Go(func() {
		for k := 0; k < ph.Mid && k < 4; k++ {
			if modulo(ph.Clear, 2) == 0 {
				m.ZeroGrad()
			} else {
				nn.ZeroGrad(root)
			}
		}
		vsim.Send(fin)(1)
	})
	for i := 0; i <= len(work); i++ {
		vsim.Recv(fin)
	}
	CheckLeaks("the use of an embedding model")
	e.Probe("cleared while others accumulate")
	for i, p := range m.Weights {
		got := gradVals(p)
		ok := false
		var try func(k int, sum []float64, any bool)
		try = func(k int, sum []float64, any bool) {
			if ok {
				return
			}
			if k == len(per[i]) {
				ok = any == (got != nil) && (got == nil || sameBits(sum, got))
				return
			}
			for from := 0; from <= len(per[i][k]); from++ {
				s := append([]float64(nil), sum...)
				for _, g := range per[i][k][from:] {
					for j := range g {
						s[j] += g[j]
					}
				}
				try(k+1, s, any || from < len(per[i][k]))
			}
		}
		if try(0, make([]float64, w.Dim), false); !ok {
			Fail("gradient", "phase %d: row %d has the gradient %s after clearing while others accumulated, which no point of clearing explains", pi, i, short(got))
		}
		cur[i] = got
	}
}

func init() {
	register(&Prop{
		ID: "P14", Flavours: map[string]int{"sim": 2, "fine": 1}, Quick: 60000, Thorough: 1200000,
		Gen: genEmb, New: func() any { return &embW{} }, Exec: execEmb,
		Rule: "a run is 1-4 phases of 1-4 goroutines that look up, accumulate (directly and through graphs), count, visit and clear rows of one embedding table, fresh or loaded from a dump, with an optimization step or clearing between the phases, under a random schedule; non-trivial if the scheduler switched goroutines beyond start-up",
		Real: "nn/embedding, nn, ag, mat, mat/gradfn, optimizers", Stub: "Go scheduler, channels, sync, atomics (simulated); map iteration order chosen by the simulator",
	})
}
