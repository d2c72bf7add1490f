package harness

import (
	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/nn"

	"spagosim/vsim"
)

// clrW is a set of goroutines that accumulate into shared parameters while one of
// them, or another one, clears the gradients.
type clrW struct {
	F64    bool
	Sizes  []int
	Work   [][]clrOp
	Clears []int // how
	Looks  int
}

type clrOp struct {
	Par int
	How int
}

func genClr(r *Rng) *clrW {
	w := &clrW{F64: r.P(.5), Looks: Pick(r, 0, 0, 1, 2)}
	for k := r.Range(1, 3); k > 0; k-- {
		w.Sizes = append(w.Sizes, Pick(r, 1, 2, 3, 8, r.Range(1, 40), Pick(r, 1, 1, 1, 5000)))
	}
	for k := r.Range(1, 4); k > 0; k-- {
		var ops []clrOp
		for j := r.Range(1, 5); j > 0; j-- {
			ops = append(ops, clrOp{r.Intn(len(w.Sizes)), r.Intn(4)})
		}
		w.Work = append(w.Work, ops)
	}
	for k := r.Range(1, 4); k > 0; k-- {
		w.Clears = append(w.Clears, r.Intn(3))
	}
	return w
}

type clrModel struct {
	nn.Module
	Ps []*nn.Param
}

func execClr(w *clrW, e *Env) *Violation {
	if len(w.Sizes) == 0 || len(w.Sizes) > 4 || len(w.Work) > 5 {
		return nil
	}
	return e.Must("clearing", func() {
		m := &clrModel{}
		for _, n := range w.Sizes {
			n = modulo(n-1, 6000) + 1
			m.Ps = append(m.Ps, nn.NewParam(newMat(w.F64, n, 1, nTimes(n, .5), false).(mat.Matrix)))
		}
		// Each contribution to a parameter is another power of two, so that the
		// gradient tells which ones it consists of.
		bits := make([]int, len(m.Ps))
		own := make([][][]int, len(m.Ps)) // parameter, worker, its bits in order
		type todo struct {
			p   *nn.Param
			how int
			g   T
		}
		work := make([][]todo, len(w.Work))
		for i := range own {
			own[i] = make([][]int, len(w.Work))
		}
		for k, ops := range w.Work {
			for _, o := range ops {
				i := modulo(o.Par, len(m.Ps))
				if bits[i] >= 20 {
					continue
				}
				p := m.Ps[i]
				n := p.Size()
				own[i][k] = append(own[i][k], bits[i])
				work[k] = append(work[k], todo{p, modulo(o.How, 4), newMat(w.F64, n, 1, nTimes(n, float64(int(1)<<bits[i])), false)})
				bits[i]++
			}
		}
		fin := make(chan int, len(work)+2)
		for k := range work {
			vsim.Go(func() {
				for _, t := range work[k] {
					switch t.how {
					case 0:
						t.p.AccGrad(t.g)
					case 1:
						t.p.Value().AccGrad(t.g)
					default:
						y := ag.ReduceSum(ag.Prod(t.p, t.g))
						if err := ag.Backward(y); err != nil {
							Fail("error", "Backward returned %v", err)
						}
					}
				}
				vsim.Send(fin)(1)
			})
		}
		vsim.Go(func() {
			for _, how := range w.Clears {
				switch modulo(how, 3) {
				case 0:
					nn.ZeroGrad(m)
				case 1:
					for _, p := range m.Ps {
						p.ZeroGrad()
					}
				default:
					m.Ps[0].Value().ZeroGrad()
				}
			}
			vsim.Send(fin)(1)
		})
		vsim.Go(func() {
			for k := 0; k < w.Looks && k < 4; k++ {
				for _, p := range m.Ps {
					if g := p.Grad(); p.HasGrad() && !isNilTensor(g) && g.Size() != p.Size() {
						Fail("gradient", "a gradient of %d elements was read, the parameter has %d", g.Size(), p.Size())
					}
				}
			}
			vsim.Send(fin)(1)
		})
		for i := 0; i < len(work)+2; i++ {
			vsim.Recv(fin)
		}
		e.Probe("cleared while others accumulate")
		for i, p := range m.Ps {
			got := gradVals(p)
			mask := 0
			if got != nil {
				mask = int(got[0])
				for _, v := range got {
					if v != float64(mask) || mask <= 0 || mask >= 1<<bits[i] {
						Fail("gradient", "parameter %d has the gradient %s after it was cleared while others accumulated: no set of the contributions 1, 2, ..., 2^%d sums up to this", i, short(got), bits[i]-1)
					}
				}
			}
			for k, bs := range own[i] {
				kept := false
				for _, b := range bs {
					has := mask>>b&1 == 1
					if kept && !has {
						Fail("gradient", "parameter %d lost the contribution 2^%d of goroutine %d, which had made 2^%d... before: %s", i, b, k, bs[0], short(got))
					}
					kept = has
				}
			}
		}
		CheckLeaks("clearing")
	})
}
