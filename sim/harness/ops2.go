package harness

import (
	"math"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/losses"
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/mat/gradfn"
	"github.com/nlpodyssey/spago/mat/rand"
)

// lossOp is a scalar function of one vector, with its gradient.
func lossOp(name string, kmax int, dom func(x ref, k int) bool, f func(x ref, k int) float64, df func(x ref, k int) ref, api func(x T, k int) T) opDef {
	return opDef{name: name,
		pick: func(p *picker) ([]int, []int, bool) {
			a := p.one(ref.vec)
			return []int{a}, []int{p.num() % 5040}, a >= 0
		},
		fwd: func(in []ref, k []int) (ref, bool) {
			c := k[0] % max(1, kmaxOf(kmax, in[0]))
			return scalarRef(f(in[0], c)), dom(in[0], c)
		},
		vjp: func(in []ref, _ ref, g ref, k []int) []*ref {
			c := k[0] % max(1, kmaxOf(kmax, in[0]))
			return []*ref{rp(df(in[0], c).each(func(v float64) float64 { return v * g.v[0] }))}
		},
		api: func(x []T, k []int) T { return api(x[0], k[0]%max(1, kmaxT(kmax, x[0]))) },
	}
}

// kmaxOf bounds a constant: 0 stands for the size of the operand.
func kmaxOf(kmax int, m ref) int {
	if kmax == 0 {
		return m.size()
	}
	return kmax
}

func kmaxT(kmax int, x T) int {
	if kmax == 0 {
		return x.Value().Size()
	}
	return kmax
}

// pairLoss is a scalar function of two tensors of one shape, summed over the
// elements or averaged.
func pairLoss(name string, mean bool, dom func(a, b ref) bool, f, d1, d2 func(a, b float64) float64, api func(a, b T) T) opDef {
	scale := func(m ref) float64 {
		if mean {
			return 1 / float64(m.size())
		}
		return 1
	}
	return opDef{name: name,
		pick: func(p *picker) ([]int, []int, bool) {
			a := p.one(anyRef)
			if a < 0 {
				return nil, nil, false
			}
			b := p.one(func(m ref) bool { return m.same(p.nodes[a].ref) && dom(p.nodes[a].ref, m) })
			return []int{a, b}, nil, b >= 0
		},
		fwd: func(in []ref, _ []int) (ref, bool) {
			return scalarRef(in[0].zip(in[1], f).sum() * scale(in[0])), dom(in[0], in[1])
		},
		vjp: func(in []ref, _ ref, g ref, _ []int) []*ref {
			s := g.v[0] * scale(in[0])
			return []*ref{
				rp(in[0].zip(in[1], func(a, b float64) float64 { return d1(a, b) * s })),
				rp(in[0].zip(in[1], func(a, b float64) float64 { return d2(a, b) * s })),
			}
		},
		api: func(x []T, _ []int) T { return api(x[0], x[1]) },
	}
}

// part selects one of the pieces that a tensor is cut into; the others are
// evaluated as well, but nobody uses them.
func part(name string, pred func(m ref) bool, n func(m ref, k int) int, cut func(m ref, k, i int) (at []int, r, c int), api func(x T, k, i int) T) opDef {
	return opDef{name: name, exact: true,
		pick: func(p *picker) ([]int, []int, bool) {
			a := p.one(func(m ref) bool { return pred(m) && m.size() <= 144 })
			if a < 0 {
				return nil, nil, false
			}
			k := p.num()
			return []int{a}, []int{k, p.num() % n(p.nodes[a].ref, k)}, true
		},
		fwd: func(in []ref, k []int) (ref, bool) {
			at, r, c := cut(in[0], k[0], k[1])
			out := zeros(r, c)
			for i, j := range at {
				out.v[i] = in[0].v[j]
			}
			return out, true
		},
		vjp: func(in []ref, _ ref, g ref, k []int) []*ref {
			at, _, _ := cut(in[0], k[0], k[1])
			out := zeros(in[0].r, in[0].c)
			for i, j := range at {
				out.v[j] += g.v[i]
			}
			return []*ref{&out}
		},
		api: func(x []T, k []int) T { return api(x[0], k[0], k[1]) },
	}
}

func divisor(n, k int) int {
	var ds []int
	for d := 1; d <= n; d++ {
		if n%d == 0 {
			ds = append(ds, d)
		}
	}
	return ds[modulo(k, len(ds))]
}

func init() {
	add := func(d opDef) {
		opIndex[d.name] = len(ops)
		ops = append(ops, d)
	}
	add(unary("ReverseSubOne", true, anyRef, func(v float64) float64 { return 1 - v }, func(float64) float64 { return -1 }, ag.ReverseSubOne, nil))
	extreme := func(name string, better func(a, b float64) bool, api func(x []T) T) {
		add(opDef{name: name, exact: true,
			pick: func(p *picker) ([]int, []int, bool) {
				a := p.one(anyRef)
				if a < 0 {
					return nil, nil, false
				}
				in, ok := listOf(p, p.count(0, 4), func(m ref) bool { return m.same(p.nodes[a].ref) })
				return append([]int{a}, in...), nil, ok
			},
			fwd: func(in []ref, _ []int) (ref, bool) {
				ok := len(in) > 1
				for i := range in {
					for j := range in[:i] {
						ok = ok && noTie(in[i], in[j])
					}
				}
				out := in[0]
				for _, m := range in[1:] {
					out = out.zip(m, func(a, b float64) float64 {
						if better(b, a) {
							return b
						}
						return a
					})
				}
				return out, ok
			},
			vjp: func(in []ref, out ref, g ref, _ []int) []*ref {
				var gs []*ref
				for _, m := range in {
					x := zeros(m.r, m.c)
					for i := range x.v {
						best := true
						for _, o := range in {
							best = best && !better(o.v[i], m.v[i])
						}
						if best {
							x.v[i] = g.v[i]
						}
					}
					gs = append(gs, &x)
				}
				return gs
			},
			api: func(x []T, _ []int) T { return api(copyTs(x)) },
		})
	}
	extreme("Maximum", func(a, b float64) bool { return a > b }, ag.Maximum)
	extreme("Minimum", func(a, b float64) bool { return a < b }, ag.Minimum)
	add(opDef{name: "BiAffine", exact: true,
		pick: func(p *picker) ([]int, []int, bool) {
			w := p.one(anyRef)
			if w < 0 {
				return nil, nil, false
			}
			m := p.nodes[w]
			left := func(x ref) bool { return x.c == 1 && x.r == m.r }
			right := func(x ref) bool { return x.c == 1 && x.r == m.c }
			in := []int{w, p.one(left), p.one(right), p.one(ref.scalar), p.one(left), p.one(right)}
			ok := true
			for _, i := range in {
				ok = ok && i >= 0
			}
			return in, nil, ok
		},
		fwd: func(in []ref, _ []int) (ref, bool) {
			w, u, v, b, x1, x2 := in[0], in[1], in[2], in[3], in[4], in[5]
			return scalarRef(x1.t().mul(w).mul(x2).v[0] + u.t().mul(x1).v[0] + v.t().mul(x2).v[0] + b.v[0]), true
		},
		vjp: func(in []ref, _ ref, g ref, _ []int) []*ref {
			w, u, v, x1, x2 := in[0], in[1], in[2], in[4], in[5]
			s := func(m ref) *ref { return rp(m.each(func(a float64) float64 { return a * g.v[0] })) }
			plus := func(a, b ref) ref { return a.zip(b, func(a, b float64) float64 { return a + b }) }
			return []*ref{s(x1.mul(x2.t())), s(x1), s(x2), rp(g), s(plus(w.mul(x2), u)), s(plus(w.t().mul(x1), v))}
		},
		api: func(x []T, _ []int) T { return ag.BiAffine(x[0], x[1], x[2], x[3], x[4], x[5]) },
	})
	add(part("SeparateVec", ref.vec, func(m ref, _ int) int { return m.size() },
		func(_ ref, _, i int) ([]int, int, int) { return []int{i}, 1, 1 },
		func(x T, _, i int) T { return ag.SeparateVec(x)[i] }))
	add(part("SeparateMatrix", anyRef, func(m ref, _ int) int { return m.size() },
		func(_ ref, _, i int) ([]int, int, int) { return []int{i}, 1, 1 },
		func(x T, _, i int) T {
			ys := ag.SeparateMatrix(x)
			return ys[i/len(ys[0])][i%len(ys[0])]
		}))
	add(part("SplitVec", func(m ref) bool { return m.c == 1 }, func(m ref, k int) int { return divisor(m.r, k) },
		func(m ref, k, i int) ([]int, int, int) {
			n := m.r / divisor(m.r, k)
			var at []int
			for j := 0; j < n; j++ {
				at = append(at, i*n+j)
			}
			return at, n, 1
		},
		func(x T, k, i int) T { return ag.SplitVec(x, divisor(x.Value().Size(), k))[i] }))

	// losses
	sub := func(a, b float64) float64 { return a - b }
	sign := func(a, b float64) float64 { return math.Copysign(1, a-b) }
	for _, mean := range []bool{false, true} {
		n := ""
		if mean {
			n = "Mean"
		}
		add(pairLoss("MAE"+n, mean, noTie, func(a, b float64) float64 { return math.Abs(a - b) }, sign,
			func(a, b float64) float64 { return -sign(a, b) }, func(a, b T) T { return losses.MAE(a, b, mean) }))
		add(pairLoss("MSE"+n, mean, anyPair, func(a, b float64) float64 { return .5 * (a - b) * (a - b) }, sub,
			func(a, b float64) float64 { return b - a }, func(a, b T) T { return losses.MSE(a, b, mean) }))
	}
	add(pairLoss("NLL", false, func(a, b ref) bool { return between(0.05, 50)(a) }, func(a, b float64) float64 { return -b * math.Log(a) },
		func(a, b float64) float64 { return -b / a }, func(a, b float64) float64 { return -math.Log(a) }, losses.NLL))
	ce := func(x ref, c int) float64 {
		mx := math.Inf(-1)
		for _, v := range x.v {
			mx = math.Max(mx, v)
		}
		return mx + math.Log(x.each(func(v float64) float64 { return math.Exp(v - mx) }).sum()) - x.v[c]
	}
	dce := func(x ref, c int, s float64) ref {
		p := softmaxRef(x)
		out := ref{x.r, x.c, append([]float64(nil), p.v...)}
		out.v[c]--
		return out.each(func(v float64) float64 { return v * s })
	}
	calm := func(x ref, _ int) bool { return between(-20, 20)(x) }
	add(lossOp("CrossEntropy", 0, calm, ce, func(x ref, c int) ref { return dce(x, c, 1) }, losses.CrossEntropy))
	add(lossOp("Perplexity", 0, func(x ref, c int) bool { return calm(x, c) && ce(x, c) < 3 },
		func(x ref, c int) float64 { return math.Exp(ce(x, c)) },
		func(x ref, c int) ref { return dce(x, c, math.Exp(ce(x, c))) }, losses.Perplexity))
	weight := func(i int) float64 { return .25 + float64(i%3)/4 }
	weights := func(x T) mat.Matrix {
		u := make([]float64, x.Value().Size())
		for i := range u {
			u[i] = weight(i)
		}
		_, f64 := x.Value().(*mat.Dense[float64])
		return newMat(f64, len(u), 1, u, false)
	}
	add(lossOp("WeightedCrossEntropy", 0, calm, func(x ref, c int) float64 { return weight(c) * ce(x, c) },
		func(x ref, c int) ref { return dce(x, c, weight(c)) },
		func(x T, c int) T { return losses.WeightedCrossEntropy(weights(x))(x, c) }))
	for _, gamma := range []float64{0, 1, 2, 1.5} {
		focal := func(x ref, c int) float64 { e := ce(x, c); return math.Pow(1-math.Exp(-e), gamma) * e }
		dfocal := func(x ref, c int) ref {
			e := ce(x, c)
			p := math.Exp(-e)
			d := math.Pow(1-p, gamma)
			if gamma > 0 {
				d += e * gamma * math.Pow(1-p, gamma-1) * p
			}
			return dce(x, c, d)
		}
		fdom := func(x ref, c int) bool { return calm(x, c) && ce(x, c) > .05 }
		add(lossOp("FocalLoss"+string(rune('0'+int(2*gamma))), 0, fdom, focal, dfocal, func(x T, c int) T { return losses.FocalLoss(x, c, gamma) }))
		if gamma == 2 {
			add(lossOp("WeightedFocalLoss", 0, fdom, func(x ref, c int) float64 { return weight(c) * focal(x, c) },
				func(x ref, c int) ref { return dfocal(x, c).each(func(v float64) float64 { return v * weight(c) }) },
				func(x T, c int) T { return losses.WeightedFocalLoss(weights(x))(x, c, gamma) }))
		}
	}
	sq := func(x ref) float64 { return x.each(func(v float64) float64 { return v * v }).sum() }
	zo := func(x ref, _ int) float64 {
		return x.each(func(v float64) float64 { return v * v * (1 - v) * (1 - v) }).sum()
	}
	dzo := func(x ref, _ int) ref {
		return x.each(func(v float64) float64 { return 2*v*(1-v)*(1-v) - 2*v*v*(1-v) })
	}
	n2 := func(x ref, _ int) float64 { return (sq(x) - 1) * (sq(x) - 1) }
	dn2 := func(x ref, _ int) ref {
		s := 4 * (sq(x) - 1)
		return x.each(func(v float64) float64 { return s * v })
	}
	tame := func(x ref, _ int) bool { return between(-3, 3)(x) }
	add(lossOp("ZeroOneQuantization", 1, tame, zo, dzo, func(x T, _ int) T { return losses.ZeroOneQuantization(x) }))
	add(lossOp("Norm2Quantization", 1, tame, n2, dn2, func(x T, _ int) T { return losses.Norm2Quantization(x) }))
	add(lossOp("OneHotQuantization", 1, tame, func(x ref, k int) float64 { return .125 * (zo(x, k) + n2(x, k)) },
		func(x ref, k int) ref {
			return dzo(x, k).zip(dn2(x, k), func(a, b float64) float64 { return .125 * (a + b) })
		}, func(x T, _ int) T { return losses.OneHotQuantization(x, .125) }))

	// dropout of nothing and of everything
	keep := func(k []int) float64 { return float64(k[0] % 2) }
	add(opDef{name: "Dropout", exact: true,
		pick: func(p *picker) ([]int, []int, bool) { a := p.one(anyRef); return []int{a}, []int{p.num() % 2}, a >= 0 },
		fwd: func(in []ref, k []int) (ref, bool) {
			return in[0].each(func(v float64) float64 { return v * keep(k) }), true
		},
		vjp: func(in []ref, _ ref, g ref, k []int) []*ref {
			return []*ref{rp(g.each(func(v float64) float64 { return v * keep(k) }))}
		},
		api: func(x []T, k []int) T {
			return ag.NewOperator(gradfn.NewDropout(x[0], 1-keep(k), rand.NewLockedRand(1))).Run()
		},
		mk: func(x []T, k []int) ag.AutoGradFunction {
			return gradfn.NewDropout(x[0], 1-keep(k), rand.NewLockedRand(1))
		},
	})
}
