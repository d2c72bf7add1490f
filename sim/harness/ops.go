package harness

import (
	"math"
	"sort"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/mat/gradfn"
)

// T is a tensor of the library.
type T = mat.Tensor

// ref is a matrix of the reference model: plain row-major float64 numbers.
type ref struct {
	r, c int
	v    []float64
}

func zeros(r, c int) ref { return ref{r, c, make([]float64, r*c)} }

func (m ref) size() int           { return len(m.v) }
func (m ref) at(i, j int) float64 { return m.v[i*m.c+j] }
func (m ref) vec() bool           { return m.r == 1 || m.c == 1 }
func (m ref) scalar() bool        { return len(m.v) == 1 }
func (m ref) same(o ref) bool     { return m.r == o.r && m.c == o.c }

func (m ref) mul(o ref) ref {
	out := zeros(m.r, o.c)
	for i := 0; i < m.r; i++ {
		for j := 0; j < o.c; j++ {
			s := 0.0
			for k := 0; k < m.c; k++ {
				s += m.at(i, k) * o.at(k, j)
			}
			out.v[i*o.c+j] = s
		}
	}
	return out
}

func (m ref) t() ref {
	out := zeros(m.c, m.r)
	for i := 0; i < m.r; i++ {
		for j := 0; j < m.c; j++ {
			out.v[j*m.r+i] = m.at(i, j)
		}
	}
	return out
}

func (m ref) zip(o ref, f func(a, b float64) float64) ref {
	out := zeros(m.r, m.c)
	for i := range m.v {
		out.v[i] = f(m.v[i], o.v[i])
	}
	return out
}

func (m ref) each(f func(a float64) float64) ref {
	out := zeros(m.r, m.c)
	for i := range m.v {
		out.v[i] = f(m.v[i])
	}
	return out
}

func (m ref) sum() float64 {
	s := 0.0
	for _, v := range m.v {
		s += v
	}
	return s
}

func all(m ref, f func(v float64) bool) bool {
	for _, v := range m.v {
		if !f(v) {
			return false
		}
	}
	return true
}

func scalarRef(v float64) ref { return ref{1, 1, []float64{v}} }

// picker chooses operands of an instruction among the nodes built so far.
type picker struct {
	sel   []int
	pos   int
	nodes []gnode
	noAlp bool // constant-like operands must not require gradients
}

func (p *picker) num() int {
	if len(p.sel) == 0 {
		return 0
	}
	v := p.sel[p.pos%len(p.sel)]
	p.pos++
	if v < 0 {
		v = -v
	}
	return v
}

// count draws a number of operands: lo, lo+1, ... lo+n-1, or rarely many.
func (p *picker) count(lo, n int) int {
	v := p.num()
	if v > 975 {
		return 30 + v%40
	}
	return lo + v%n
}

func (p *picker) one(pred func(m ref) bool) int {
	return p.node(func(n gnode) bool { return pred(n.ref) })
}

func (p *picker) node(pred func(n gnode) bool) int {
	var c []int
	for i, n := range p.nodes {
		if pred(n) {
			c = append(c, i)
		}
	}
	k := p.num()
	if len(c) == 0 {
		return -1
	}
	// recent nodes more often, so that graphs grow deep
	if k%3 == 0 && len(c) > 3 {
		return c[len(c)-1-(k/3)%3]
	}
	return c[(k/3)%len(c)]
}

// constant picks a scalar that an operator treats as a constant.
func (p *picker) constant(lo, hi float64) int {
	return p.node(func(n gnode) bool {
		return n.scalar() && math.Abs(n.v[0]) >= lo && n.v[0] <= hi && (lo == 0 || n.v[0] > 0) && (!p.noAlp || !n.rg)
	})
}

type opDef struct {
	name  string
	exact bool // dyadic values stay dyadic, short and small
	pick  func(p *picker) (in []int, k []int, ok bool)
	fwd   func(in []ref, k []int) (ref, bool)
	// vjp returns, per operand, the gradient to add (nil: none is propagated).
	vjp func(in []ref, out ref, g ref, k []int) []*ref
	api func(x []T, k []int) T
	mk  func(x []T, k []int) ag.AutoGradFunction
}

func anyRef(ref) bool { return true }

const margin = 1e-3

func away(points ...float64) func(ref) bool {
	return func(m ref) bool {
		return all(m, func(v float64) bool {
			for _, p := range points {
				if math.Abs(v-p) < margin {
					return false
				}
			}
			return true
		})
	}
}

func between(lo, hi float64) func(ref) bool {
	return func(m ref) bool { return all(m, func(v float64) bool { return v >= lo && v <= hi }) }
}

func rp(m ref) *ref { return &m }

func unary(name string, exact bool, dom func(ref) bool, f, df func(v float64) float64, api func(T) T, mk func(T) ag.AutoGradFunction) opDef {
	d := opDef{name: name, exact: exact,
		pick: func(p *picker) ([]int, []int, bool) {
			a := p.one(dom)
			return []int{a}, nil, a >= 0
		},
		fwd: func(in []ref, _ []int) (ref, bool) { return in[0].each(f), dom(in[0]) },
		vjp: func(in []ref, _ ref, g ref, _ []int) []*ref {
			return []*ref{rp(in[0].zip(g, func(v, gy float64) float64 { return df(v) * gy }))}
		},
		api: func(x []T, _ []int) T { return api(x[0]) },
	}
	if mk != nil {
		d.mk = func(x []T, _ []int) ag.AutoGradFunction { return mk(x[0]) }
	}
	return d
}

// withConsts is an element-wise function of x with constant scalars.
func withConsts(name string, n int, lo, hi float64, dom func(x ref, a []float64) bool, f, df func(v float64, a []float64) float64, api func(x []T) T, mk func(x []T) ag.AutoGradFunction) opDef {
	consts := func(in []ref) []float64 {
		var a []float64
		for _, c := range in[1:] {
			a = append(a, c.v[0])
		}
		return a
	}
	return opDef{name: name,
		pick: func(p *picker) ([]int, []int, bool) {
			in := []int{p.one(anyRef)}
			ok := in[0] >= 0
			for i := 0; i < n; i++ {
				c := p.constant(lo, hi)
				ok = ok && c >= 0
				in = append(in, c)
			}
			return in, nil, ok
		},
		fwd: func(in []ref, _ []int) (ref, bool) {
			a := consts(in)
			return in[0].each(func(v float64) float64 { return f(v, a) }), dom(in[0], a)
		},
		vjp: func(in []ref, _ ref, g ref, _ []int) []*ref {
			a := consts(in)
			out := make([]*ref, len(in))
			out[0] = rp(in[0].zip(g, func(v, gy float64) float64 { return df(v, a) * gy }))
			return out
		},
		api: func(x []T, _ []int) T { return api(x) },
		mk:  func(x []T, _ []int) ag.AutoGradFunction { return mk(x) },
	}
}

func sameShape(name string, exact bool, dom func(a, b ref) bool, f func(a, b float64) float64, d1, d2 func(a, b float64) float64, api func(a, b T) T, mk func(a, b T) ag.AutoGradFunction) opDef {
	return opDef{name: name, exact: exact,
		pick: func(p *picker) ([]int, []int, bool) {
			a := p.one(anyRef)
			if a < 0 {
				return nil, nil, false
			}
			b := p.one(func(m ref) bool { return m.same(p.nodes[a].ref) && dom(p.nodes[a].ref, m) })
			return []int{a, b}, nil, b >= 0
		},
		fwd: func(in []ref, _ []int) (ref, bool) { return in[0].zip(in[1], f), dom(in[0], in[1]) },
		vjp: func(in []ref, _ ref, g ref, _ []int) []*ref {
			g1, g2 := zeros(g.r, g.c), zeros(g.r, g.c)
			for i := range g.v {
				g1.v[i] = d1(in[0].v[i], in[1].v[i]) * g.v[i]
				g2.v[i] = d2(in[0].v[i], in[1].v[i]) * g.v[i]
			}
			return []*ref{&g1, &g2}
		},
		api: func(x []T, _ []int) T { return api(x[0], x[1]) },
		mk:  func(x []T, _ []int) ag.AutoGradFunction { return mk(x[0], x[1]) },
	}
}

// scalarOp combines every element of x with one scalar.
func scalarOp(name string, exact bool, dom func(s float64) bool, f func(x, s float64) float64, d1, d2 func(x, s float64) float64, api func(a, b T) T, mk func(a, b T) ag.AutoGradFunction) opDef {
	return opDef{name: name, exact: exact,
		pick: func(p *picker) ([]int, []int, bool) {
			a := p.one(anyRef)
			b := p.one(func(m ref) bool { return m.scalar() && dom(m.v[0]) })
			return []int{a, b}, nil, a >= 0 && b >= 0
		},
		fwd: func(in []ref, _ []int) (ref, bool) {
			s := in[1].v[0]
			return in[0].each(func(v float64) float64 { return f(v, s) }), dom(s)
		},
		vjp: func(in []ref, _ ref, g ref, _ []int) []*ref {
			s := in[1].v[0]
			g1, g2 := zeros(g.r, g.c), zeros(1, 1)
			for i := range g.v {
				g1.v[i] = d1(in[0].v[i], s) * g.v[i]
				g2.v[0] += d2(in[0].v[i], s) * g.v[i]
			}
			return []*ref{&g1, &g2}
		},
		api: func(x []T, _ []int) T { return api(x[0], x[1]) },
		mk:  func(x []T, _ []int) ag.AutoGradFunction { return mk(x[0], x[1]) },
	}
}

func sigm(v float64) float64 { return 1 / (1 + math.Exp(-v)) }

func noTie(a, b ref) bool {
	for i := range a.v {
		if math.Abs(a.v[i]-b.v[i]) < margin {
			return false
		}
	}
	return true
}

func anyPair(a, b ref) bool { return true }

func softmaxRef(m ref) ref {
	mx := math.Inf(-1)
	for _, v := range m.v {
		mx = math.Max(mx, v)
	}
	out := m.each(func(v float64) float64 { return math.Exp(v - mx) })
	s := out.sum()
	out = out.each(func(v float64) float64 { return v / s })
	return ref{out.size(), 1, out.v} // always a column
}

// sparsemaxRef returns the projection on the simplex and whether the support
// is decided by a clear margin.
func sparsemaxRef(m ref) (ref, float64, bool) {
	z := append([]float64(nil), m.v...)
	sort.Sort(sort.Reverse(sort.Float64Slice(z)))
	s, tau := 0.0, 0.0
	for i := range z {
		s += z[i]
		if 1+float64(i+1)*z[i] > s {
			tau = (s - 1) / float64(i+1)
		}
	}
	clear := true
	out := m.each(func(v float64) float64 {
		if math.Abs(v-tau) < margin {
			clear = false
		}
		return math.Max(0, v-tau)
	})
	return out, tau, clear
}

func listOf(p *picker, n int, pred func(m ref) bool) ([]int, bool) {
	var in []int
	same := 0 // of many operands, the first ones are the same
	if n >= 30 {
		same = p.num() % n
	}
	for i := 0; i < n; i++ {
		a := -1
		if i > 0 && i < same {
			a = in[0]
		} else {
			a = p.one(pred)
		}
		if a < 0 {
			return nil, false
		}
		in = append(in, a)
	}
	return in, true
}

func copyTs(x []T) []T { return append([]T(nil), x...) }

var ops []opDef
var opIndex = map[string]int{}

func opNamed(name string) *opDef {
	i, ok := opIndex[name]
	if !ok {
		i = int(HashString(name) % uint64(len(ops)))
	}
	return &ops[i]
}

func init() {
	add := func(d opDef) {
		opIndex[d.name] = len(ops)
		ops = append(ops, d)
	}
	add(unary("Abs", true, away(0), math.Abs, func(v float64) float64 { return math.Copysign(1, v) }, ag.Abs, func(x T) ag.AutoGradFunction { return gradfn.NewAbs(x) }))
	add(unary("Cos", false, anyRef, math.Cos, func(v float64) float64 { return -math.Sin(v) }, ag.Cos, func(x T) ag.AutoGradFunction { return gradfn.NewCos(x) }))
	add(unary("Sin", false, anyRef, math.Sin, math.Cos, ag.Sin, func(x T) ag.AutoGradFunction { return gradfn.NewSin(x) }))
	add(unary("Exp", false, between(-8, 3), math.Exp, math.Exp, ag.Exp, func(x T) ag.AutoGradFunction { return gradfn.NewExp(x) }))
	add(unary("GELU", false, between(-6, 6), func(v float64) float64 {
		return 0.5 * v * (1 + math.Tanh(math.Sqrt(2/math.Pi)*(v+0.044715*v*v*v)))
	}, func(v float64) float64 { // derivative of the same approximation
		c := math.Sqrt(2 / math.Pi)
		t := math.Tanh(c * (v + 0.044715*v*v*v))
		return 0.5*(1+t) + 0.5*v*(1-t*t)*c*(1+3*0.044715*v*v)
	}, ag.GELU, func(x T) ag.AutoGradFunction { return gradfn.NewGELU(x) }))
	add(unary("HardSigmoid", false, away(-2.5, 2.5), func(v float64) float64 { return math.Max(0, math.Min(1, 0.2*v+0.5)) }, func(v float64) float64 {
		if math.Abs(v) < 2.5 {
			return 0.2
		}
		return 0
	}, ag.HardSigmoid, func(x T) ag.AutoGradFunction { return gradfn.NewHardSigmoid(x) }))
	add(unary("HardTanh", true, away(-1, 1), func(v float64) float64 { return math.Max(-1, math.Min(1, v)) }, func(v float64) float64 {
		if math.Abs(v) < 1 {
			return 1
		}
		return 0
	}, ag.HardTanh, func(x T) ag.AutoGradFunction { return gradfn.NewHardTanh(x) }))
	add(unary("Log", false, between(0.05, 50), math.Log, func(v float64) float64 { return 1 / v }, ag.Log, func(x T) ag.AutoGradFunction { return gradfn.NewLog(x) }))
	add(unary("Mish", false, between(-8, 8), func(v float64) float64 { return v * math.Tanh(math.Log1p(math.Exp(v))) }, func(v float64) float64 {
		sp := math.Log1p(math.Exp(v))
		th := math.Tanh(sp)
		return th + v*(1-th*th)*sigm(v)
	}, ag.Mish, func(x T) ag.AutoGradFunction { return gradfn.NewMish(x) }))
	add(unary("Neg", true, anyRef, func(v float64) float64 { return -v }, func(float64) float64 { return -1 }, ag.Neg, func(x T) ag.AutoGradFunction { return gradfn.NewNeg(x) }))
	relu := unary("ReLU", true, away(0), func(v float64) float64 { return math.Max(0, v) }, func(v float64) float64 {
		if v > 0 {
			return 1
		}
		return 0
	}, ag.ReLU, func(x T) ag.AutoGradFunction { return gradfn.NewReLU(x) })
	add(relu)
	add(unary("Reciprocal", false, func(m ref) bool { return all(m, func(v float64) bool { return math.Abs(v) > 0.2 }) }, func(v float64) float64 { return 1 / v }, func(v float64) float64 { return -1 / (v * v) }, ag.Reciprocal, func(x T) ag.AutoGradFunction { return gradfn.NewReciprocal(x) }))
	add(unary("Sigmoid", false, between(-8, 8), sigm, func(v float64) float64 { return sigm(v) * (1 - sigm(v)) }, ag.Sigmoid, func(x T) ag.AutoGradFunction { return gradfn.NewSigmoid(x) }))
	sw := func(v float64) float64 { return v * sigm(v) }
	dsw := func(v float64) float64 { return sigm(v) + v*sigm(v)*(1-sigm(v)) }
	add(unary("SiLU", false, between(-8, 8), sw, dsw, ag.SiLU, func(x T) ag.AutoGradFunction { return gradfn.NewSiLU(x) }))
	add(unary("Swish", false, between(-8, 8), sw, dsw, ag.Swish, func(x T) ag.AutoGradFunction { return gradfn.NewSwish(x) }))
	add(unary("Softsign", false, away(0), func(v float64) float64 { return v / (1 + math.Abs(v)) }, func(v float64) float64 {
		d := 1 + math.Abs(v)
		return 1 / (d * d)
	}, ag.Softsign, func(x T) ag.AutoGradFunction { return gradfn.NewSoftsign(x) }))
	add(unary("Sqrt", false, between(0.05, 50), math.Sqrt, func(v float64) float64 { return 0.5 / math.Sqrt(v) }, ag.Sqrt, func(x T) ag.AutoGradFunction { return gradfn.NewSqrt(x) }))
	add(unary("Square", true, between(-8, 8), func(v float64) float64 { return v * v }, func(v float64) float64 { return 2 * v }, ag.Square, func(x T) ag.AutoGradFunction { return gradfn.NewSquare(x) }))
	add(unary("Tan", false, between(-1.2, 1.2), math.Tan, func(v float64) float64 { return 1 / (math.Cos(v) * math.Cos(v)) }, ag.Tan, func(x T) ag.AutoGradFunction { return gradfn.NewTan(x) }))
	add(unary("Tanh", false, anyRef, math.Tanh, func(v float64) float64 { return 1 - math.Tanh(v)*math.Tanh(v) }, ag.Tanh, func(x T) ag.AutoGradFunction { return gradfn.NewTanh(x) }))
	add(unary("Copy", true, anyRef, func(v float64) float64 { return v }, func(float64) float64 { return 1 }, ag.Copy, func(x T) ag.AutoGradFunction { return gradfn.NewCopy(x) }))
	add(unary("PositiveELU", false, away(0), func(v float64) float64 {
		if v > 0 {
			return v + 1
		}
		return math.Exp(v)
	}, func(v float64) float64 {
		if v > 0 {
			return 1
		}
		return math.Exp(v)
	}, ag.PositiveELU, nil))
	powers := []float64{2, 3, 0.5, -1, 1.5}
	add(opDef{name: "Pow",
		pick: func(p *picker) ([]int, []int, bool) {
			a := p.one(between(0.1, 6))
			return []int{a}, []int{p.num() % len(powers)}, a >= 0
		},
		fwd: func(in []ref, k []int) (ref, bool) {
			return in[0].each(func(v float64) float64 { return math.Pow(v, powers[k[0]]) }), between(0.1, 6)(in[0])
		},
		vjp: func(in []ref, _ ref, g ref, k []int) []*ref {
			q := powers[k[0]]
			return []*ref{rp(in[0].zip(g, func(v, gy float64) float64 { return q * math.Pow(v, q-1) * gy }))}
		},
		api: func(x []T, k []int) T { return ag.Pow(x[0], powers[k[0]]) },
		mk:  func(x []T, k []int) ag.AutoGradFunction { return gradfn.NewPow(x[0], powers[k[0]]) },
	})

	// constants
	nz := func(x ref, _ []float64) bool { return away(0)(x) }
	add(withConsts("CELU", 1, 0.25, 3, nz, func(v float64, a []float64) float64 {
		if v > 0 {
			return v
		}
		return a[0] * (math.Exp(v/a[0]) - 1)
	}, func(v float64, a []float64) float64 {
		if v > 0 {
			return 1
		}
		return math.Exp(v / a[0])
	}, func(x []T) T { return ag.CELU(x[0], x[1]) }, func(x []T) ag.AutoGradFunction { return gradfn.NewCELU(x[0], x[1]) }))
	add(withConsts("ELU", 1, 0, 3, nz, func(v float64, a []float64) float64 {
		if v > 0 {
			return v
		}
		return a[0] * (math.Exp(v) - 1)
	}, func(v float64, a []float64) float64 {
		if v > 0 {
			return 1
		}
		return a[0] * math.Exp(v)
	}, func(x []T) T { return ag.ELU(x[0], x[1]) }, func(x []T) ag.AutoGradFunction { return gradfn.NewELU(x[0], x[1]) }))
	add(withConsts("LeakyReLU", 1, 0, 3, nz, func(v float64, a []float64) float64 {
		if v > 0 {
			return v
		}
		return a[0] * v
	}, func(v float64, a []float64) float64 {
		if v > 0 {
			return 1
		}
		return a[0]
	}, func(x []T) T { return ag.LeakyReLU(x[0], x[1]) }, func(x []T) ag.AutoGradFunction { return gradfn.NewLeakyReLU(x[0], x[1]) }))
	add(withConsts("SELU", 2, 0, 3, nz, func(v float64, a []float64) float64 {
		if v > 0 {
			return a[1] * v
		}
		return a[1] * a[0] * (math.Exp(v) - 1)
	}, func(v float64, a []float64) float64 {
		if v > 0 {
			return a[1]
		}
		return a[1] * a[0] * math.Exp(v)
	}, func(x []T) T { return ag.SELU(x[0], x[1], x[2]) }, func(x []T) ag.AutoGradFunction { return gradfn.NewSELU(x[0], x[1], x[2]) }))
	add(withConsts("SoftPlus", 2, 0.25, 3, func(x ref, a []float64) bool { return away(a[1])(x) && between(-8, 8)(x) }, func(v float64, a []float64) float64 {
		if v > a[1] {
			return v
		}
		return math.Log1p(math.Exp(a[0]*v)) / a[0]
	}, func(v float64, a []float64) float64 {
		if v > a[1] {
			return 1
		}
		return sigm(a[0] * v)
	}, func(x []T) T { return ag.SoftPlus(x[0], x[1], x[2]) }, func(x []T) ag.AutoGradFunction { return gradfn.NewSoftPlus(x[0], x[1], x[2]) }))
	add(withConsts("SoftShrink", 1, 0.05, 3, func(x ref, a []float64) bool { return away(a[0], -a[0])(x) }, func(v float64, a []float64) float64 {
		switch {
		case v > a[0]:
			return v - a[0]
		case v < -a[0]:
			return v + a[0]
		}
		return 0
	}, func(v float64, a []float64) float64 {
		if math.Abs(v) > a[0] {
			return 1
		}
		return 0
	}, func(x []T) T { return ag.SoftShrink(x[0], x[1]) }, func(x []T) ag.AutoGradFunction { return gradfn.NewSoftShrink(x[0], x[1]) }))
	add(withConsts("Threshold", 2, 0, 3, func(x ref, a []float64) bool { return away(a[0])(x) }, func(v float64, a []float64) float64 {
		if v > a[0] {
			return v
		}
		return a[1]
	}, func(v float64, a []float64) float64 {
		if v > a[0] {
			return 1
		}
		return 0
	}, func(x []T) T { return ag.Threshold(x[0], x[1], x[2]) }, func(x []T) ag.AutoGradFunction { return gradfn.NewThreshold(x[0], x[1], x[2]) }))

	// element-wise pairs
	c1 := func(a, b float64) float64 { return 1 }
	cm := func(a, b float64) float64 { return -1 }
	fst := func(a, b float64) float64 { return a }
	snd := func(a, b float64) float64 { return b }
	ind := func(f func(a, b float64) bool) func(a, b float64) float64 {
		return func(a, b float64) float64 {
			if f(a, b) {
				return 1
			}
			return 0
		}
	}
	less := func(a, b float64) bool { return a < b }
	more := func(a, b float64) bool { return a > b }
	add(sameShape("Add", true, anyPair, func(a, b float64) float64 { return a + b }, c1, c1, func(a, b T) T { return ag.Add(a, b) }, func(a, b T) ag.AutoGradFunction { return gradfn.NewAdd(a, b) }))
	add(sameShape("Sub", true, anyPair, func(a, b float64) float64 { return a - b }, c1, cm, func(a, b T) T { return ag.Sub(a, b) }, func(a, b T) ag.AutoGradFunction { return gradfn.NewSub(a, b) }))
	add(sameShape("Prod", true, anyPair, func(a, b float64) float64 { return a * b }, snd, fst, func(a, b T) T { return ag.Prod(a, b) }, func(a, b T) ag.AutoGradFunction { return gradfn.NewProd(a, b) }))
	add(sameShape("Div", false, func(a, b ref) bool { return all(b, func(v float64) bool { return math.Abs(v) > 0.25 }) }, func(a, b float64) float64 { return a / b }, func(a, b float64) float64 { return 1 / b }, func(a, b float64) float64 { return -a / (b * b) }, func(a, b T) T { return ag.Div(a, b) }, func(a, b T) ag.AutoGradFunction { return gradfn.NewDiv(a, b) }))
	add(sameShape("Max", true, noTie, math.Max, ind(more), ind(less), func(a, b T) T { return ag.Max(a, b) }, func(a, b T) ag.AutoGradFunction { return gradfn.NewMax(a, b) }))
	add(sameShape("Min", true, noTie, math.Min, ind(less), ind(more), func(a, b T) T { return ag.Min(a, b) }, func(a, b T) ag.AutoGradFunction { return gradfn.NewMin(a, b) }))
	add(opDef{name: "Dot", exact: true,
		pick: func(p *picker) ([]int, []int, bool) {
			a := p.one(anyRef)
			if a < 0 {
				return nil, nil, false
			}
			b := p.one(func(m ref) bool { return m.same(p.nodes[a].ref) })
			return []int{a, b}, nil, b >= 0
		},
		fwd: func(in []ref, _ []int) (ref, bool) {
			return scalarRef(in[0].zip(in[1], func(a, b float64) float64 { return a * b }).sum()), in[0].same(in[1])
		},
		vjp: func(in []ref, _ ref, g ref, _ []int) []*ref {
			s := func(v float64) float64 { return v * g.v[0] }
			return []*ref{rp(in[1].each(s)), rp(in[0].each(s))}
		},
		api: func(x []T, _ []int) T { return ag.Dot(x[0], x[1]) },
		mk:  func(x []T, _ []int) ag.AutoGradFunction { return gradfn.NewDot(x[0], x[1]) },
	})

	// scalars
	okS := func(float64) bool { return true }
	add(scalarOp("AddScalar", true, okS, func(x, s float64) float64 { return x + s }, c1, c1, ag.AddScalar, func(a, b T) ag.AutoGradFunction { return gradfn.NewAddScalar(a, b) }))
	add(scalarOp("SubScalar", true, okS, func(x, s float64) float64 { return x - s }, c1, cm, ag.SubScalar, func(a, b T) ag.AutoGradFunction { return gradfn.NewSubScalar(a, b) }))
	add(scalarOp("ReverseSub", true, okS, func(x, s float64) float64 { return s - x }, cm, c1, ag.ReverseSub, func(a, b T) ag.AutoGradFunction { return gradfn.NewReverseSubScalar(a, b) }))
	add(scalarOp("ProdScalar", true, okS, func(x, s float64) float64 { return x * s }, snd, fst, ag.ProdScalar, func(a, b T) ag.AutoGradFunction { return gradfn.NewProdScalar(a, b) }))
	add(scalarOp("DivScalar", false, func(s float64) bool { return math.Abs(s) > 0.25 }, func(x, s float64) float64 { return x / s }, func(x, s float64) float64 { return 1 / s }, func(x, s float64) float64 { return -x / (s * s) }, ag.DivScalar, func(a, b T) ag.AutoGradFunction { return gradfn.NewDivScalar(a, b) }))
	add(scalarOp("SwishB", false, func(s float64) bool { return math.Abs(s) < 4 }, func(x, s float64) float64 { return x * sigm(s*x) }, func(x, s float64) float64 {
		q := sigm(s * x)
		return q + s*x*q*(1-q)
	}, func(x, s float64) float64 {
		q := sigm(s * x)
		return x * x * q * (1 - q)
	}, ag.SwishB, func(a, b T) ag.AutoGradFunction { return gradfn.NewSwishB(a, b) }))

	// linear algebra
	add(opDef{name: "Mul", exact: true,
		pick: func(p *picker) ([]int, []int, bool) {
			a := p.one(anyRef)
			if a < 0 {
				return nil, nil, false
			}
			b := p.one(func(m ref) bool { return m.r == p.nodes[a].c })
			return []int{a, b}, nil, b >= 0
		},
		fwd: func(in []ref, _ []int) (ref, bool) { return in[0].mul(in[1]), true },
		vjp: func(in []ref, _ ref, g ref, _ []int) []*ref {
			return []*ref{rp(g.mul(in[1].t())), rp(in[0].t().mul(g))}
		},
		api: func(x []T, _ []int) T { return ag.Mul(x[0], x[1]) },
		mk:  func(x []T, _ []int) ag.AutoGradFunction { return gradfn.NewMul(x[0], x[1]) },
	})
	add(opDef{name: "MulT", exact: true,
		pick: func(p *picker) ([]int, []int, bool) {
			a := p.one(anyRef)
			if a < 0 {
				return nil, nil, false
			}
			b := p.one(func(m ref) bool { return m.r == p.nodes[a].r && m.c == 1 })
			return []int{a, b}, nil, b >= 0
		},
		fwd: func(in []ref, _ []int) (ref, bool) { return in[0].t().mul(in[1]), true },
		vjp: func(in []ref, _ ref, g ref, _ []int) []*ref {
			return []*ref{rp(in[1].mul(g.t())), rp(in[0].mul(g))}
		},
		api: func(x []T, _ []int) T { return ag.MulT(x[0], x[1]) },
		mk:  func(x []T, _ []int) ag.AutoGradFunction { return gradfn.NewMulT(x[0], x[1]) },
	})
	add(opDef{name: "Affine", exact: true,
		pick: func(p *picker) ([]int, []int, bool) {
			pairs := p.count(1, 3)
			var in []int
			b := p.one(anyRef)
			if b < 0 {
				return nil, nil, false
			}
			in = append(in, b)
			for i := 0; i < pairs; i++ {
				w := p.one(func(m ref) bool { return m.r == p.nodes[b].r })
				if w < 0 {
					return nil, nil, false
				}
				x := p.one(func(m ref) bool { return m.r == p.nodes[w].c && m.c == p.nodes[b].c })
				if x < 0 {
					if i == 0 {
						return nil, nil, false
					}
					break
				}
				in = append(in, w, x)
			}
			return in, nil, true
		},
		fwd: func(in []ref, _ []int) (ref, bool) {
			out := in[0].each(func(v float64) float64 { return v })
			for i := 1; i < len(in); i += 2 {
				out = out.zip(in[i].mul(in[i+1]), func(a, b float64) float64 { return a + b })
			}
			return out, true
		},
		vjp: func(in []ref, _ ref, g ref, _ []int) []*ref {
			out := []*ref{rp(g)}
			for i := 1; i < len(in); i += 2 {
				out = append(out, rp(g.mul(in[i+1].t())), rp(in[i].t().mul(g)))
			}
			return out
		},
		api: func(x []T, _ []int) T { return ag.Affine(x[0], x[1], x[2], copyTs(x[3:])...) },
		mk: func(x []T, _ []int) ag.AutoGradFunction {
			return gradfn.NewAffine[mat.Tensor](x[0], x[1], x[2], copyTs(x[3:])...)
		},
	})
	add(opDef{name: "BiLinear", exact: true,
		pick: func(p *picker) ([]int, []int, bool) {
			w := p.one(anyRef)
			if w < 0 {
				return nil, nil, false
			}
			a := p.one(func(m ref) bool { return m.c == 1 && m.r == p.nodes[w].r })
			b := p.one(func(m ref) bool { return m.c == 1 && m.r == p.nodes[w].c })
			return []int{w, a, b}, nil, a >= 0 && b >= 0
		},
		fwd: func(in []ref, _ []int) (ref, bool) { return in[1].t().mul(in[0]).mul(in[2]), true },
		vjp: func(in []ref, _ ref, g ref, _ []int) []*ref {
			s := func(v float64) float64 { return v * g.v[0] }
			return []*ref{rp(in[1].mul(in[2].t()).each(s)), rp(in[0].mul(in[2]).each(s)), rp(in[0].t().mul(in[1]).each(s))}
		},
		api: func(x []T, _ []int) T { return ag.BiLinear(x[0], x[1], x[2]) },
	})

	// shapes
	add(opDef{name: "T", exact: true,
		pick: func(p *picker) ([]int, []int, bool) { a := p.one(anyRef); return []int{a}, nil, a >= 0 },
		fwd:  func(in []ref, _ []int) (ref, bool) { return in[0].t(), true },
		vjp:  func(in []ref, _ ref, g ref, _ []int) []*ref { return []*ref{rp(g.t())} },
		api:  func(x []T, _ []int) T { return ag.T(x[0]) },
		mk:   func(x []T, _ []int) ag.AutoGradFunction { return gradfn.NewTranspose(x[0]) },
	})
	reshaped := func(m ref, r, c int) ref { return ref{r, c, append([]float64(nil), m.v...)} }
	add(opDef{name: "Flatten", exact: true,
		pick: func(p *picker) ([]int, []int, bool) { a := p.one(anyRef); return []int{a}, nil, a >= 0 },
		fwd:  func(in []ref, _ []int) (ref, bool) { return reshaped(in[0], 1, in[0].size()), true },
		vjp:  func(in []ref, _ ref, g ref, _ []int) []*ref { return []*ref{rp(reshaped(g, in[0].r, in[0].c))} },
		api:  func(x []T, _ []int) T { return ag.Flatten(x[0]) },
		mk:   func(x []T, _ []int) ag.AutoGradFunction { return gradfn.NewFlatten(x[0]) },
	})
	add(opDef{name: "Reshape", exact: true,
		pick: func(p *picker) ([]int, []int, bool) {
			a := p.one(anyRef)
			if a < 0 {
				return nil, nil, false
			}
			n := p.nodes[a].size()
			var ds []int
			for d := 1; d <= n; d++ {
				if n%d == 0 {
					ds = append(ds, d)
				}
			}
			r := ds[p.num()%len(ds)]
			return []int{a}, []int{r, n / r}, true
		},
		fwd: func(in []ref, k []int) (ref, bool) { return reshaped(in[0], k[0], k[1]), true },
		vjp: func(in []ref, _ ref, g ref, _ []int) []*ref { return []*ref{rp(reshaped(g, in[0].r, in[0].c))} },
		api: func(x []T, k []int) T { return ag.Reshape(x[0], k[0], k[1]) },
		mk:  func(x []T, k []int) ag.AutoGradFunction { return gradfn.NewReshape(x[0], k[0], k[1]) },
	})
	sliceRef := func(m ref, r0, c0, r1, c1 int) ref {
		out := zeros(r1-r0, c1-c0)
		for i := r0; i < r1; i++ {
			for j := c0; j < c1; j++ {
				out.v[(i-r0)*out.c+j-c0] = m.at(i, j)
			}
		}
		return out
	}
	unslice := func(m, g ref, r0, c0 int) ref {
		out := zeros(m.r, m.c)
		for i := 0; i < g.r; i++ {
			for j := 0; j < g.c; j++ {
				out.v[(i+r0)*out.c+j+c0] = g.at(i, j)
			}
		}
		return out
	}
	add(opDef{name: "Slice", exact: true,
		pick: func(p *picker) ([]int, []int, bool) {
			a := p.one(anyRef)
			if a < 0 {
				return nil, nil, false
			}
			m := p.nodes[a]
			r0, c0 := p.num()%m.r, p.num()%m.c
			return []int{a}, []int{r0, c0, r0 + 1 + p.num()%(m.r-r0), c0 + 1 + p.num()%(m.c-c0)}, true
		},
		fwd: func(in []ref, k []int) (ref, bool) { return sliceRef(in[0], k[0], k[1], k[2], k[3]), true },
		vjp: func(in []ref, _ ref, g ref, k []int) []*ref { return []*ref{rp(unslice(in[0], g, k[0], k[1]))} },
		api: func(x []T, k []int) T { return ag.Slice(x[0], k[0], k[1], k[2], k[3]) },
		mk:  func(x []T, k []int) ag.AutoGradFunction { return gradfn.NewSlice(x[0], k[0], k[1], k[2], k[3]) },
	})
	add(opDef{name: "RowView", exact: true,
		pick: func(p *picker) ([]int, []int, bool) {
			a := p.one(anyRef)
			if a < 0 {
				return nil, nil, false
			}
			return []int{a}, []int{p.num() % p.nodes[a].r}, true
		},
		fwd: func(in []ref, k []int) (ref, bool) { return sliceRef(in[0], k[0], 0, k[0]+1, in[0].c), true },
		vjp: func(in []ref, _ ref, g ref, k []int) []*ref { return []*ref{rp(unslice(in[0], g, k[0], 0))} },
		api: func(x []T, k []int) T { return ag.RowView(x[0], k[0]) },
		mk:  func(x []T, k []int) ag.AutoGradFunction { return gradfn.NewRowView(x[0], k[0]) },
	})
	add(opDef{name: "ColView", exact: true,
		pick: func(p *picker) ([]int, []int, bool) {
			a := p.one(anyRef)
			if a < 0 {
				return nil, nil, false
			}
			return []int{a}, []int{p.num() % p.nodes[a].c}, true
		},
		fwd: func(in []ref, k []int) (ref, bool) { return sliceRef(in[0], 0, k[0], in[0].r, k[0]+1), true },
		vjp: func(in []ref, _ ref, g ref, k []int) []*ref { return []*ref{rp(unslice(in[0], g, 0, k[0]))} },
		api: func(x []T, k []int) T { return ag.ColView(x[0], k[0]) },
		mk:  func(x []T, k []int) ag.AutoGradFunction { return gradfn.NewColView(x[0], k[0]) },
	})
	add(opDef{name: "At", exact: true,
		pick: func(p *picker) ([]int, []int, bool) {
			a := p.one(anyRef)
			if a < 0 {
				return nil, nil, false
			}
			m := p.nodes[a]
			if m.vec() && p.num()%2 == 0 {
				return []int{a}, []int{p.num() % m.size()}, true
			}
			return []int{a}, []int{p.num() % m.r, p.num() % m.c}, true
		},
		fwd: func(in []ref, k []int) (ref, bool) {
			if len(k) == 1 {
				return scalarRef(in[0].v[k[0]]), true
			}
			return scalarRef(in[0].at(k[0], k[1])), true
		},
		vjp: func(in []ref, _ ref, g ref, k []int) []*ref {
			out := zeros(in[0].r, in[0].c)
			if len(k) == 1 {
				out.v[k[0]] = g.v[0]
			} else {
				out.v[k[0]*out.c+k[1]] = g.v[0]
			}
			return []*ref{&out}
		},
		api: func(x []T, k []int) T { return ag.At(x[0], k...) },
		mk:  func(x []T, k []int) ag.AutoGradFunction { return gradfn.NewAt(x[0], k...) },
	})
	add(opDef{name: "Concat", exact: true,
		pick: func(p *picker) ([]int, []int, bool) {
			in, ok := listOf(p, p.count(1, 4), func(m ref) bool { return m.vec() && m.size() <= 24 })
			return in, nil, ok
		},
		fwd: func(in []ref, _ []int) (ref, bool) {
			var v []float64
			for _, m := range in {
				v = append(v, m.v...)
			}
			return ref{len(v), 1, v}, true
		},
		vjp: func(in []ref, _ ref, g ref, _ []int) []*ref {
			var out []*ref
			o := 0
			for _, m := range in {
				out = append(out, rp(ref{m.r, m.c, append([]float64(nil), g.v[o:o+m.size()]...)}))
				o += m.size()
			}
			return out
		},
		api: func(x []T, _ []int) T { return ag.Concat(copyTs(x)...) },
		mk:  func(x []T, _ []int) ag.AutoGradFunction { return gradfn.NewConcat(copyTs(x)) },
	})
	add(opDef{name: "Stack", exact: true,
		pick: func(p *picker) ([]int, []int, bool) {
			n := p.count(1, 3)
			a := p.one(ref.vec)
			if a < 0 {
				return nil, nil, false
			}
			in, ok := listOf(p, n, func(m ref) bool { return m.vec() && m.size() == p.nodes[a].size() })
			return append([]int{a}, in...), nil, ok
		},
		fwd: func(in []ref, _ []int) (ref, bool) {
			var v []float64
			for _, m := range in {
				v = append(v, m.v...)
			}
			return ref{len(in), in[0].size(), v}, true
		},
		vjp: func(in []ref, _ ref, g ref, _ []int) []*ref {
			var out []*ref
			for i, m := range in {
				out = append(out, rp(ref{m.r, m.c, append([]float64(nil), g.v[i*g.c:(i+1)*g.c]...)}))
			}
			return out
		},
		api: func(x []T, _ []int) T { return ag.Stack(copyTs(x)...) },
		mk:  func(x []T, _ []int) ag.AutoGradFunction { return gradfn.NewStack(copyTs(x)) },
	})
	add(opDef{name: "AppendRows", exact: true,
		pick: func(p *picker) ([]int, []int, bool) {
			n := p.count(1, 3)
			a := p.one(func(m ref) bool { return m.r <= 8 })
			if a < 0 {
				return nil, nil, false
			}
			// Column vectors are transposed by another operator: see execAppend.
			in, ok := listOf(p, n, func(m ref) bool { return m.r == 1 && m.size() == p.nodes[a].c })
			return append([]int{a}, in...), nil, ok
		},
		fwd: func(in []ref, _ []int) (ref, bool) {
			out := ref{in[0].r + len(in) - 1, in[0].c, append([]float64(nil), in[0].v...)}
			for _, m := range in[1:] {
				out.v = append(out.v, m.v...)
			}
			return out, true
		},
		vjp: func(in []ref, _ ref, g ref, _ []int) []*ref {
			out := []*ref{rp(sliceRef(g, 0, 0, in[0].r, g.c))}
			for i, m := range in[1:] {
				r := in[0].r + i
				out = append(out, rp(ref{m.r, m.c, append([]float64(nil), g.v[r*g.c:(r+1)*g.c]...)}))
			}
			return out
		},
		api: func(x []T, _ []int) T { return ag.AppendRows(x[0], copyTs(x[1:])...) },
		mk:  func(x []T, _ []int) ag.AutoGradFunction { return gradfn.NewAppendRows(x[0], copyTs(x[1:])...) },
	})
	rot := func(v []float64, i int) []float64 { // right rotation by i
		n := len(v)
		out := make([]float64, n)
		for j := range v {
			out[(j+i)%n] = v[j]
		}
		return out
	}
	add(opDef{name: "RotateR", exact: true,
		pick: func(p *picker) ([]int, []int, bool) {
			a := p.one(func(m ref) bool { return m.c == 1 && m.r > 1 })
			if a < 0 {
				return nil, nil, false
			}
			return []int{a}, []int{1 + p.num()%(p.nodes[a].r-1)}, true
		},
		fwd: func(in []ref, k []int) (ref, bool) { return ref{in[0].r, 1, rot(in[0].v, k[0])}, true },
		vjp: func(in []ref, _ ref, g ref, k []int) []*ref {
			return []*ref{rp(ref{g.r, 1, rot(g.v, len(g.v)-k[0])})}
		},
		api: func(x []T, k []int) T { return ag.RotateR(x[0], k[0]) },
		mk:  func(x []T, k []int) ag.AutoGradFunction { return gradfn.NewRotateR(x[0], k[0]) },
	})

	// reductions
	bcast := func(m ref, v float64) *ref { return rp(m.each(func(float64) float64 { return v })) }
	add(opDef{name: "ReduceSum", exact: true,
		pick: func(p *picker) ([]int, []int, bool) { a := p.one(anyRef); return []int{a}, nil, a >= 0 },
		fwd:  func(in []ref, _ []int) (ref, bool) { return scalarRef(in[0].sum()), true },
		vjp:  func(in []ref, _ ref, g ref, _ []int) []*ref { return []*ref{bcast(in[0], g.v[0])} },
		api:  func(x []T, _ []int) T { return ag.ReduceSum(x[0]) },
		mk:   func(x []T, _ []int) ag.AutoGradFunction { return gradfn.NewReduceSum(x[0]) },
	})
	add(opDef{name: "ReduceMean",
		pick: func(p *picker) ([]int, []int, bool) { a := p.one(anyRef); return []int{a}, nil, a >= 0 },
		fwd: func(in []ref, _ []int) (ref, bool) {
			return scalarRef(in[0].sum() / float64(in[0].size())), true
		},
		vjp: func(in []ref, _ ref, g ref, _ []int) []*ref {
			return []*ref{bcast(in[0], g.v[0]/float64(in[0].size()))}
		},
		api: func(x []T, _ []int) T { return ag.ReduceMean(x[0]) },
		mk:  func(x []T, _ []int) ag.AutoGradFunction { return gradfn.NewReduceMean(x[0]) },
	})
	argmax := func(v []float64) (int, bool) {
		b := 0
		for i := range v {
			if v[i] > v[b] {
				b = i
			}
		}
		for i := range v {
			if i != b && v[b]-v[i] < margin {
				return b, false
			}
		}
		return b, true
	}
	add(opDef{name: "ReduceMax", exact: true,
		pick: func(p *picker) ([]int, []int, bool) { a := p.one(ref.vec); return []int{a}, nil, a >= 0 },
		fwd: func(in []ref, _ []int) (ref, bool) {
			i, ok := argmax(in[0].v)
			return scalarRef(in[0].v[i]), ok
		},
		vjp: func(in []ref, _ ref, g ref, _ []int) []*ref {
			out := zeros(in[0].r, in[0].c)
			i, _ := argmax(in[0].v)
			out.v[i] = g.v[0]
			return []*ref{&out}
		},
		api: func(x []T, _ []int) T { return ag.ReduceMax(x[0]) },
		mk:  func(x []T, _ []int) ag.AutoGradFunction { return gradfn.NewReduceMax(x[0]) },
	})
	scalars := func(in []ref) []float64 {
		var v []float64
		for _, m := range in {
			v = append(v, m.v[0])
		}
		return v
	}
	add(opDef{name: "ScalarMax", exact: true,
		pick: func(p *picker) ([]int, []int, bool) {
			in, ok := listOf(p, p.count(2, 3), ref.scalar)
			return in, nil, ok
		},
		fwd: func(in []ref, _ []int) (ref, bool) {
			v := scalars(in)
			i, ok := argmax(v)
			return scalarRef(v[i]), ok
		},
		vjp: func(in []ref, _ ref, g ref, _ []int) []*ref {
			out := make([]*ref, len(in))
			i, _ := argmax(scalars(in))
			out[i] = &g
			return out
		},
		api: func(x []T, _ []int) T { return ag.ScalarMax(copyTs(x)) },
		mk:  func(x []T, _ []int) ag.AutoGradFunction { return gradfn.NewScalarMax(copyTs(x)) },
	})
	add(opDef{name: "MaxPooling", exact: true,
		pick: func(p *picker) ([]int, []int, bool) {
			a := p.one(anyRef)
			if a < 0 {
				return nil, nil, false
			}
			div := func(n int) int {
				var ds []int
				for d := 1; d <= n; d++ {
					if n%d == 0 {
						ds = append(ds, d)
					}
				}
				return ds[p.num()%len(ds)]
			}
			return []int{a}, []int{div(p.nodes[a].r), div(p.nodes[a].c)}, true
		},
		fwd: func(in []ref, k []int) (ref, bool) {
			m := in[0]
			out := zeros(m.r/k[0], m.c/k[1])
			clear := true
			for i := 0; i < out.r; i++ {
				for j := 0; j < out.c; j++ {
					w := sliceRef(m, i*k[0], j*k[1], (i+1)*k[0], (j+1)*k[1])
					b, ok := argmax(w.v)
					clear = clear && ok
					out.v[i*out.c+j] = w.v[b]
				}
			}
			return out, clear
		},
		vjp: func(in []ref, out ref, g ref, k []int) []*ref {
			m := in[0]
			gx := zeros(m.r, m.c)
			for i := 0; i < out.r; i++ {
				for j := 0; j < out.c; j++ {
					w := sliceRef(m, i*k[0], j*k[1], (i+1)*k[0], (j+1)*k[1])
					b, _ := argmax(w.v)
					gx.v[(i*k[0]+b/k[1])*m.c+j*k[1]+b%k[1]] = g.at(i, j)
				}
			}
			return []*ref{&gx}
		},
		api: func(x []T, k []int) T { return ag.MaxPooling(x[0], k[0], k[1]) },
		mk:  func(x []T, k []int) ag.AutoGradFunction { return gradfn.NewMaxPooling(x[0], k[0], k[1]) },
	})
	add(opDef{name: "Softmax",
		pick: func(p *picker) ([]int, []int, bool) { a := p.one(ref.vec); return []int{a}, nil, a >= 0 },
		fwd:  func(in []ref, _ []int) (ref, bool) { return softmaxRef(in[0]), true },
		vjp: func(in []ref, out ref, g ref, _ []int) []*ref {
			s := 0.0
			for i := range g.v {
				s += g.v[i] * out.v[i]
			}
			gx := out.zip(g, func(y, gy float64) float64 { return y * (gy - s) })
			return []*ref{rp(ref{in[0].r, in[0].c, gx.v})}
		},
		api: func(x []T, _ []int) T { return ag.Softmax(x[0]) },
		mk:  func(x []T, _ []int) ag.AutoGradFunction { return gradfn.NewSoftmax(x[0]) },
	})
	add(opDef{name: "LogSoftmax",
		pick: func(p *picker) ([]int, []int, bool) {
			a := p.one(func(m ref) bool { return m.vec() && between(-3, 3)(m) })
			return []int{a}, nil, a >= 0
		},
		fwd: func(in []ref, _ []int) (ref, bool) { return softmaxRef(in[0]).each(math.Log), true },
		vjp: func(in []ref, out ref, g ref, _ []int) []*ref {
			s := g.sum()
			gx := out.zip(g, func(y, gy float64) float64 { return gy - math.Exp(y)*s })
			return []*ref{rp(ref{in[0].r, in[0].c, gx.v})}
		},
		api: func(x []T, _ []int) T { return ag.LogSoftmax(x[0]) },
	})
	add(opDef{name: "LogSumExp",
		pick: func(p *picker) ([]int, []int, bool) {
			if p.num()%2 == 0 {
				a := p.one(func(m ref) bool { return m.vec() && !m.scalar() && between(-6, 6)(m) })
				return []int{a}, nil, a >= 0
			}
			in, ok := listOf(p, p.count(2, 3), func(m ref) bool { return m.scalar() && between(-6, 6)(m) })
			return in, nil, ok
		},
		fwd: func(in []ref, _ []int) (ref, bool) {
			s := 0.0
			var v []float64
			for _, m := range in {
				v = append(v, m.v...)
			}
			_, ok := argmax(v)
			for _, x := range v {
				s += math.Exp(x)
			}
			return scalarRef(math.Log(s)), ok
		},
		vjp: func(in []ref, out ref, g ref, _ []int) []*ref {
			var r []*ref
			for _, m := range in {
				r = append(r, rp(m.each(func(v float64) float64 { return g.v[0] * math.Exp(v-out.v[0]) })))
			}
			return r
		},
		api: func(x []T, _ []int) T { return ag.LogSumExp(copyTs(x)...) },
	})
	add(opDef{name: "SparseMax",
		pick: func(p *picker) ([]int, []int, bool) { a := p.one(ref.vec); return []int{a}, nil, a >= 0 },
		fwd: func(in []ref, _ []int) (ref, bool) {
			out, _, ok := sparsemaxRef(in[0])
			return out, ok
		},
		vjp: func(in []ref, out ref, g ref, _ []int) []*ref {
			s, n := 0.0, 0.0
			for i := range out.v {
				if out.v[i] > 0 {
					s += g.v[i]
					n++
				}
			}
			return []*ref{rp(out.zip(g, func(y, gy float64) float64 {
				if y > 0 {
					return gy - s/n
				}
				return 0
			}))}
		},
		api: func(x []T, _ []int) T { return ag.SparseMax(x[0]) },
		mk:  func(x []T, _ []int) ag.AutoGradFunction { return gradfn.NewSparseMax(x[0]) },
	})
	add(opDef{name: "SparseMaxLoss",
		pick: func(p *picker) ([]int, []int, bool) { a := p.one(ref.vec); return []int{a}, nil, a >= 0 },
		fwd: func(in []ref, _ []int) (ref, bool) {
			y, tau, ok := sparsemaxRef(in[0])
			reg := 0.5
			for i, v := range in[0].v {
				if y.v[i] > 0 {
					reg += 0.5 * (v*v - tau*tau)
				}
			}
			return in[0].each(func(v float64) float64 { return v - reg }), ok
		},
		vjp: func(in []ref, _ ref, g ref, _ []int) []*ref {
			y, _, _ := sparsemaxRef(in[0])
			s := g.sum()
			return []*ref{rp(y.zip(g, func(p, gy float64) float64 { return gy - p*s }))}
		},
		api: func(x []T, _ []int) T { return ag.SparseMaxLoss(x[0]) },
		mk:  func(x []T, _ []int) ag.AutoGradFunction { return gradfn.NewSparseMaxLoss(x[0]) },
	})
	many := func(name string, exact bool, scale func(n int) float64, api func(x []T) T) {
		add(opDef{name: name, exact: exact,
			pick: func(p *picker) ([]int, []int, bool) {
				a := p.one(anyRef)
				if a < 0 {
					return nil, nil, false
				}
				in, ok := listOf(p, p.count(0, 4), func(m ref) bool { return m.same(p.nodes[a].ref) })
				return append([]int{a}, in...), nil, ok
			},
			fwd: func(in []ref, _ []int) (ref, bool) {
				out := zeros(in[0].r, in[0].c)
				for _, m := range in {
					out = out.zip(m, func(a, b float64) float64 { return a + b*scale(len(in)) })
				}
				return out, name != "Sum" || len(in) > 1
			},
			vjp: func(in []ref, _ ref, g ref, _ []int) []*ref {
				var out []*ref
				for range in {
					out = append(out, rp(g.each(func(v float64) float64 { return v * scale(len(in)) })))
				}
				return out
			},
			api: func(x []T, _ []int) T { return api(copyTs(x)) },
		})
	}
	many("Sum", true, func(int) float64 { return 1 }, func(x []T) T { return ag.Sum(x...) })
	many("Mean", false, func(n int) float64 { return 1 / float64(n) }, ag.Mean)
	add(opDef{name: "StopGrad", exact: true,
		pick: func(p *picker) ([]int, []int, bool) { a := p.one(anyRef); return []int{a}, nil, a >= 0 },
		fwd:  func(in []ref, _ []int) (ref, bool) { return in[0], true },
		vjp:  func(in []ref, _ ref, g ref, _ []int) []*ref { return []*ref{nil} },
		api:  func(x []T, _ []int) T { return ag.StopGrad(x[0]) },
	})
}
