package harness

import (
	"fmt"
	"math"
	"strings"

	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/mat/float"

	"spagosim/vsim"
)

// matW is a program over matrices: goroutines that compute with matrices of
// their own and with shared ones.
type matW struct {
	A, B   int // the dimensions
	Types  int // 0: float32, 1: float64, 2: both
	Shared int
	Seed   uint64
	Phases [][][]matOp // phase, goroutine, operation
}

type matOp struct {
	Op   int
	X, Y int // the receiver and the first operand, as places to begin looking at
	Seed uint64
}

func genMat(r *Rng) any {
	w := &matW{A: r.Range(1, 5), B: r.Range(1, 5), Types: r.Intn(3), Shared: r.Intn(4), Seed: r.U64()}
	if r.P(.1) {
		w.A, w.B = r.Range(1, 70), r.Range(1, 70)
	}
	if r.P(.2) {
		w.A = 1
	}
	for p := r.Range(1, 3); p > 0; p-- {
		var ph [][]matOp
		for g := r.Range(1, 4); g > 0; g-- {
			var ops []matOp
			for k := r.Range(1, 12); k > 0; k-- {
				ops = append(ops, matOp{Op: r.Intn(len(matOps)), X: r.Intn(1000), Y: r.Intn(1000), Seed: r.U64()})
			}
			ph = append(ph, ops)
		}
		w.Phases = append(w.Phases, ph)
	}
	return w
}

// matVal is what a matrix should be.
type matVal struct {
	f64        bool
	rows, cols int
	data       []float64
}

func valOf(m mat.Matrix) (v matVal) {
	sh := m.Shape()
	if len(sh) != 2 || m.Dims() != 2 {
		Fail("shape", "a matrix has the shape %v", sh)
	}
	_, v.f64 = m.(*mat.Dense[float64])
	v.rows, v.cols, v.data = sh[0], sh[1], append([]float64(nil), m.Data().F64()...)
	if len(v.data) != m.Size() || v.rows*v.cols != m.Size() {
		Fail("shape", "a matrix of the shape %v has %d elements", sh, len(v.data))
	}
	return
}

func (v matVal) size() int    { return v.rows * v.cols }
func (v matVal) vector() bool { return v.rows == 1 || v.cols == 1 }
func (v matVal) same(o matVal) bool {
	return v.rows == o.rows && v.cols == o.cols
}
func (v matVal) String() string {
	return fmt.Sprintf("%d×%d %s", v.rows, v.cols, short(v.data))
}

// make builds a matrix that shares nothing with any other.
func (v matVal) make() mat.Matrix { return newMat(v.f64, v.rows, v.cols, v.data, false) }

func (v matVal) equal(o matVal) bool {
	return v.f64 == o.f64 && v.same(o) && sameBits(v.data, o.data)
}

func (v matVal) max() (m float64) {
	for _, x := range v.data {
		m = math.Max(m, math.Abs(x))
	}
	return
}

// matOpDef is an operation. The operands are those that fit (what says which);
// out are the matrices it returns, nums the numbers.
type matOpDef struct {
	name    string
	inPlace bool
	sums    bool                   // adds up many terms, in an order of its own
	on      func(x matVal) bool    // receivers it is defined for
	with    func(x, y matVal) bool // operands it is defined for
	many    bool                   // takes several operands
	f       func(x mat.Matrix, y []mat.Matrix, r *Rng) (out []mat.Matrix, nums []float64)
}

var matOps []matOpDef

func one(m mat.Matrix) ([]mat.Matrix, []float64) { return []mat.Matrix{m}, nil }

func init() {
	anyM := func(matVal) bool { return true }
	vector := matVal.vector
	same := func(x, y matVal) bool { return x.same(y) }
	add := func(o matOpDef) {
		if o.on == nil {
			o.on = anyM
		}
		matOps = append(matOps, o)
	}
	unary := func(name string, f func(x mat.Matrix) mat.Matrix) {
		add(matOpDef{name: name, f: func(x mat.Matrix, _ []mat.Matrix, _ *Rng) ([]mat.Matrix, []float64) { return one(f(x)) }})
	}
	onVec := func(name string, sums bool, f func(x mat.Matrix, r *Rng) mat.Matrix) {
		add(matOpDef{name: name, sums: sums, on: vector, f: func(x mat.Matrix, _ []mat.Matrix, r *Rng) ([]mat.Matrix, []float64) {
			return one(f(x, r))
		}})
	}
	binary := func(name string, f func(x, y mat.Matrix) mat.Matrix) {
		add(matOpDef{name: name, with: same, f: func(x mat.Matrix, y []mat.Matrix, _ *Rng) ([]mat.Matrix, []float64) {
			return one(f(x, y[0]))
		}})
	}
	scalar := func(name string, f func(x mat.Matrix, n float64) mat.Matrix) {
		add(matOpDef{name: name, f: func(x mat.Matrix, _ []mat.Matrix, r *Rng) ([]mat.Matrix, []float64) {
			return one(f(x, Pick(r, 0, 1, -1, .5, 2, 3*r.F()-1)))
		}})
	}
	// change is an operation in place; it must return its receiver.
	change := func(name string, with func(x, y matVal) bool, f func(x mat.Matrix, y []mat.Matrix, r *Rng) mat.Matrix) {
		add(matOpDef{name: name, inPlace: true, with: with, f: func(x mat.Matrix, y []mat.Matrix, r *Rng) ([]mat.Matrix, []float64) {
			if z := f(x, y, r); z != x {
				Fail("receiver", "%s did not return its receiver", name)
			}
			return nil, nil
		}})
	}
	dims := func(m mat.Matrix) (int, int) { return m.Shape()[0], m.Shape()[1] }

	unary("ZerosLike", mat.Matrix.ZerosLike)
	unary("OnesLike", mat.Matrix.OnesLike)
	unary("Flatten", mat.Matrix.Flatten)
	unary("T", mat.Matrix.T)
	unary("T", mat.Matrix.T)
	unary("Abs", mat.Matrix.Abs)
	unary("Sqrt", mat.Matrix.Sqrt)
	unary("Log", func(x mat.Matrix) mat.Matrix { return x.Abs().AddScalar(.1).Log() })
	unary("Exp", mat.Matrix.Exp)
	unary("Sigmoid", mat.Matrix.Sigmoid)
	unary("Clone", mat.Matrix.Clone)
	unary("Clone", mat.Matrix.Clone)
	unary("Max", mat.Matrix.Max)
	unary("Min", mat.Matrix.Min)
	add(matOpDef{name: "Sum", sums: true, f: func(x mat.Matrix, _ []mat.Matrix, _ *Rng) ([]mat.Matrix, []float64) { return one(x.Sum()) }})
	scalar("AddScalar", mat.Matrix.AddScalar)
	scalar("SubScalar", mat.Matrix.SubScalar)
	scalar("ProdScalar", mat.Matrix.ProdScalar)
	scalar("Pow", func(x mat.Matrix, n float64) mat.Matrix { return x.Abs().AddScalar(.1).Pow(n) })
	scalar("NewScalar", func(x mat.Matrix, n float64) mat.Matrix { return x.NewScalar(n) })
	binary("Add", mat.Matrix.Add)
	binary("Sub", mat.Matrix.Sub)
	binary("Prod", mat.Matrix.Prod)
	binary("Div", mat.Matrix.Div)
	binary("Maximum", mat.Matrix.Maximum)
	binary("Minimum", mat.Matrix.Minimum)
	for i := 0; i < 3; i++ {
		add(matOpDef{name: "Mul", sums: true, with: func(x, y matVal) bool { return x.cols == y.rows }, f: func(x mat.Matrix, y []mat.Matrix, _ *Rng) ([]mat.Matrix, []float64) {
			return one(x.Mul(y[0]))
		}})
	}
	add(matOpDef{name: "MulT", sums: true, with: func(x, y matVal) bool { return x.rows == y.rows && y.cols == 1 }, f: func(x mat.Matrix, y []mat.Matrix, _ *Rng) ([]mat.Matrix, []float64) {
		return one(x.MulT(y[0]))
	}})
	add(matOpDef{name: "DotUnitary", sums: true, with: same, f: func(x mat.Matrix, y []mat.Matrix, _ *Rng) ([]mat.Matrix, []float64) {
		return one(x.DotUnitary(y[0]))
	}})
	onVec("Softmax", true, func(x mat.Matrix, _ *Rng) mat.Matrix { return x.Softmax() })
	onVec("CumSum", true, func(x mat.Matrix, _ *Rng) mat.Matrix { return x.CumSum() })
	onVec("Norm", true, func(x mat.Matrix, r *Rng) mat.Matrix { return x.Abs().Norm(Pick(r, 1., 2, 3)) })
	onVec("Normalize2", true, func(x mat.Matrix, _ *Rng) mat.Matrix { return x.Normalize2() })
	onVec("ResizeVector", false, func(x mat.Matrix, r *Rng) mat.Matrix { return x.ResizeVector(r.Range(1, x.Size()+2)) })
	onVec("Range", false, func(x mat.Matrix, r *Rng) mat.Matrix {
		from := r.Intn(x.Size())
		return x.Range(from, r.Range(from+1, x.Size()))
	})
	add(matOpDef{name: "SplitV", on: vector, f: func(x mat.Matrix, _ []mat.Matrix, r *Rng) ([]mat.Matrix, []float64) {
		k := r.Range(1, x.Size())
		if k == x.Size() {
			return x.SplitV(k), nil
		}
		return x.SplitV(k, x.Size()-k), nil
	}})
	add(matOpDef{name: "ArgMax", on: vector, f: func(x mat.Matrix, _ []mat.Matrix, _ *Rng) ([]mat.Matrix, []float64) {
		return nil, []float64{float64(x.ArgMax())}
	}})
	add(matOpDef{name: "Augment", on: func(x matVal) bool { return x.rows == x.cols }, f: func(x mat.Matrix, _ []mat.Matrix, _ *Rng) ([]mat.Matrix, []float64) {
		return one(x.Augment())
	}})
	extract := func(name string, f func(x mat.Matrix, r *Rng) mat.Matrix) {
		add(matOpDef{name: name, f: func(x mat.Matrix, _ []mat.Matrix, r *Rng) ([]mat.Matrix, []float64) { return one(f(x, r)) }})
	}
	extract("ExtractRow", func(x mat.Matrix, r *Rng) mat.Matrix { n, _ := dims(x); return x.ExtractRow(r.Intn(n)) })
	extract("ExtractColumn", func(x mat.Matrix, r *Rng) mat.Matrix { _, n := dims(x); return x.ExtractColumn(r.Intn(n)) })
	for i := 0; i < 2; i++ {
		extract("Slice", func(x mat.Matrix, r *Rng) mat.Matrix {
			n, m := dims(x)
			a, b := r.Intn(n), r.Intn(m)
			if r.P(.4) {
				return x.Slice(a, 0, r.Range(a+1, n), m) // whole rows
			}
			return x.Slice(a, b, r.Range(a+1, n), r.Range(b+1, m))
		})
		extract("Reshape", func(x mat.Matrix, r *Rng) mat.Matrix { return x.Reshape(newShape(x, r)) })
	}
	extract("PadRows", func(x mat.Matrix, r *Rng) mat.Matrix { return x.PadRows(r.Intn(3)) })
	extract("PadColumns", func(x mat.Matrix, r *Rng) mat.Matrix { return x.PadColumns(r.Intn(3)) })
	extract("At", func(x mat.Matrix, r *Rng) mat.Matrix {
		n, m := dims(x)
		return x.At(r.Intn(n), r.Intn(m)).(mat.Matrix)
	})
	extract("Apply", func(x mat.Matrix, r *Rng) mat.Matrix { return x.Apply(matFn(r)) })
	extract("ApplyWithAlpha", func(x mat.Matrix, r *Rng) mat.Matrix {
		f := matFn(r)
		return x.ApplyWithAlpha(func(i, j int, v float64, a ...float64) float64 { return f(i, j, v) + a[0]*a[1] }, r.F(), r.F())
	})
	add(matOpDef{name: "Item", on: func(x matVal) bool { return x.size() == 1 }, f: func(x mat.Matrix, _ []mat.Matrix, _ *Rng) ([]mat.Matrix, []float64) {
		return nil, []float64{x.Item().F64()}
	}})
	add(matOpDef{name: "ScalarAt", f: func(x mat.Matrix, _ []mat.Matrix, r *Rng) ([]mat.Matrix, []float64) {
		n, m := dims(x)
		return nil, []float64{x.ScalarAt(r.Intn(n), r.Intn(m)).F64()}
	}})
	add(matOpDef{name: "String", f: func(x mat.Matrix, _ []mat.Matrix, r *Rng) ([]mat.Matrix, []float64) {
		return nil, []float64{float64(HashString(x.String()) >> 12)}
	}})
	add(matOpDef{name: "DoNonZero", f: func(x mat.Matrix, _ []mat.Matrix, r *Rng) (_ []mat.Matrix, nums []float64) {
		x.DoNonZero(func(i, j int, v float64) { nums = append(nums, float64(i), float64(j), v) })
		return
	}})
	rowOf := func(x, y matVal) bool { return y.vector() && y.size() == x.cols }
	for i := 0; i < 2; i++ {
		add(matOpDef{name: "AppendRows", many: true, with: rowOf, f: func(x mat.Matrix, y []mat.Matrix, _ *Rng) ([]mat.Matrix, []float64) {
			return one(x.AppendRows(y...))
		}})
		add(matOpDef{name: "NewConcatV", many: true, with: func(_, y matVal) bool { return y.vector() }, f: func(x mat.Matrix, y []mat.Matrix, _ *Rng) ([]mat.Matrix, []float64) {
			return one(x.NewConcatV(y...))
		}})
		add(matOpDef{name: "NewStack", many: true, with: rowOf, f: func(x mat.Matrix, y []mat.Matrix, _ *Rng) ([]mat.Matrix, []float64) {
			return one(x.NewStack(y...))
		}})
	}

	change("ReshapeInPlace", nil, func(x mat.Matrix, _ []mat.Matrix, r *Rng) mat.Matrix { return x.ReshapeInPlace(newShape(x, r)) })
	change("FlattenInPlace", nil, func(x mat.Matrix, _ []mat.Matrix, _ *Rng) mat.Matrix { return x.FlattenInPlace() })
	for i := 0; i < 2; i++ {
		change("TransposeInPlace", nil, func(x mat.Matrix, _ []mat.Matrix, _ *Rng) mat.Matrix { return x.TransposeInPlace() })
		change("AddInPlace", same, func(x mat.Matrix, y []mat.Matrix, _ *Rng) mat.Matrix { return x.AddInPlace(y[0]) })
		change("SubInPlace", same, func(x mat.Matrix, y []mat.Matrix, _ *Rng) mat.Matrix { return x.SubInPlace(y[0]) })
		change("ProdInPlace", same, func(x mat.Matrix, y []mat.Matrix, _ *Rng) mat.Matrix { return x.ProdInPlace(y[0]) })
		change("ProdScalarInPlace", nil, func(x mat.Matrix, _ []mat.Matrix, r *Rng) mat.Matrix { return x.ProdScalarInPlace(r.F()) })
		change("Copy", same, func(x mat.Matrix, y []mat.Matrix, _ *Rng) mat.Matrix { x.Copy(y[0]); return x })
		change("SetData", nil, func(x mat.Matrix, _ []mat.Matrix, r *Rng) mat.Matrix {
			if data := randData(r, x.Size(), false); r.P(.5) {
				x.SetData(float.Make(data...))
				for i := range data {
					data[i] = 77
				}
			} else {
				var d []float32
				for _, v := range data {
					d = append(d, float32(v))
				}
				x.SetData(float.Make(d...))
				for i := range d {
					d[i] = 77
				}
			}
			for _, v := range vals(x) {
				if v == 77 {
					Fail("changed", "SetData: the matrix changes when the caller changes the slice it was given")
				}
			}
			return x
		})
	}
	change("DivInPlace", same, func(x mat.Matrix, y []mat.Matrix, _ *Rng) mat.Matrix { return x.DivInPlace(y[0]) })
	change("AddScalarInPlace", nil, func(x mat.Matrix, _ []mat.Matrix, r *Rng) mat.Matrix { return x.AddScalarInPlace(r.F()) })
	change("SubScalarInPlace", nil, func(x mat.Matrix, _ []mat.Matrix, r *Rng) mat.Matrix { return x.SubScalarInPlace(r.F()) })
	change("ProdMatrixScalarInPlace", same, func(x mat.Matrix, y []mat.Matrix, r *Rng) mat.Matrix {
		return x.ProdMatrixScalarInPlace(y[0], r.F())
	})
	change("ClipInPlace", nil, func(x mat.Matrix, _ []mat.Matrix, r *Rng) mat.Matrix { return x.ClipInPlace(-r.F(), r.F()) })
	change("SwapInPlace", nil, func(x mat.Matrix, _ []mat.Matrix, r *Rng) mat.Matrix {
		n, _ := dims(x)
		return x.SwapInPlace(r.Intn(n), r.Intn(n))
	})
	change("ApplyInPlace", same, func(x mat.Matrix, y []mat.Matrix, r *Rng) mat.Matrix { return x.ApplyInPlace(matFn(r), y[0]) })
	change("ApplyWithAlphaInPlace", same, func(x mat.Matrix, y []mat.Matrix, r *Rng) mat.Matrix {
		f := matFn(r)
		return x.ApplyWithAlphaInPlace(func(i, j int, v float64, a ...float64) float64 { return f(i, j, v) * a[0] }, y[0], r.F())
	})
	change("Zeros", nil, func(x mat.Matrix, _ []mat.Matrix, _ *Rng) mat.Matrix { x.Zeros(); return x })
	change("SetScalar", nil, func(x mat.Matrix, _ []mat.Matrix, r *Rng) mat.Matrix {
		n, m := dims(x)
		x.SetScalar(float.Interface(r.F()), r.Intn(n), r.Intn(m))
		return x
	})
	change("SetAt", nil, func(x mat.Matrix, _ []mat.Matrix, r *Rng) mat.Matrix {
		n, m := dims(x)
		x.SetAt(mat.Scalar(float32(r.F())), r.Intn(n), r.Intn(m))
		return x
	})
}

// newShape draws another shape of the same size.
func newShape(x mat.Matrix, r *Rng) (rows, cols int) {
	n := x.Size()
	for rows = r.Range(1, n); n%rows != 0; rows-- {
	}
	return rows, n / rows
}

func matFn(r *Rng) func(i, j int, v float64) float64 {
	a, b := r.F(), r.F()
	return func(i, j int, v float64) float64 { return a*v + b*float64(i) - float64(j) }
}

// matEnt is a matrix with what it should be.
type matEnt struct {
	m  mat.Matrix
	v  matVal
	by string
}

func (en *matEnt) check(what string) {
	if now := valOf(en.m); !now.equal(en.v) {
		Fail("changed", "%s: a matrix (%s) that it should not change is %v now, it was %v", what, en.by, now, en.v)
	}
}

// matProc computes with some matrices.
type matProc struct {
	own, shared []*matEnt
}

// fit lists operands: the first from place k on, or several.
func (p *matProc) fit(k int, many bool, ok func(v matVal) bool, r *Rng) (out []*matEnt) {
	all := append(append([]*matEnt(nil), p.own...), p.shared...)
	n := 1
	if many {
		n = r.Range(1, 3)
	}
	for i := range all {
		if en := all[modulo(k+i, len(all))]; ok(en.v) {
			if out = append(out, en); many && r.P(.3) {
				out = append(out, en)
			}
			if len(out) >= n {
				return
			}
		}
	}
	return
}

func (p *matProc) do(op matOp, e *Env) {
	def := &matOps[modulo(op.Op, len(matOps))]
	r := NewRng(op.Seed)
	var x *matEnt
	if def.inPlace {
		if len(p.own) == 0 {
			return
		}
		x = p.own[modulo(op.X, len(p.own))]
	} else if xs := p.fit(op.X, false, func(v matVal) bool { return v.size() <= 1000 && def.on(v) }, r); len(xs) > 0 {
		x = xs[0]
	} else {
		return
	}
	var ys []*matEnt
	if def.with != nil {
		if ys = p.fit(op.Y, def.many, func(v matVal) bool { return v.size() <= 1000 && def.with(x.v, v) }, r); len(ys) == 0 {
			return
		}
	}
	seed := r.U64()
	names := []string{"a " + x.v.String()}
	for _, y := range ys {
		s := y.v.String()
		if y == x {
			s = "itself"
		}
		names = append(names, s)
	}
	what := def.name + " of " + strings.Join(names, " and ")

	// the same on copies
	cx := x.v.make()
	var cys []mat.Matrix
	scale := x.v.max()
	for _, y := range ys {
		cys = append(cys, y.v.make())
		scale *= 1 + y.v.max()
	}
	scale *= float64(x.v.size())
	louts, wantNums := def.f(cx, cys, NewRng(seed))
	var want []matVal
	for _, m := range louts {
		want = append(want, valOf(m))
	}
	wantX := valOf(cx)
	for _, m := range append(append([]mat.Matrix{cx}, cys...), louts...) {
		data := make([]float64, m.Size())
		for i := range data {
			data[i] = -99 - float64(i)
		}
		m.SetData(float.Make(data...))
	}

	var args []mat.Matrix
	for _, y := range ys {
		args = append(args, y.m)
	}
	outs, nums := def.f(x.m, args, NewRng(seed))

	close := func(a, b matVal) bool {
		if a.f64 != b.f64 || !a.same(b) {
			return false
		}
		for i := range a.data {
			p, q := a.data[i], b.data[i]
			if p == q || p != p && q != q {
				continue
			}
			if !def.sums || !(math.Abs(p-q) <= 1e-4*(1+math.Abs(p)+math.Abs(q)+scale)) {
				if def.sums && (math.IsInf(scale, 0) || scale > 1e30 || scale != scale) {
					continue
				}
				return false
			}
		}
		return true
	}
	if len(outs) != len(want) || len(nums) != len(wantNums) {
		Fail("result", "%s: %d results, on copies %d", what, len(outs)+len(nums), len(want)+len(wantNums))
	}
	if !sameBits(nums, wantNums) {
		Fail("result", "%s is %v, on copies %v", what, nums, wantNums)
	}
	var ents []*matEnt
	for i, m := range outs {
		v := valOf(m)
		if !close(v, want[i]) {
			Fail("result", "%s is %v, on copies %v", what, v, want[i])
		}
		if m.RequiresGrad() || m.HasGrad() {
			Fail("result", "%s requires gradients", what)
		}
		if v.size() > 0 {
			ents = append(ents, &matEnt{m, v, def.name})
		}
	}
	if def.inPlace {
		now := valOf(x.m)
		if !close(now, wantX) {
			Fail("result", "%s leaves %v, on copies %v", what, now, wantX)
		}
		x.v = now
		e.Probe("changed in place")
	}
	p.check(what)
	for _, en := range ents {
		if en.v.size() <= 6000 && !wild(en.v.data) && en.v.max() < 1e6 {
			p.own = append(p.own, en)
		}
	}
	if len(p.own) > 14 {
		p.own = p.own[len(p.own)-14:]
	}
	e.Probe("compared")
}

func (p *matProc) check(what string) {
	for _, en := range p.own {
		en.check(what)
	}
	for _, en := range p.shared {
		en.check(what)
	}
}

func execMat(wl any, e *Env) *Violation {
	w := wl.(*matW)
	if w.A < 1 || w.A > 80 || w.B < 1 || w.B > 80 || w.Shared < 0 || w.Shared > 8 || len(w.Phases) > 4 {
		return nil
	}
	return e.Must("matrices", func() {
		r := NewRng(w.Seed)
		fresh := func() *matEnt {
			f64 := w.Types == 1 || w.Types == 2 && r.P(.5)
			sh := Pick(r, [2]int{w.A, w.B}, [2]int{w.A, w.B}, [2]int{w.B, w.A}, [2]int{w.A, w.A}, [2]int{w.A, 1}, [2]int{1, w.B}, [2]int{w.B, 1}, [2]int{1, 1})
			m := newMat(f64, sh[0], sh[1], randData(r, sh[0]*sh[1], false), false)
			return &matEnt{m, valOf(m), "given"}
		}
		var own, shared []*matEnt
		for i := 0; i < w.Shared; i++ {
			shared = append(shared, fresh())
		}
		for _, ph := range w.Phases {
			if len(ph) == 0 || len(ph) > 5 {
				continue
			}
			ps := make([]*matProc, len(ph))
			for i := range ps {
				ps[i] = &matProc{shared: shared, own: []*matEnt{fresh(), fresh()}}
			}
			for i, en := range own {
				p := ps[i%len(ps)] // the results of a phase go on to other goroutines
				p.own = append(p.own, en)
			}
			done := make(chan int)
			for i := range ps {
				work := func() {
					for _, op := range ph[i] {
						ps[i].do(op, e)
					}
				}
				if len(ps) == 1 {
					work()
					break
				}
				vsim.Go(func() {
					work()
					vsim.Send(done)(i)
				})
			}
			if len(ps) > 1 {
				for range ps {
					vsim.Recv(done)
				}
				e.Probe("several goroutines")
			}
			own = nil
			for _, p := range ps {
				p.check("the program")
				own = append(own, p.own...)
			}
			if len(own) > 12 {
				own = own[len(own)-12:]
			}
		}
		CheckLeaks("the operations")
	})
}

func init() {
	register(&Prop{
		ID: "P22", Flavours: map[string]int{"sim": 2, "fine": 1}, Quick: 150000, Thorough: 4000000,
		Gen: genMat, New: func() any { return &matW{} }, Exec: execMat,
		Rule: "a run is a program of 1-3 phases in which 1-4 goroutines each execute 1-12 matrix operations on matrices of their own and on shared ones, under a drawn schedule; distinct by the interleaving of synchronisation operations and statements",
		Real: "mat, mat/float, mat/internal", Stub: "Go scheduler, channels, sync, atomics (simulated)",
		Faults: []string{"adversarial schedules (starvation, priority inversion, preemption at any statement)", "1-8 CPUs"},
	})
}
