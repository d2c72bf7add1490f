package harness

import (
	"fmt"
	"math"
	"reflect"

	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/mat/float"
	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/optimizers"
	"github.com/nlpodyssey/spago/optimizers/adagrad"
	"github.com/nlpodyssey/spago/optimizers/adam"
	"github.com/nlpodyssey/spago/optimizers/lamb"
	"github.com/nlpodyssey/spago/optimizers/radam"
	"github.com/nlpodyssey/spago/optimizers/rmsprop"
	"github.com/nlpodyssey/spago/optimizers/sgd"
)

// newMat makes a matrix with a private copy of the data.
func newMat(f64 bool, r, c int, data []float64, grad bool) mat.Matrix {
	if f64 {
		return mat.NewDense[float64](mat.WithShape(r, c), mat.WithBacking(append([]float64(nil), data...)), mat.WithGrad(grad))
	}
	d := make([]float32, len(data))
	for i, v := range data {
		d[i] = float32(v)
	}
	return mat.NewDense[float32](mat.WithShape(r, c), mat.WithBacking(d), mat.WithGrad(grad))
}

// randData draws values, exactly representable with few bits if exact.
func randData(r *Rng, n int, exact bool) []float64 {
	d := make([]float64, n)
	for i := range d {
		if exact {
			d[i] = float64(r.Range(-8, 8)) / 4
		} else {
			d[i] = float64(float32(r.F()*2 - 1))
		}
	}
	return d
}

func isNilTensor(t any) bool {
	if t == nil {
		return true
	}
	v := reflect.ValueOf(t)
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface, reflect.Map, reflect.Slice:
		return v.IsNil()
	}
	return false
}

// vals copies the values of a tensor.
func vals(t mat.Tensor) []float64 {
	if isNilTensor(t) {
		return nil
	}
	switch d := t.Value().(type) {
	case *mat.Dense[float32]:
		s := float.SliceValueOf[float32](d.Data())
		out := make([]float64, len(s))
		for i, v := range s {
			out[i] = float64(v)
		}
		return out
	case *mat.Dense[float64]:
		return append([]float64(nil), float.SliceValueOf[float64](d.Data())...)
	}
	return append([]float64(nil), t.Data().F64()...)
}

func gradVals(t mat.Tensor) []float64 {
	g := t.Grad()
	if isNilTensor(g) {
		return nil
	}
	return vals(g)
}

func sameBits(a, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if math.Float64bits(a[i]) != math.Float64bits(b[i]) && !(a[i] != a[i] && b[i] != b[i]) {
			return false
		}
	}
	return true
}

// closeTo compares with a tolerance relative to the magnitude of the vector.
func closeTo(got, want []float64, tol float64) (bool, string) {
	if len(got) != len(want) {
		return false, fmt.Sprintf("size %d, expected %d", len(got), len(want))
	}
	scale := 1.0
	for _, v := range want {
		if a := math.Abs(v); a > scale {
			scale = a
		}
	}
	for i := range got {
		d := math.Abs(got[i] - want[i])
		if !(d <= tol*scale) {
			return false, fmt.Sprintf("element %d is %v, expected %v", i, got[i], want[i])
		}
	}
	return true, ""
}

func short(v []float64) string {
	if len(v) > 6 {
		return fmt.Sprintf("%v...(%d)", v[:6], len(v))
	}
	return fmt.Sprint(v)
}

var strategyNames = []string{"sgd", "sgdmom", "nesterov", "adam", "adamw", "radam", "adagrad", "rmsprop", "lamb"}

// newStrategy returns a built-in strategy and its per-step increment.
func newStrategy(name string, f64 bool) (optimizers.OptimizationStrategy, func()) {
	none := func() {}
	gen := func(a, b optimizers.OptimizationStrategy) optimizers.OptimizationStrategy {
		if f64 {
			return a
		}
		return b
	}
	switch name {
	case "sgd":
		c := sgd.NewConfig(0.125, 0, false)
		return gen(sgd.New[float64](c), sgd.New[float32](c)), none
	case "sgdmom":
		c := sgd.NewConfig(0.125, 0.5, false)
		return gen(sgd.New[float64](c), sgd.New[float32](c)), none
	case "nesterov":
		c := sgd.NewConfig(0.125, 0.5, true)
		return gen(sgd.New[float64](c), sgd.New[float32](c)), none
	case "adam":
		o := adam.New(adam.NewConfig(0.01, 0.9, 0.999, 1e-8))
		return o, o.IncExample
	case "adamw":
		o := adam.New(adam.NewAdamWConfig(0.01, 0.9, 0.999, 1e-8, 0.01))
		return o, o.IncExample
	case "radam":
		c := radam.NewDefaultConfig()
		a, b := radam.New[float64](c), radam.New[float32](c)
		if f64 {
			return a, a.IncBatch
		}
		return b, b.IncBatch
	case "adagrad":
		c := adagrad.NewDefaultConfig()
		return gen(adagrad.New[float64](c), adagrad.New[float32](c)), none
	case "rmsprop":
		c := rmsprop.NewDefaultConfig()
		return gen(rmsprop.New[float64](c), rmsprop.New[float32](c)), none
	case "lamb":
		c := lamb.NewDefaultConfig()
		a, b := lamb.New[float64](c), lamb.New[float32](c)
		if f64 {
			return a, a.IncExample
		}
		return b, b.IncExample
	}
	panic("unknown strategy " + name)
}

// stateVals lists every matrix of a strategy's state for one parameter.
func stateVals(p *nn.Param) [][]float64 {
	if p.State == nil {
		return nil
	}
	v := reflect.ValueOf(p.State)
	for v.Kind() == reflect.Ptr {
		v = v.Elem()
	}
	if v.Kind() != reflect.Struct {
		return nil
	}
	var out [][]float64
	for i := 0; i < v.NumField(); i++ {
		if !v.Field(i).CanInterface() {
			continue
		}
		if m, ok := v.Field(i).Interface().(mat.Matrix); ok && !isNilTensor(m) {
			out = append(out, vals(m))
		} else {
			out = append(out, nil)
		}
	}
	return out
}

func sameState(a, b [][]float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !sameBits(a[i], b[i]) {
			return false
		}
	}
	return true
}

// nTimes returns n times v.
func nTimes(n int, v float64) []float64 {
	x := make([]float64, n)
	for i := range x {
		x[i] = v
	}
	return x
}
