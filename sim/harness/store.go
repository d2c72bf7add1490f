package harness

import (
	"encoding/gob"
	"fmt"
	"io"
	"math"
	"reflect"

	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/nn/attention/multiheadattention"
	"github.com/nlpodyssey/spago/nn/birnn"
	"github.com/nlpodyssey/spago/nn/embedding"
	"github.com/nlpodyssey/spago/nn/gmlp"
	"github.com/nlpodyssey/spago/nn/linear"
	"github.com/nlpodyssey/spago/nn/mlpmixer"
	"github.com/nlpodyssey/spago/nn/normalization/batchnorm"
	"github.com/nlpodyssey/spago/nn/recurrent/lstm"
)

func init() { gob.Register(&layList{}) }

// artSpec describes something to dump.
type artSpec struct {
	Kind    int
	F64     bool
	Layers  []layerSpec
	Params  []int // sizes
	Strat   string
	Steps   int
	Special bool // not-a-number, infinities, negative zero
	Frozen  int
	Empty   bool // with matrices without elements
	Seed    uint64
}

func genArt(r *Rng) artSpec {
	s := artSpec{Kind: Pick(r, 0, 0, 0, 1, 2, 3, 4), F64: r.P(.5), Steps: Pick(r, 0, 1, 2), Special: r.P(.15), Frozen: Pick(r, 0, 0, r.Intn(256)), Empty: r.P(.1), Seed: r.U64()}
	for k := r.Range(1, 3); k > 0; k-- {
		s.Layers = append(s.Layers, genLayer(r, layerKinds))
	}
	for k := r.Size(5); k > 0; k-- {
		s.Params = append(s.Params, Pick(r, r.Size(8), r.Size(8), r.Size(60), r.Size(2000)))
	}
	s.Strat = Pick(r, strategyNames...)
	return s
}

// artModel is a model as users write it.
type artModel struct {
	nn.Module
	Name   string
	Layers []nn.Model
	Params []*nn.Param
	Table  *embedding.Model
	Named  map[string]*nn.Param
	Count  int
}

func init() { gob.Register(&artModel{}) }

// artifact is an object with its typed dump and load functions.
type artifact struct {
	obj      any
	dump     func(w io.Writer) error
	dumpFile func(name string) error
	load     func(r io.Reader) (any, error)
	loadFile func(name string) (any, error)
	decode   func(d *gob.Decoder) (any, error)
}

func mkArt[T any](obj T) *artifact {
	return &artifact{
		obj:      obj,
		dump:     func(w io.Writer) error { return nn.Dump(obj, w) },
		dumpFile: func(name string) error { return nn.DumpToFile(obj, name) },
		load:     func(r io.Reader) (any, error) { return nn.Load[T](r) },
		loadFile: func(name string) (any, error) { return nn.LoadFromFile[T](name) },
		decode: func(d *gob.Decoder) (any, error) {
			var v T
			err := d.Decode(&v)
			return v, err
		},
	}
}

// train takes optimization steps with made-up gradients.
func trainArt(ps []*nn.Param, strat string, f64 bool, steps int, seed uint64) {
	st, inc := newStrategy(strat, f64)
	for k := 0; k < steps && k < 4; k++ {
		for i, p := range ps {
			if i%5 == 4 && k == 0 || !p.RequiresGrad() {
				continue
			}
			sh := p.Shape()
			g := randData(NewRng(Mix(seed, uint64(i*7+k))), p.Size(), false)
			p.AccGrad(newMat(f64, sh[0], sh[1], g, false))
			if err := st.OptimizeParams(p); err != nil {
				Fail("error", "OptimizeParams returned %v", err)
			}
		}
		inc()
	}
}

func (s artSpec) build() *artifact {
	r := NewRng(s.Seed)
	data := func(n int) []float64 {
		d := randData(r, n, false)
		if s.Special {
			for i := range d {
				if r.P(.3) {
					d[i] = Pick(r, math.NaN(), math.Inf(1), math.Inf(-1), math.Copysign(0, -1), 0, 1e-45, 1e30)
				}
			}
		}
		return d
	}
	params := func() []*nn.Param {
		var ps []*nn.Param
		for i, n := range s.Params {
			if i >= 12 {
				break
			}
			n = 1 + modulo(n-1, 4000)
			rows := n
			if n%2 == 0 && r.P(.5) {
				rows = n / 2
			}
			p := nn.NewParam(newMat(s.F64, rows, n/rows, data(n), false))
			if s.Frozen>>i&1 == 1 {
				p.WithGrad(false)
			}
			ps = append(ps, p)
		}
		return ps
	}
	strat := s.Strat
	ok := false
	for _, n := range strategyNames {
		ok = ok || n == strat
	}
	if !ok {
		strat = "adam"
	}
	switch modulo(s.Kind, 5) {
	case 1: // one built-in layer, with its own type
		l := layerSpec{Kind: "linear"}
		if len(s.Layers) > 0 {
			l = s.Layers[0]
		}
		m := l.build(s.F64).model
		trainArt(allParams(m), strat, s.F64, s.Steps, s.Seed)
		switch m := m.(type) {
		case *linear.Model:
			return mkArt(m)
		case *lstm.Model:
			return mkArt(m)
		case *birnn.Model:
			return mkArt(m)
		case *embedding.Model:
			return mkArt(m)
		case *multiheadattention.Model:
			return mkArt(m)
		case *gmlp.Model:
			return mkArt(m)
		case *mlpmixer.MixerBlock:
			return mkArt(m)
		case *batchnorm.Model:
			return mkArt(m)
		case *layList:
			return mkArt(m)
		default:
			return mkArt(&layHolder{M: m})
		}
	case 2: // matrices
		ps := params()
		if len(ps) == 1 {
			if s.F64 {
				return mkArt(ps[0].Matrix.(*mat.Dense[float64]))
			}
			return mkArt(ps[0].Matrix.(*mat.Dense[float32]))
		}
		var ms []mat.Matrix
		for _, p := range ps {
			ms = append(ms, p.Matrix)
		}
		if s.Empty {
			ms = append(ms, newMat(s.F64, 0, 3, nil, true), newMat(s.F64, 2, 0, nil, false))
		}
		return mkArt(ms)
	case 3: // parameters
		ps := params()
		trainArt(ps, strat, s.F64, s.Steps, s.Seed)
		if len(ps) == 1 {
			return mkArt(ps[0])
		}
		return mkArt(ps)
	case 4: // an embedding table
		n := 1 + len(s.Params)
		var m *embedding.Model
		if s.F64 {
			m = embedding.New[float64](n, 3)
		} else {
			m = embedding.New[float32](n, 3)
		}
		for _, p := range m.Weights {
			p.ReplaceValue(newMat(s.F64, 3, 1, data(3), true))
		}
		trainArt(m.Weights, strat, s.F64, s.Steps, s.Seed)
		return mkArt(m)
	}
	m := &artModel{Name: "model", Params: params(), Named: map[string]*nn.Param{}, Count: len(s.Layers)}
	for i, l := range s.Layers {
		if i >= 4 {
			break
		}
		m.Layers = append(m.Layers, l.build(s.F64).model)
	}
	if s.Seed%3 == 0 {
		m.Table = embedding.New[float32](3, 2)
	}
	if s.Seed%5 == 0 {
		m.Named["only"] = nn.NewParam(newMat(s.F64, 2, 2, data(4), false))
	}
	if s.Empty {
		m.Named["empty"] = nn.NewParam(newMat(s.F64, 0, 1, nil, false))
	}
	var ps []*nn.Param
	for _, l := range m.Layers {
		ps = append(ps, allParams(l)...)
	}
	trainArt(append(ps, m.Params...), strat, s.F64, s.Steps, s.Seed)
	return mkArt(m)
}

// layHolder holds a layer of any type.
type layHolder struct {
	nn.Module
	M nn.Model
}

// diffObj compares two objects deeply; it returns "" or the first difference.
func diffObj(a, b any) string {
	return diffVal("", reflect.ValueOf(a), reflect.ValueOf(b), 0)
}

func diffVal(path string, a, b reflect.Value, depth int) string {
	if depth > 60 {
		return path + ": too deep"
	}
	if !a.IsValid() || !b.IsValid() {
		if a.IsValid() != b.IsValid() {
			return path + ": one is missing"
		}
		return ""
	}
	if a.Type() != b.Type() {
		return fmt.Sprintf("%s: type %v, expected %v", path, a.Type(), b.Type())
	}
	if a.CanInterface() {
		var x, y mat.Tensor
		switch m := a.Interface().(type) {
		case *mat.Dense[float32]:
			x, y = m, b.Interface().(mat.Tensor)
		case *mat.Dense[float64]:
			x, y = m, b.Interface().(mat.Tensor)
		}
		if x != nil {
			if isNilTensor(x) || isNilTensor(y) {
				if isNilTensor(x) != isNilTensor(y) {
					return path + ": one matrix is missing"
				}
				return ""
			}
			sx, sy := x.Shape(), y.Shape()
			if fmt.Sprint(sx) != fmt.Sprint(sy) {
				return fmt.Sprintf("%s: shape %v, expected %v", path, sx, sy)
			}
			if x.RequiresGrad() != y.RequiresGrad() {
				return fmt.Sprintf("%s: requires gradients %v, expected %v", path, x.RequiresGrad(), y.RequiresGrad())
			}
			if vx, vy := vals(x), vals(y); !sameBits(vx, vy) {
				return fmt.Sprintf("%s: values %s, expected %s", path, short(vx), short(vy))
			}
			return ""
		}
	}
	switch a.Kind() {
	case reflect.Ptr, reflect.Interface:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() != b.IsNil() {
				return path + ": one is nil"
			}
			return ""
		}
		return diffVal(path, a.Elem(), b.Elem(), depth+1)
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if f := a.Type().Field(i); f.PkgPath == "" {
				if d := diffVal(path+"."+f.Name, a.Field(i), b.Field(i), depth+1); d != "" {
					return d
				}
			}
		}
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: length %d, expected %d", path, a.Len(), b.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if d := diffVal(fmt.Sprintf("%s[%d]", path, i), a.Index(i), b.Index(i), depth+1); d != "" {
				return d
			}
		}
	case reflect.Map:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: %d entries, expected %d", path, a.Len(), b.Len())
		}
		for _, k := range a.MapKeys() {
			if d := diffVal(fmt.Sprintf("%s[%v]", path, k), a.MapIndex(k), b.MapIndex(k), depth+1); d != "" {
				return d
			}
		}
	case reflect.Float32, reflect.Float64:
		if math.Float64bits(a.Float()) != math.Float64bits(b.Float()) {
			return fmt.Sprintf("%s: %v, expected %v", path, a.Float(), b.Float())
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if a.Int() != b.Int() {
			return fmt.Sprintf("%s: %v, expected %v", path, a.Int(), b.Int())
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if a.Uint() != b.Uint() {
			return fmt.Sprintf("%s: %v, expected %v", path, a.Uint(), b.Uint())
		}
	case reflect.String:
		if a.String() != b.String() {
			return fmt.Sprintf("%s: %q, expected %q", path, a.String(), b.String())
		}
	case reflect.Bool:
		if a.Bool() != b.Bool() {
			return fmt.Sprintf("%s: %v, expected %v", path, a.Bool(), b.Bool())
		}
	}
	return ""
}
