package harness

import (
	"fmt"
	"math"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/mat/float"
	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/nn/activation"
	"github.com/nlpodyssey/spago/nn/attention/multiheadattention"
	"github.com/nlpodyssey/spago/nn/attention/selfattention"
	"github.com/nlpodyssey/spago/nn/birnn"
	"github.com/nlpodyssey/spago/nn/convolution/conv1x1"
	"github.com/nlpodyssey/spago/nn/convolution/convolution1d"
	"github.com/nlpodyssey/spago/nn/convolution/convolution2d"
	"github.com/nlpodyssey/spago/nn/crf"
	"github.com/nlpodyssey/spago/nn/dropout"
	"github.com/nlpodyssey/spago/nn/embedding"
	"github.com/nlpodyssey/spago/nn/flatten"
	"github.com/nlpodyssey/spago/nn/gmlp"
	"github.com/nlpodyssey/spago/nn/gnn/slstm"
	"github.com/nlpodyssey/spago/nn/highway"
	"github.com/nlpodyssey/spago/nn/linear"
	"github.com/nlpodyssey/spago/nn/mlpmixer"
	"github.com/nlpodyssey/spago/nn/normalization/adanorm"
	"github.com/nlpodyssey/spago/nn/normalization/batchnorm"
	"github.com/nlpodyssey/spago/nn/normalization/fixnorm"
	"github.com/nlpodyssey/spago/nn/normalization/layernorm"
	"github.com/nlpodyssey/spago/nn/normalization/layernormsimple"
	"github.com/nlpodyssey/spago/nn/normalization/rmsnorm"
	"github.com/nlpodyssey/spago/nn/normalization/scalenorm"
	"github.com/nlpodyssey/spago/nn/pooling"
	"github.com/nlpodyssey/spago/nn/recurrent/gru"
	"github.com/nlpodyssey/spago/nn/recurrent/lstm"
	"github.com/nlpodyssey/spago/nn/recurrent/srn"
	"github.com/nlpodyssey/spago/nn/sgu"
	"github.com/nlpodyssey/spago/nn/sqrdist"
)

// layerSpec selects and configures one of the built-in layers.
type layerSpec struct {
	Kind string
	In   int
	Hid  int
	N    int
	Opt  int
	Seed uint64
}

var layerKinds = []string{
	"linear", "activation", "highway", "srn", "gru", "lstm", "bilstm", "bigru", "bibilstm", "birnn",
	"selfattention", "multihead", "conv1x1", "conv1d", "conv2d", "crf", "dropout", "embedding",
	"flatten", "gmlp", "mlpmixer", "layernorm", "layernormsimple", "rmsnorm", "scalenorm", "fixnorm",
	"adanorm", "batchnorm", "batchnormT", "maxpool", "sgu", "sqrdist", "slstm", "modulelist",
}

// seqKinds map any number of vectors to as many vectors.
var seqKinds = []string{
	"linear", "linear", "activation", "highway", "srn", "gru", "lstm", "bilstm", "bigru", "birnn", "bibilstm",
	"selfattention", "multihead", "gmlp", "layernorm", "layernormsimple", "rmsnorm", "scalenorm", "fixnorm",
	"adanorm", "batchnorm", "slstm", "modulelist",
}

func genLayer(r *Rng, kinds []string) layerSpec {
	return layerSpec{Kind: Pick(r, kinds...), In: r.Size(6), Hid: r.Size(5), N: r.Size(5), Opt: r.Intn(1 << 16), Seed: r.U64()}
}

// layer is a built layer.
type layer struct {
	name       string
	model      nn.Model
	rows, cols int // shape of an input
	n          int // number of inputs
	out        int // size of an output vector (sequence layers)
	run        func(xs []T) []T
	loose      bool // approximates a function (GELU with a coarse tolerance)
	stateful   bool // forward changes the model
	exactIn    bool // inputs are row numbers
	load       func(m nn.Model) *layer
}

func (s layerSpec) build(f64 bool) *layer {
	if f64 {
		return buildLayer[float64](s, nil)
	}
	return buildLayer[float32](s, nil)
}

// rebuild returns the layer around a loaded model.
func (s layerSpec) rebuild(f64 bool, m nn.Model) *layer {
	if f64 {
		return buildLayer[float64](s, m)
	}
	return buildLayer[float32](s, m)
}

var actParams = map[activation.Activation]int{
	activation.CELU: 1, activation.ELU: 1, activation.SwishB: 1, activation.LeakyReLU: 1, activation.SELU: 2,
	activation.SoftPlus: 2, activation.SoftShrink: 1, activation.Threshold: 2,
}

// smoothActs are usable inside other layers, without parameters.
var smoothActs = []activation.Activation{
	activation.Identity, activation.Tanh, activation.Sigmoid, activation.HardSigmoid, activation.HardTanh,
	activation.Softsign, activation.ReLU, activation.GELU, activation.PositiveELU, activation.Swish, activation.SiLU, activation.Mish,
}

func buildLayer[F float.DType](s layerSpec, loaded nn.Model) *layer {
	in, hid, n, opt := 1+modulo(s.In-1, 12), 1+modulo(s.Hid-1, 12), 1+modulo(s.N-1, 12), modulo(s.Opt, 1<<16)
	_, f64 := any(F(0)).(float64)
	r := NewRng(s.Seed)
	l := &layer{name: s.Kind, rows: in, cols: 1, n: n, out: hid}
	use := func(m nn.Model) {
		if loaded != nil {
			m = loaded
		} else {
			fillModel(m, r)
		}
		l.model = m
		if sm, ok := m.(nn.StandardModel); ok {
			l.run = func(xs []T) []T { return sm.Forward(xs...) }
		}
	}
	scalar := func(v float64) *nn.Param { return nn.NewParam(mat.Scalar(F(v))) }
	act := func(k int) activation.Activation { return smoothActs[modulo(opt>>k, len(smoothActs))] }
	same := func() { l.out = in }
	switch s.Kind {
	case "activation":
		same()
		a := activation.Activation(modulo(opt, 24))
		var ps []*nn.Param
		for i := 0; i < actParams[a]; i++ {
			ps = append(ps, scalar(.5+float64(float32(r.F()))))
		}
		if loaded == nil {
			loaded = activation.New(a, ps...)
		}
		use(nil)
		l.loose = a == activation.GELU
	case "highway":
		same()
		use(highway.New[F](in, act(0)))
		l.loose = true
	case "srn":
		use(srn.New[F](in, hid))
	case "gru":
		use(gru.New[F](in, hid))
	case "lstm":
		if opt&1 == 1 {
			same()
			use(lstm.New[F](in, in).WithRefinedGates(true))
			break
		}
		use(lstm.New[F](in, hid))
	case "bilstm", "bigru":
		mt := birnn.MergeType(opt & 3)
		if mt == birnn.Concat {
			l.out = 2 * hid
		}
		if s.Kind == "bilstm" {
			use(birnn.NewBiLSTM[F](in, hid, mt))
		} else {
			use(birnn.NewBiGRU[F](in, hid, mt))
		}
	case "birnn": // different directions, nested
		mt := birnn.MergeType(opt & 3)
		if mt == birnn.Concat {
			l.out = 2 * hid
		}
		if opt&4 != 0 {
			use(birnn.New(srn.New[F](in, hid), birnn.NewBiGRU[F](in, hid, birnn.Sum), mt))
		} else {
			use(birnn.New(gru.New[F](in, hid), srn.New[F](in, hid), mt))
		}
	case "bibilstm":
		mt := birnn.MergeType(opt & 3)
		if mt == birnn.Concat {
			l.out = 2 * hid
		}
		ms := birnn.NewBiBiLSTM[F](in, hid, mt)
		use(&layList{Layers: nn.ModuleList[nn.StandardModel]{ms[0], ms[1]}})
	case "selfattention":
		c := selfattention.Config{InputSize: in, QuerySize: 1 + opt>>3&3, ValueSize: hid, ScaleFactor: .5, UseCausalMask: opt&1 == 1, IsCrossAttention: opt&2 == 2}
		c.KeySize = c.QuerySize
		use(selfattention.New[F](c))
		m := l.model.(*selfattention.Model)
		l.run = func(xs []T) []T {
			k := 0
			if opt&4 == 4 && len(xs) > 2 {
				k = len(xs) - 2 // the rest is processed with the cache
			}
			y, w, cache := m.Forward(selfattention.Cache{}, xs[:len(xs)-k], xs[:len(xs)-k])
			if k > 0 {
				y2, w2, _ := m.Forward(cache, xs[len(xs)-k:], xs[len(xs)-k:])
				y, w = append(y, y2...), append(w, w2...)
			}
			if opt&64 == 0 {
				return y
			}
			for i := range y {
				y[i] = ag.AddScalar(y[i], ag.ReduceMean(w[i]))
			}
			return y
		}
	case "multihead":
		heads := 1 + opt>>3&3
		for in%heads != 0 {
			heads--
		}
		same()
		use(multiheadattention.New[F](in, heads, opt&1 == 1, opt&2 == 2))
		m := l.model.(*multiheadattention.Model)
		l.run = func(xs []T) []T {
			if opt&4 == 4 && len(xs) > 3 {
				h := len(xs) - 2
				y, _, c := m.Forward(nil, xs[:h], xs[:h])
				y2, _, _ := m.Forward(c, xs[h:], xs[h:])
				return append(y, y2...)
			}
			y, _, _ := m.Forward(nil, xs, xs)
			return y
		}
	case "conv1x1":
		same()
		use(conv1x1.New[F](conv1x1.Config{InputChannels: n, OutputChannels: hid}))
	case "conv1d", "conv2d":
		n = 1 + (n-1)%3
		l.n = n
		kx, ky := 1+opt&1, 1+opt>>1&3
		xs, ys := 1+opt>>3&1, 1+opt>>4&1
		l.rows, l.cols = kx, ky+ys*(in%4)
		if s.Kind == "conv2d" {
			l.rows = kx + xs*(hid%3)
		}
		outs := 1 + (hid-1)%3
		depth := opt>>5&1 == 1
		var mask []int
		if depth {
			outs = n
		} else if opt>>6&3 == 0 {
			mask = make([]int, n)
			for i := range mask {
				mask[i] = (opt >> (8 + i)) & 1
			}
			mask[opt>>8%n] = 1
		}
		if s.Kind == "conv1d" {
			use(convolution1d.New[F](convolution1d.Config{KernelSizeX: kx, KernelSizeY: ky, YStride: ys, InputChannels: n, OutputChannels: outs, Mask: mask, DepthWise: depth, Activation: act(4)}))
		} else {
			use(convolution2d.New[F](convolution2d.Config{KernelSizeX: kx, KernelSizeY: ky, XStride: xs, YStride: ys, InputChannels: n, OutputChannels: outs, Mask: mask, DepthWise: depth, Activation: act(4)}))
		}
		l.loose = true
	case "crf":
		use(crf.New[F](in))
		m := l.model.(*crf.Model)
		l.run = func(xs []T) []T {
			target := make([]int, len(xs))
			for i := range target {
				target[i] = modulo(opt>>i, in)
			}
			y := m.NegativeLogLoss(xs, target)
			best := make([]float64, len(xs))
			for i, k := range m.Decode(xs) {
				best[i] = float64(k)
			}
			return []T{y, newMat(f64, len(best), 1, best, false)}
		}
	case "dropout":
		same()
		use(dropout.New(float64(opt & 1)))
	case "dropoutHalf":
		same()
		use(dropout.New(.5))
	case "embedding":
		use(embedding.New[F](in+2, hid))
		m := l.model.(*embedding.Model)
		l.rows, l.exactIn = 1, true
		l.run = func(xs []T) []T {
			idx := make([]int, len(xs))
			for i, x := range xs {
				idx[i] = modulo(int(vals(x)[0]), m.Size)
			}
			ys := m.MustEncode(idx)
			out := make([]T, len(ys))
			for i := range ys {
				out[i] = ag.ProdScalar(ys[i], xs[i])
			}
			return out
		}
	case "flatten":
		l.cols = hid
		use(flatten.New())
	case "gmlp":
		same()
		seq := n + opt>>4&1
		use(gmlp.New[F](gmlp.Config{Dim: in, Depth: 1 + opt>>3&1, SeqLen: seq, FFMult: 2, Activation: act(5)}))
		l.loose = true
		m := l.model.(*gmlp.Model)
		l.run = func(xs []T) []T {
			ys := m.Forward(xs...)
			for _, y := range ys[len(xs):] {
				_ = y.Value() // whoever starts a computation waits for it before changing the parameters
			}
			return ys[:len(xs)]
		}
	case "mlpmixer":
		same()
		use(mlpmixer.New[F](mlpmixer.Config{InputSize: in, HiddenSizeTokenMixer: hid, HiddenSizeChannelMixer: 1 + opt&3, Channels: n, ActFunctionTokenMixer: act(3), ActFunctionChannelMixer: act(7), Eps: 1e-3}))
		l.loose = true
	case "layernorm":
		same()
		use(layernorm.New[F](in, 1e-3))
	case "layernormsimple":
		same()
		use(layernormsimple.New())
	case "rmsnorm":
		same()
		use(rmsnorm.New[F](in))
	case "scalenorm":
		same()
		use(scalenorm.New[F](in))
	case "fixnorm":
		same()
		use(fixnorm.New())
	case "adanorm":
		same()
		use(adanorm.New[F](.7))
	case "batchnorm", "batchnormT":
		same()
		use(batchnorm.NewWithMomentum[F](in, .75))
		m := l.model.(*batchnorm.Model)
		if s.Kind == "batchnormT" {
			l.stateful = true
			l.run = func(xs []T) []T { return m.ForwardT(xs...) }
		}
	case "maxpool":
		pr, pc := 1+opt&1, 1+opt>>1&1
		l.rows, l.cols = pr*(1+in%3), pc*(1+hid%3)
		use(pooling.NewMax(pr, pc))
	case "sgu":
		l.rows = 2 * in
		same()
		use(sgu.New[F](sgu.Config{Dim: l.rows, DimSeq: n, InitEps: .1, Activation: act(2)}))
		l.loose = true
	case "sqrdist":
		l.out = 1
		use(sqrdist.New[F](in, hid))
	case "slstm":
		same()
		use(slstm.New[F](slstm.Config{InputSize: in, OutputSize: in, Steps: 1 + opt&3}))
	case "modulelist":
		use(&layList{Layers: nn.ModuleList[nn.StandardModel]{linear.New[F](in, hid), activation.New(act(2)), linear.New[F](hid, hid).WithBiasGrad(opt&1 == 0), layernorm.New[F](hid, 1e-3)}})
		l.loose = true
	default:
		l.name = "linear"
		use(linear.New[F](in, hid))
	}
	return l
}

// layList is a sequence of layers, as users write it.
type layList struct {
	nn.Module
	Layers nn.ModuleList[nn.StandardModel]
}

func (m *layList) Forward(xs ...mat.Tensor) []mat.Tensor { return m.Layers.Forward(xs...) }

// fillModel gives every parameter and statistic of a model a value.
func fillModel(m nn.Model, r *Rng) {
	fill := func(t mat.Tensor, lo, hi float64) {
		v := t.Value().(mat.Matrix)
		d := make([]float64, v.Size())
		for i := range d {
			d[i] = float64(float32(lo + (hi-lo)*r.F()))
		}
		v.SetData(float.Make(d...))
	}
	fillParam := func(p *nn.Param) { fill(p.Matrix, -.8, .8) }
	if e, ok := m.(*embedding.Model); ok {
		for _, p := range e.Weights {
			fillParam(p)
		}
		return
	}
	nn.ForEachParam(m, fillParam)
	nn.Apply(m, func(s nn.Model) {
		if b, ok := s.(*batchnorm.Model); ok {
			fill(b.Mean.Tensor, -.5, .5)
			fill(b.StdDev.Tensor, .5, 1.5)
		}
	})
}

// inputs draws the inputs of a layer; nudge moves every value a little.
func (l *layer) inputs(f64 bool, seed uint64, grad bool, nudge float64) []T {
	r, q := NewRng(seed), NewRng(seed+77)
	xs := make([]T, l.n)
	for i := range xs {
		d := randData(r, l.rows*l.cols, false)
		for j := range d {
			if l.exactIn {
				d[j] = float64(1 + r.Intn(20))
			} else if nudge != 0 {
				d[j] += nudge * (2*q.F() - 1)
			}
		}
		xs[i] = newMat(f64, l.rows, l.cols, d, grad)
	}
	return xs
}

// nudgeModel moves every parameter a little.
func nudgeModel(m nn.Model, by float64, r *Rng) {
	if by == 0 {
		return
	}
	each := func(p *nn.Param) {
		d := vals(p)
		for i := range d {
			d[i] += by * (2*r.F() - 1)
		}
		p.Matrix.SetData(float.Make(d...))
	}
	if e, ok := m.(*embedding.Model); ok {
		for _, p := range e.Weights {
			each(p)
		}
		return
	}
	nn.ForEachParam(m, each)
}

// allParams lists the parameters of a model, embedding rows included.
func allParams(m nn.Model) (ps []*nn.Param) {
	if e, ok := m.(*embedding.Model); ok {
		return e.Weights
	}
	nn.ForEachParam(m, func(p *nn.Param) { ps = append(ps, p) })
	return
}

// agree compares gradients that may have been summed in different orders.
// others are evaluations of want at slightly different inputs, which show how
// sensitive it is. The result is "", "?" (too sensitive to tell) or a description.
func agree(f64 bool, got, want []float64, others [][]float64) string {
	return agreeAbs(f64, got, want, others, 1)
}

// agreeAbs is agree for sums of terms of the given magnitude.
func agreeAbs(f64 bool, got, want []float64, others [][]float64, terms float64) string {
	if (got == nil) != (want == nil) {
		if zeroVals(got) && zeroVals(want) {
			return "" // never accumulated, or zeros
		}
		return fmt.Sprintf("is %s, expected %s", short(got), short(want))
	}
	if len(got) != len(want) {
		return fmt.Sprintf("has %d elements, expected %d", len(got), len(want))
	}
	scale, diff := 0.0, 0.0
	for i, v := range want {
		scale = math.Max(scale, math.Abs(v))
		for _, o := range others {
			if len(o) != len(want) {
				if zeroVals(o) {
					diff = math.Max(diff, math.Abs(v))
					continue
				}
				return "?"
			}
			if d := math.Abs(o[i] - v); !(d <= diff) {
				diff = d
			}
		}
	}
	limit, base := 1e-2, 1e-4
	if f64 {
		limit, base = 1e-4, 1e-9
	}
	if math.IsNaN(diff) || math.IsNaN(scale) || math.IsInf(scale, 0) || diff > limit*scale && scale > 0 {
		return "?"
	}
	tol := base*scale + 30*diff
	if f64 {
		tol += 1e-13 * terms
	} else {
		tol += 1e-6 * terms
	}
	for i := range got {
		if !(math.Abs(got[i]-want[i]) <= tol) {
			return fmt.Sprintf("differs at element %d: %v, expected %v (tolerance %v)", i, got[i], want[i], tol)
		}
	}
	return ""
}

// net is a chain of layers.
type net struct {
	f64    bool
	specs  []layerSpec
	layers []*layer
	in     int
	out    int
}

// genChain draws the layers of a chain over sequences of n vectors.
func genChain(r *Rng, kinds []string, max int) (specs []layerSpec) {
	for k := r.Range(1, max); k > 0; k-- {
		s := genLayer(r, kinds)
		s.Hid = r.Range(2, 5)
		specs = append(specs, s)
	}
	return
}

// buildNet builds a chain; sizes follow from the size of the input.
func buildNet(f64 bool, in, n int, specs []layerSpec) *net {
	c := &net{f64: f64, in: in, out: in}
	for _, s := range specs {
		s.In, s.N = c.out, n
		l := s.build(f64)
		c.specs = append(c.specs, s)
		c.layers = append(c.layers, l)
		c.out = l.out
	}
	return c
}

func (c *net) models() (ms []nn.Model) {
	for _, l := range c.layers {
		ms = append(ms, l.model)
	}
	return
}

// bind makes a chain of the same architecture use other models.
func (c *net) bind(ms []nn.Model) *net {
	d := &net{f64: c.f64, specs: c.specs, in: c.in, out: c.out}
	for i, s := range c.specs {
		d.layers = append(d.layers, s.rebuild(c.f64, ms[i]))
	}
	return d
}

func (c *net) run(xs []T) []T {
	for _, l := range c.layers {
		xs = l.run(xs)
	}
	return xs
}
