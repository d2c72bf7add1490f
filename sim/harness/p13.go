package harness

import (
	"fmt"
	"math"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/initializers"
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/mat/float"
	"github.com/nlpodyssey/spago/mat/gradfn"
	"github.com/nlpodyssey/spago/mat/rand"
	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/nn/activation"
	"github.com/nlpodyssey/spago/nn/attention/multiheadattention"
	"github.com/nlpodyssey/spago/nn/attention/selfattention"
	"github.com/nlpodyssey/spago/nn/dropout"
	"github.com/nlpodyssey/spago/nn/linear"
	"github.com/nlpodyssey/spago/nn/recurrent/gru"
	"github.com/nlpodyssey/spago/nn/recurrent/lstm"
	"github.com/nlpodyssey/spago/nn/sgu"

	"spagosim/vsim"
)

// sdW is a program that draws from a seeded generator in one goroutine.
type sdW struct {
	F64    bool
	Seed   uint64
	R, C   int
	Steps  int
	Layers []sdLayer
	Back   int // goroutines evaluating and back-propagating unrelated graphs
	Local  bool
	Reseed bool // the generator is seeded again in every step
	Chains int  // branches of the network
	Across bool // the branches are built layer by layer
	Twice  bool // gradients are propagated twice through each evaluation
	Models []sdModel
}

// sdModel is a layer that initializes itself from the generator.
type sdModel struct {
	Kind, In, Out int
}

func (m sdModel) build(f64 bool, seed uint64, gen *rand.LockedRand) nn.Model {
	if f64 {
		return buildSdModel[float64](m, seed, gen)
	}
	return buildSdModel[float32](m, seed, gen)
}

func buildSdModel[F float.DType](m sdModel, seed uint64, gen *rand.LockedRand) nn.Model {
	in, out := 1+modulo(m.In-1, 6), 1+modulo(m.Out-1, 6)
	switch modulo(m.Kind, 5) {
	case 0:
		return lstm.New[F](in, out).Init(gen)
	case 1:
		s := selfattention.New[F](selfattention.Config{InputSize: in, QuerySize: out, KeySize: out, ValueSize: out})
		s.Init(gen)
		return s
	case 2:
		mh := multiheadattention.New[F](2*in, 2, false, false)
		mh.Init(gen)
		return mh
	case 3:
		s := sgu.New[F](sgu.Config{Dim: 2 * in, DimSeq: out, InitEps: .1, Activation: activation.Identity})
		s.Initialize(seed)
		return s
	}
	l := nn.ModuleList[nn.StandardModel]{linear.New[F](in, out), gru.New[F](out, out)}
	nn.ForEachParam(&layList{Layers: l}, func(p *nn.Param) {
		initializers.XavierNormal(p.Value().(mat.Matrix), 1, gen)
	})
	return &layList{Layers: l}
}

type sdLayer struct {
	Kind int
	Init int
	P    float64
	Mode int
	Skip bool
}

func genSd(r *Rng) any {
	w := &sdW{F64: r.P(.5), Seed: r.seed(.1), R: r.Size(6), C: r.Size(6), Steps: r.Range(1, 3), Back: Pick(r, 0, 0, 1, 2), Local: r.P(.4), Reseed: r.P(.3), Chains: r.Range(1, 4), Across: r.P(.6), Twice: r.P(.3)}
	layers := r.Range(2, 9)
	if r.P(.02) { // large matrices
		w.R, w.C = r.Range(20, 100), r.Range(20, 100)
		w.Steps, w.Chains, layers = 1, min(w.Chains, 2), r.Range(1, 3)
	}
	for k := layers; k > 0; k-- {
		w.Layers = append(w.Layers, sdLayer{Kind: Pick(r, 0, 0, 0, 1, 2, 3, 4, 5, 6), Init: r.Intn(5), P: Pick(r, 0, .1, .25, .5, .5, .75, .9, 1), Mode: r.Intn(3), Skip: r.P(.3)})
	}
	for k := r.Intn(3); k > 0; k-- {
		w.Models = append(w.Models, sdModel{r.Intn(5), r.Size(6), r.Size(6)})
	}
	return w
}

// sdLog records everything a run computes, in program order.
type sdLog struct {
	name []string
	v    [][]float64
}

func (l *sdLog) add(name string, v []float64) {
	l.name = append(l.name, name)
	l.v = append(l.v, append([]float64(nil), v...))
}

func (w *sdW) run(e *Env, log *sdLog, count, force bool) {
	R, C := 1+modulo(w.R-1, 100), 1+modulo(w.C-1, 100)
	ag.SetForceSyncExecution(force)
	defer ag.SetForceSyncExecution(false)
	var gen *rand.LockedRand
	if w.Local {
		gen = rand.NewLockedRand(w.Seed)
		ag.ManualSeed(1)
	} else {
		gen = ag.ManualSeed(w.Seed)
	}
	run := func(f ag.AutoGradFunction, mode int) T {
		switch modulo(mode, 3) {
		case 0:
			return ag.NewOperator(f).Run(true)
		case 1:
			return ag.NewOperator(f).Run(false)
		}
		return ag.NewOperator(f).Run()
	}
	chains := 1 + modulo(w.Chains-1, 4)
	for i, m := range w.Models {
		if i < 4 {
			for k, p := range allParams(m.build(w.F64, w.Seed+uint64(i), gen)) {
				log.add(fmt.Sprintf("initial parameter %d of model %d (kind %d)", k, i, modulo(m.Kind, 5)), vals(p))
			}
		}
	}
	// Parameters, initialised from the generator.
	var ps []*nn.Param
	for c := 0; c < chains; c++ {
		for i, l := range w.Layers {
			m := newMat(w.F64, R, C, make([]float64, R*C), false)
			switch modulo(l.Init, 5) {
			case 0:
				initializers.Uniform(m, -1, 1, gen)
			case 1:
				initializers.Normal(m, 0, 1, gen)
			case 2:
				initializers.XavierUniform(m, 1, gen)
			case 3:
				initializers.XavierNormal(m, 1, gen)
			default:
				initializers.Achlioptas(m, gen)
			}
			ps = append(ps, nn.NewParam(m))
			log.add(fmt.Sprintf("initial parameter %d.%d", c, i), vals(m))
		}
	}
	stop := false
	fin := make(chan int, 4)
	back := 0
	for ; back < w.Back && back < 3; back++ {
		vsim.Go(func() {
			own := rand.NewLockedRand(3)
			for k := 0; !stop && k < 20; k++ {
				x := newMat(true, 2, 2, []float64{1, 2, 3, own.Float64()}, true)
				y := ag.Sum(ag.Tanh(ag.Mul(x, x)), ag.Add(x, x), x)
				if err := ag.Backward(ag.ReduceSum(y)); err != nil {
					Fail("error", "Backward returned %v", err)
				}
			}
			vsim.Send(fin)(1)
		})
	}
	type drop struct {
		x, y T
		p    float64
		name string
	}
	for s := 0; s < w.Steps && s < 4; s++ {
		if w.Reseed && s > 0 {
			if w.Local {
				gen.Seed(w.Seed + uint64(s))
			} else {
				gen = ag.ManualSeed(w.Seed + uint64(s))
			}
		}
		var drops []drop
		var nodes []T
		var names []string
		var outs []T
		hs := make([]T, chains)
		for c := range hs {
			hs[c] = newMat(w.F64, R, C, randData(NewRng(Mix(w.Seed, uint64(s*10+c))), R*C, false), true)
		}
		layer := func(c, i int) {
			l, h, in := w.Layers[i], hs[c], hs[c]
			p := ps[c*len(w.Layers)+i]
			name := fmt.Sprintf("step %d, branch %d, layer %d", s, c, i)
			pr := l.P
			if !(pr >= 0 && pr <= 1) {
				pr = .5
			}
			switch k := modulo(l.Kind, 7); k {
			case 0, 1, 2:
				// only the dropout consumes x
				var x, y T
				if l.Mode%2 == 0 {
					x = ag.Add(h, p)
				} else {
					x = ag.NewOperator(gradfn.NewAdd[T](h, p)).Run(true)
				}
				switch {
				case w.Local && pr > 0:
					// Run as package ag does, in the goroutine that builds the graph.
					y = ag.NewOperator(gradfn.NewDropout(x, pr, gen)).Run()
				case k == 0:
					y = ag.Dropout(x, pr)
				case k == 1:
					y = ag.DropoutFunc(pr)(x)
				default:
					y = dropout.New(pr).Forward(x)[0]
				}
				drops = append(drops, drop{x, y, pr, name})
				nodes, names = append(nodes, x), append(names, name+" input")
				h = y
			case 3:
				h = run(gradfn.NewTanh[T](h), l.Mode)
			case 4:
				h = run(gradfn.NewProd[T](h, p), l.Mode)
			case 5:
				h = run(gradfn.NewSub[T](h, p), l.Mode)
			default: // noise
				m := newMat(w.F64, R, C, make([]float64, R*C), false)
				initializers.Uniform(m, -1, 1, gen)
				h = run(gradfn.NewAdd[T](h, m), l.Mode)
			}
			nodes, names = append(nodes, h), append(names, name)
			if l.Skip && l.Kind > 2 && i > 0 && modulo(w.Layers[i-1].Kind, 7) > 2 {
				h = run(gradfn.NewAdd(h, in), l.Mode)
				nodes, names = append(nodes, h), append(names, name+" skip")
			}
			hs[c] = h
		}
		for k := 0; k < chains*len(w.Layers); k++ {
			if w.Across {
				layer(k%chains, k/chains)
			} else {
				layer(k/len(w.Layers), k%len(w.Layers))
			}
		}
		for c, h := range hs {
			sq := ag.Square(h)
			outs = append(outs, ag.ReduceSum(sq))
			nodes, names = append(nodes, sq, outs[c]), append(names, fmt.Sprintf("step %d, branch %d, squares", s, c), fmt.Sprintf("step %d, branch %d, output", s, c))
		}
		if err := ag.Backward(outs...); err != nil {
			Fail("error", "Backward returned %v", err)
		}
		if w.Twice {
			for _, n := range nodes {
				n.ZeroGrad()
			}
			for _, p := range ps {
				p.ZeroGrad()
			}
			if err := ag.Backward(outs...); err != nil {
				Fail("error", "Backward returned %v", err)
			}
			if count {
				e.Probe("second backward pass through dropouts")
			}
		}
		for i, n := range nodes {
			log.add(names[i], vals(n))
			log.add("gradient of "+names[i], gradVals(n))
		}
		for _, d := range drops {
			x, y := vals(d.x), vals(d.y)
			gx, gy := gradVals(d.x), gradVals(d.y)
			if gy == nil {
				gy = make([]float64, len(y))
			}
			if gx == nil {
				gx = make([]float64, len(x))
			}
			if d.p == 0 {
				if !sameBits(x, y) {
					Fail("mask", "%s: dropout with probability 0 changed %s to %s", d.name, short(x), short(y))
				}
				continue
			}
			for i := range x {
				near := func(a, b float64) bool { return math.Abs(a-b) <= 2e-6*math.Abs(b) }
				kept := d.p < 1 && near(y[i], x[i]/(1-d.p))
				if math.IsNaN(x[i]) || math.Abs(x[i]) > 1e30 || x[i] != 0 && math.Abs(x[i]) < 1e-30 {
					continue
				}
				if !kept && y[i] != 0 {
					Fail("mask", "%s: dropout(%v) turned component %d from %v into %v", d.name, d.p, i, x[i], y[i])
				}
				if x[i] == 0 || math.IsNaN(gy[i]) || math.Abs(gy[i]) > 1e30 || gy[i] != 0 && math.Abs(gy[i]) < 1e-30 {
					continue
				}
				if kept && !near(gx[i], gy[i]/(1-d.p)) || !kept && gx[i] != 0 {
					Fail("mask", "%s: dropout(%v): component %d: %v became %v, but its gradient became %v from %v", d.name, d.p, i, x[i], y[i], gx[i], gy[i])
				}
				if count {
					if kept {
						e.Probe("component kept")
					} else {
						e.Probe("component dropped")
					}
				}
			}
		}
		for i, p := range ps {
			log.add(fmt.Sprintf("step %d: gradient of parameter %d", s, i), gradVals(p))
			if p.HasGrad() {
				g := gradVals(p)
				for k := range g {
					g[k] *= .125
				}
				p.SubInPlace(newMat(w.F64, R, C, g, false))
				p.ZeroGrad()
			}
		}
	}
	stop = true
	for ; back > 0; back-- {
		vsim.Recv(fin)
	}
	log.add("next draw", []float64{gen.Float64()})
}

func execSd(wl any, e *Env) *Violation {
	w := wl.(*sdW)
	if len(w.Layers) > 16 {
		return nil
	}
	var a, b, c sdLog
	if v := e.Must("sequential", func() { w.run(e, &a, false, false); CheckLeaks("the program") }, Sequential); v != nil {
		return v
	}
	if v := e.Must("scheduled", func() { w.run(e, &b, true, false); CheckLeaks("the program") }); v != nil {
		return v
	}
	logs := []*sdLog{&b}
	if e.Seed%4 == 0 {
		force := func() {
			w.run(e, &c, false, true)
			CheckLeaks("the program")
		}
		if v := e.Must("forced synchronous", force); v != nil {
			return v
		}
		logs = append(logs, &c)
	}
	for _, l := range logs {
		if len(l.v) != len(a.v) {
			return bad("length", "the program recorded %d values under one schedule and %d under another", len(a.v), len(l.v))
		}
		for i := range l.v {
			if !sameBits(l.v[i], a.v[i]) {
				return bad("differs", "%s is %s under one schedule and %s under another", a.name[i], short(a.v[i]), short(l.v[i]))
			}
		}
	}
	return nil
}

func init() {
	register(&Prop{
		ID: "P13", Flavours: map[string]int{"sim": 2, "fine": 1}, Quick: 30000, Thorough: 1200000,
		Gen: genSd, New: func() any { return &sdW{} }, Exec: execSd,
		Rule: "a run is one seeded training program (initializers, dropout through every interface, asynchronous and synchronous operators, 1-3 branches and steps, unrelated concurrent graphs) executed sequentially, under a random schedule, and sometimes with forced synchronous execution; non-trivial if the scheduler switched goroutines beyond start-up",
		Real: "ag, mat, mat/gradfn, mat/rand, initializers, nn/dropout, initialization of layers", Stub: "Go scheduler, channels, sync, atomics (simulated)",
	})
}
