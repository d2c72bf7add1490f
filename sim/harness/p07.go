package harness

import (
	"context"
	"errors"
	"fmt"

	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/optimizers"

	"spagosim/vsim"
)

// optW is a sequence of optimization steps over one set of parameters.
type optW struct {
	F64      bool
	Params   []optParam
	Order    []int  // the stream: indices into Params
	Stream   string // "model", "list", "custom"
	Cap      int    // capacity of a custom stream
	Strategy string // "probe" or a built-in strategy
	Fail     []int  // parameters whose update fails
	FailKind int    // 0: error returned at once, 1: after doing some work
	Work     int    // scheduling points inside a probe update
	Steps    int
	Seed     uint64
	Slow     int // extra scheduling points of the producer per item
}

type optParam struct {
	N      int
	Frozen int // bit s set: no gradient in step s
}

func genOpt(r *Rng) any {
	w := &optW{F64: r.P(.4), Seed: r.U64(), Steps: Pick(r, 1, 1, 2, 3)}
	n := r.Size(24)
	if r.P(.05) {
		n = r.Range(30, 130)
	}
	for i := 0; i < n; i++ {
		p := optParam{N: r.Size(6)}
		if r.P(.02) {
			p.N = Pick(r, r.Range(200, 900), r.Range(900, 6000))
		}
		if r.P(.25) {
			p.Frozen = 1 << r.Intn(3)
		}
		if r.P(.1) {
			p.Frozen = 7
		}
		w.Params = append(w.Params, p)
		w.Order = append(w.Order, i)
	}
	if r.P(.4) {
		for k := r.Size(4); k > 0; k-- {
			at := r.Intn(len(w.Order) + 1)
			w.Order = append(w.Order, 0)
			copy(w.Order[at+1:], w.Order[at:])
			w.Order[at] = r.Intn(n)
		}
		if r.P(.3) { // immediate repetition
			at := r.Intn(len(w.Order))
			w.Order = append(w.Order[:at+1], w.Order[at:]...)
		}
	}
	w.Stream = Pick(r, "model", "list", "list", "custom")
	w.Cap = Pick(r, 0, 0, 1, 8)
	w.Slow = Pick(r, 0, 0, 1, 3)
	w.Strategy = "probe"
	w.Work = Pick(r, 0, 1, 2, 5)
	if r.P(.4) {
		w.Strategy = Pick(r, strategyNames...)
	}
	if r.P(.35) {
		for k := r.Size(3); k > 0; k-- {
			w.Fail = append(w.Fail, r.Intn(n))
		}
		w.FailKind = r.Intn(2)
	}
	return w
}

// fix makes any decoded workload valid.
func (w *optW) fix() bool {
	if len(w.Params) == 0 {
		return false
	}
	for i := range w.Params {
		if w.Params[i].N < 1 {
			w.Params[i].N = 1
		}
	}
	in := func(v int) int {
		if v < 0 {
			v = -v
		}
		return v % len(w.Params)
	}
	for i := range w.Order {
		w.Order[i] = in(w.Order[i])
	}
	for i := range w.Fail {
		w.Fail[i] = in(w.Fail[i])
	}
	if w.Steps < 1 {
		w.Steps = 1
	}
	if w.Cap < 0 {
		w.Cap = 0
	}
	return true
}

type optModel struct {
	nn.Module
	A    []*nn.Param
	Last *nn.Param
}

type injected struct{ i int }

func (e *injected) Error() string { return fmt.Sprintf("injected failure of parameter %d", e.i) }

// probeStrategy records what the optimizer does.
type probeStrategy struct {
	w        *optW
	idx      func(*nn.Param) int
	fail     map[int]bool
	e        *Env
	started  []int
	finished []int
	active   int
	maxAct   int
	failed   map[int]bool
	last     int64
}

func (s *probeStrategy) OptimizeParams(p *nn.Param) error {
	i := s.idx(p)
	s.active++
	if s.active > s.maxAct {
		s.maxAct = s.active
	}
	s.started[i]++
	s.last = vsim.Seq()
	var err error
	if s.fail[i] {
		if s.w.FailKind == 1 {
			for k := 0; k <= s.w.Work; k++ {
				vsim.Step()
			}
		}
		s.failed[i] = true
		s.e.Fault("update error")
		err = &injected{i}
	} else {
		if !p.HasGrad() {
			Fail("no-gradient", "the strategy was applied to parameter %d, which has no gradient", i)
		}
		g := vals(p.Grad())
		for k := 0; k < s.w.Work; k++ {
			vsim.Step()
		}
		m := p.Value().(mat.Matrix)
		m.SubInPlace(newMat(s.w.F64, m.Shape()[0], m.Shape()[1], g, false))
		p.ZeroGrad()
	}
	s.active--
	s.finished[i]++
	s.last = vsim.Seq()
	return err
}

type alienState struct{}

func execOpt(wl any, e *Env) *Violation {
	w := wl.(*optW)
	if !w.fix() {
		return nil
	}
	n := len(w.Params)
	fail := map[int]bool{}
	for _, i := range w.Fail {
		fail[i] = true
	}
	inStream := make([]bool, n)
	count := make([]int, n)
	for _, i := range w.Order {
		inStream[i] = true
		count[i]++
	}
	build := func() []*nn.Param {
		r := NewRng(w.Seed)
		ps := make([]*nn.Param, n)
		for i := range ps {
			ps[i] = nn.NewParam(newMat(w.F64, w.Params[i].N, 1, randData(r, w.Params[i].N, true), false))
			if w.Strategy != "probe" && fail[i] {
				ps[i].State = &alienState{}
			}
		}
		return ps
	}
	grads := func(ps []*nn.Param, step int) {
		r := NewRng(Mix(w.Seed, uint64(step)+7))
		for i, p := range ps {
			d := randData(r, w.Params[i].N, true)
			if w.Params[i].Frozen>>step&1 == 0 {
				p.AccGrad(newMat(w.F64, w.Params[i].N, 1, d, false))
			} else {
				p.ZeroGrad()
			}
		}
	}
	// Reference: the strategy applied in sequence, once per distinct parameter.
	type snap struct {
		v    [][]float64
		s    [][][]float64
		grad [][]float64
	}
	take := func(ps []*nn.Param) snap {
		var s snap
		for _, p := range ps {
			s.v = append(s.v, vals(p))
			s.s = append(s.s, stateVals(p))
			s.grad = append(s.grad, gradVals(p))
		}
		return s
	}
	var before, after []snap
	if w.Strategy != "probe" {
		if v := e.Must("reference", func() {
			ps := build()
			st, inc := newStrategy(w.Strategy, w.F64)
			for step := 0; step < w.Steps; step++ {
				inc()
				grads(ps, step)
				before = append(before, take(ps))
				for i, p := range ps {
					if inStream[i] && p.HasGrad() && !fail[i] {
						if err := st.OptimizeParams(p); err != nil {
							Fail("reference", "the strategy failed: %v", err)
						}
					}
				}
				after = append(after, take(ps))
				for _, p := range ps {
					p.ZeroGrad()
				}
			}
		}, Sequential); v != nil {
			return v
		}
	}
	return e.Must("optimize", func() {
		ps := build()
		idx := map[*nn.Param]int{}
		for i, p := range ps {
			idx[p] = i
		}
		var order []*nn.Param
		for _, i := range w.Order {
			order = append(order, ps[i])
		}
		var stream nn.ParamChannelFunc
		switch w.Stream {
		case "model":
			m := &optModel{}
			if len(order) > 0 {
				m.A, m.Last = order[:len(order)-1], order[len(order)-1]
			}
			stream = nn.Parameters(m)
		case "list":
			stream = nn.StreamParams(order)
		default:
			stream = func(ctx context.Context) <-chan *nn.Param {
				ch := make(chan *nn.Param, w.Cap)
				vsim.Go(func() {
					defer vsim.Close(ch)
					for _, p := range order {
						for k := 0; k < w.Slow; k++ {
							vsim.Step()
						}
						c0, c1 := vsim.RecvCase(ctx.Done()), vsim.SendCase(ch)(p)
						if vsim.Select(false, c0, c1) == 0 {
							return
						}
					}
				})
				return ch
			}
		}
		var probe *probeStrategy
		var st optimizers.OptimizationStrategy
		inc := func() {}
		if w.Strategy == "probe" {
			probe = &probeStrategy{w: w, idx: func(p *nn.Param) int {
				i, ok := idx[p]
				if !ok {
					Fail("foreign", "the strategy was applied to a parameter that is not in the stream")
				}
				return i
			}, fail: fail, e: e, failed: map[int]bool{}}
			st = probe
		} else {
			st, inc = newStrategy(w.Strategy, w.F64)
		}
		o := optimizers.New(stream, st)
		for step := 0; step < w.Steps; step++ {
			inc()
			grads(ps, step)
			pre := take(ps)
			withErr := false
			for i := range ps {
				if fail[i] && inStream[i] && ps[i].HasGrad() {
					withErr = true
				}
			}
			if probe != nil {
				probe.started, probe.finished = make([]int, n), make([]int, n)
				probe.failed = map[int]bool{}
			}
			err := o.Optimize()
			ret := vsim.Seq()
			post := take(ps)
			if withErr {
				e.Probe("step with failing update")
			}
			if err != nil && !withErr {
				Fail("spurious-error", "step %d: Optimize returned %v although every update succeeded", step, err)
			}
			if err == nil && withErr {
				Fail("lost-error", "step %d: Optimize returned no error although an update failed", step)
			}
			if probe != nil {
				var inj *injected
				if err != nil && (!errors.As(err, &inj) || !probe.failed[inj.i]) {
					Fail("wrong-error", "step %d: Optimize returned %v, which no update reported", step, err)
				}
				for i := range ps {
					if probe.started[i] != probe.finished[i] {
						Fail("unfinished", "step %d: Optimize returned while the update of parameter %d was running", step, i)
					}
					has := inStream[i] && pre.grad[i] != nil
					want := 0
					if has {
						want = 1
					}
					if probe.started[i] > want || err == nil && probe.started[i] != want {
						Fail("count", "step %d: the strategy was applied %d times to parameter %d (occurs %d times, gradient: %v), expected %d", step, probe.started[i], i, count[i], pre.grad[i] != nil, want)
					}
				}
				if probe.maxAct > 1 {
					e.Probe("parallel updates")
				}
				if lim := 2 * vsim.NCPU; probe.maxAct >= lim {
					e.Probe("update limit reached")
				}
			}
			for i := range ps {
				if !inStream[i] || pre.grad[i] == nil || fail[i] {
					// never touched; a failing update of the probe changes nothing
					if !sameBits(post.v[i], pre.v[i]) {
						Fail("touched", "step %d: parameter %d must not change (in stream: %v, gradient: %v) but did", step, i, inStream[i], pre.grad[i] != nil)
					}
					if !sameBits(post.grad[i], pre.grad[i]) {
						Fail("touched", "step %d: the gradient of parameter %d must not change but did", step, i)
					}
					continue
				}
				var wantV []float64
				if probe != nil {
					for k := range pre.v[i] {
						wantV = append(wantV, pre.v[i][k]-pre.grad[i][k])
					}
				} else {
					wantV = after[step].v[i]
				}
				updated := sameBits(post.v[i], wantV) && (probe != nil || sameState(post.s[i], after[step].s[i]))
				untouched := sameBits(post.v[i], pre.v[i]) && sameState(post.s[i], pre.s[i]) && sameBits(post.grad[i], pre.grad[i])
				if err == nil && !updated || err != nil && !updated && !untouched {
					Fail("value", "step %d: parameter %d is %s after the step, expected %s (before: %s; error: %v)", step, i, short(post.v[i]), short(wantV), short(pre.v[i]), err)
				}
				if (err == nil || !untouched) && post.grad[i] != nil {
					Fail("value", "step %d: parameter %d keeps a gradient after its update", step, i)
				}
			}
			CheckLeaks("Optimize")
			if probe != nil && probe.last > ret {
				Fail("late", "step %d: updates went on after Optimize had returned", step)
			}
			final := take(ps)
			for i := range ps {
				if !sameBits(final.v[i], post.v[i]) || !sameBits(final.grad[i], post.grad[i]) {
					Fail("late", "step %d: parameter %d changed after Optimize had returned", step, i)
				}
			}
			if err != nil {
				return
			}
			for _, p := range ps {
				p.ZeroGrad()
			}
		}
	})
}

func init() {
	register(&Prop{
		ID: "P07", Flavours: map[string]int{"sim": 1}, Quick: 200000, Thorough: 4000000,
		Gen: genOpt, New: func() any { return &optW{} }, Exec: execOpt,
		Rule:   "a run is one random stream of parameters (with repetitions, frozen and failing parameters) optimized for 1-3 steps under one random schedule; non-trivial if the scheduler switched goroutines beyond start-up",
		Real:   "optimizers.Optimize, nn.Parameters/StreamParams, the nine built-in strategies, mat.Dense",
		Stub:   "Go scheduler, channels, sync, context (simulated); the probe strategy",
		Faults: []string{"update error"},
	})
}
