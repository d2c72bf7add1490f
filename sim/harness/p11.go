package harness

import (
	"fmt"
	"syscall"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/losses"
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/nn/embedding"
	"github.com/nlpodyssey/spago/nn/normalization/batchnorm"
	"github.com/nlpodyssey/spago/optimizers"
	"github.com/nlpodyssey/spago/optimizers/gradclipper"

	"spagosim/vsim"
	"spagosim/vsim/vos"
)

// ckW is a training program that takes checkpoints and is killed.
type ckW struct {
	F64      bool
	Free     bool // any schedule; the network then has one consumer per value
	In, N    int
	Layers   []layerSpec
	Table    int // rows of an embedding table, if positive
	Strat    string
	Clip     int
	Steps    int
	Examples int
	Every    int
	Slots    int
	Faults   []ckFault
	Kills    []ckKill
	Seed     uint64
}

// ckFault makes file operations of the k-th checkpoint fail.
type ckFault struct {
	Dump int
	Kind int
	Pos  int
}

// ckKill ends one incarnation of the process.
type ckKill struct {
	File int   // at this file operation, counted from 1, if positive
	Part int   // permille of that operation done
	Sync int64 // or at this synchronisation operation, in permille of a whole run
}

var freeKinds = []string{"linear", "linear", "linear", "activation", "dropoutHalf"}
var freeFirst = []string{"linear", "lstm", "gru", "srn", "batchnormT", "highway"}

func genCk(r *Rng) any {
	w := &ckW{F64: r.P(.5), Free: r.P(.5), In: r.Range(2, 5), N: r.Range(1, 3), Strat: Pick(r, strategyNames...), Clip: Pick(r, 0, 0, 1, 2),
		Steps: r.Range(2, 7), Examples: r.Range(1, 3), Every: r.Range(1, 2), Slots: r.Range(2, 4), Seed: r.U64()}
	if w.Free {
		w.N = 1
		if r.P(.4) {
			w.Table = r.Range(2, 6)
		} else {
			w.Layers = append(w.Layers, genChain(r, freeFirst, 1)...)
		}
		w.Layers = append(w.Layers, genChain(r, freeKinds, 3)...)
	} else {
		if r.P(.3) {
			w.Table = r.Range(2, 6)
		}
		w.Layers = genChain(r, append([]string{"batchnormT", "batchnormT", "dropoutHalf"}, seqKinds...), 3)
	}
	for k := Pick(r, 0, 1, 1, 2); k > 0; k-- {
		w.Faults = append(w.Faults, ckFault{Dump: r.Intn(6), Kind: r.Intn(5), Pos: r.Intn(1000)})
	}
	for k := Pick(r, 1, 1, 2, 3); k > 0; k-- {
		q := ckKill{}
		if r.P(.6) {
			q.File, q.Part = r.Range(1, 14), r.Intn(1001)
		} else {
			q.Sync = int64(r.Range(1, 1000))
		}
		w.Kills = append(w.Kills, q)
	}
	return w
}

// ckModel is what a checkpoint holds.
type ckModel struct {
	nn.Module
	Step   int
	Layers []nn.Model
	Table  *embedding.Model
}

// snap copies the parameters, optimizer states and statistics of a model.
func (m *ckModel) snap() (out [][]float64) {
	add := func(ps []*nn.Param) {
		for _, p := range ps {
			out = append(out, vals(p))
			out = append(out, stateVals(p)...)
		}
	}
	for _, l := range m.Layers {
		add(allParams(l))
		if b, ok := l.(*batchnorm.Model); ok {
			out = append(out, vals(b.Mean), vals(b.StdDev), vals(b.Momentum))
		}
	}
	if m.Table != nil {
		add(m.Table.Weights)
	}
	return
}

func sameSnap(a, b [][]float64) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d values and states instead of %d", len(a), len(b))
	}
	for i := range a {
		if !sameBits(a[i], b[i]) {
			return fmt.Sprintf("value %d is %s instead of %s", i, short(a[i]), short(b[i]))
		}
	}
	return ""
}

// ckRun is one incarnation of the training process.
type ckRun struct {
	w     *ckW
	net   *net
	m     *ckModel
	strat optimizers.OptimizationStrategy
	inc   func()
	opt   *optimizers.Optimizer
	wild  bool // the values grew out of any reasonable range
}

func (w *ckW) start(m *ckModel) *ckRun {
	t := &ckRun{w: w, m: m}
	t.net = buildNet(w.F64, w.In, w.N, w.Layers)
	if m == nil {
		t.m = &ckModel{Layers: t.net.models()}
		if w.Table > 0 {
			if w.F64 {
				t.m.Table = embedding.New[float64](w.Table, w.In)
			} else {
				t.m.Table = embedding.New[float32](w.Table, w.In)
			}
			fillModel(t.m.Table, NewRng(w.Seed))
		}
	} else {
		t.net = t.net.bind(m.Layers)
	}
	t.strat, t.inc = newStrategy(w.Strat, w.F64)
	for k := 0; k < t.m.Step; k++ {
		t.inc()
	}
	t.opt = optimizers.New(nn.Parameters(t.m), t.strat)
	return t
}

// step takes one training step; everything it draws depends on its number.
func (t *ckRun) step() {
	w, k := t.w, t.m.Step
	r := NewRng(Mix(w.Seed, uint64(k)+5))
	ag.ManualSeed(r.U64())
	for ex := 0; ex < w.Examples; ex++ {
		var xs []T
		if w.Table > 0 {
			idx := make([]int, w.N)
			for i := range idx {
				idx[i] = r.Intn(w.Table)
			}
			var err error
			if xs, err = t.m.Table.Encode(idx); err != nil {
				Fail("error", "Encode returned %v", err)
			}
		} else {
			for i := 0; i < w.N; i++ {
				xs = append(xs, newMat(w.F64, w.In, 1, randData(r, w.In, false), false))
			}
		}
		ys := t.net.run(xs)
		var loss T
		for _, y := range ys {
			n := y.Value().Size()
			if wild(vals(y)) {
				t.wild = true
				return
			}
			l := losses.MSE(y, newMat(w.F64, y.Value().Shape()[0], y.Value().Shape()[1], randData(r, n, false), false), true)
			loss = ag.Add(loss, l)
		}
		if !loss.RequiresGrad() {
			_ = loss.Value()
			continue
		}
		if err := ag.Backward(loss); err != nil {
			Fail("error", "Backward returned %v", err)
		}
	}
	switch w.Clip {
	case 1:
		if t.m.Table == nil { // the rows are visited in any order
			(&gradclipper.NormClipper{MaxNorm: .5, NormType: 2}).ClipGradients(nn.Parameters(t.m))
		}
	case 2:
		(&gradclipper.ValueClipper{Value: .25}).ClipGrads(nn.Parameters(t.m))
	}
	if err := t.opt.Optimize(); err != nil {
		Fail("error", "Optimize returned %v", err)
	}
	t.inc()
	t.m.Step++
	if l := vsim.Quiesce(); len(l) > 0 {
		Fail("leak", "step %d left %d goroutines behind", k, len(l))
	}
}

// wild tells values with which training makes no sense.
func wild(v []float64) bool {
	for _, x := range v {
		if !(x > -1e3 && x < 1e3) {
			return true
		}
	}
	return false
}

type ackRec struct {
	step int
	slot int
}

func execCk(wl any, e *Env) *Violation {
	w := wl.(*ckW)
	if w.In < 2 || w.In > 8 || w.N < 1 || w.N > 4 || w.Steps < 1 || w.Steps > 10 || w.Examples < 1 || w.Examples > 4 || len(w.Layers) > 6 || w.Every < 1 || w.Slots < 2 || w.Slots > 8 || len(w.Kills) > 5 {
		return nil
	}
	ok := false
	for _, s := range strategyNames {
		ok = ok || s == w.Strat
	}
	if !ok {
		return nil
	}
	if w.Free && w.N != 1 {
		return nil
	}
	if w.Free {
		for i, l := range w.Layers {
			single := false
			for _, k := range freeKinds {
				single = single || k == l.Kind
			}
			if i == 0 && w.Table == 0 {
				for _, k := range freeFirst {
					single = single || k == l.Kind
				}
			}
			if !single {
				return nil
			}
		}
	}
	opts := []Opt{Sequential}
	if w.Free {
		opts = nil
	}
	// Training that is never interrupted and takes no checkpoints.
	ref := make([][][]float64, w.Steps+1)
	if v := e.Must("uninterrupted", func() {
		t := w.start(nil)
		ref[0] = t.m.snap()
		for t.m.Step < w.Steps {
			if t.step(); t.wild {
				return
			}
			s := t.m.snap()
			for _, v := range s {
				if wild(v) {
					return
				}
			}
			ref[t.m.Step] = s
		}
	}, Sequential); v != nil {
		return v
	}
	if ref[w.Steps] == nil {
		return nil // training diverges
	}
	total := e.SyncN
	vos.Cur = vos.NewFS()
	var acked []ackRec // what is known outside the process
	last := map[int]int{}
	slot := func(k int) string { return fmt.Sprintf("/ckpt/%d", k) }
	dumps := 0
	for inc := 0; ; inc++ {
		killFile, part := 0, 0
		var killSync int64
		if inc < len(w.Kills) {
			q := w.Kills[inc]
			killFile, part = q.File, q.Part
			if killFile <= 0 {
				killSync = 1 + total*int64(modulo(int(q.Sync), 1001))/1000
			}
		}
		ops, dump := 0, -1
		vos.Cur.Hook = func(op, name string, n int) (ft vos.Fault) {
			ops++
			if ops == killFile {
				e.Fault("kill at a file operation")
				ft = vos.Fault{Crash: true}
				if op == "write" {
					ft.Part, ft.N = true, n*modulo(part, 1001)/1000
				}
				return
			}
			for _, f := range w.Faults {
				if f.Dump != dump {
					continue
				}
				switch k := modulo(f.Kind, 5); {
				case k == 0 && op == "create":
					e.Fault("create error")
					return vos.Fault{Err: syscall.EACCES}
				case k == 1 && op == "write":
					e.Fault("write error")
					return vos.Fault{Err: syscall.EIO}
				case k == 2 && op == "write":
					e.Fault("disk full")
					return vos.Fault{Err: syscall.ENOSPC, Part: true, N: n * modulo(f.Pos, 1000) / 1000}
				case k == 3 && op == "close":
					e.Fault("lossy close")
					return vos.Fault{Err: syscall.EDQUOT, Part: true, N: n * modulo(f.Pos, 1000) / 1000}
				case k == 4 && op == "write":
					e.Fault("short write")
					return vos.Fault{Part: true, N: n * modulo(f.Pos, 1000) / 1000}
				}
			}
			return
		}
		label := fmt.Sprintf("incarnation %d", inc)
		o := append([]Opt{func(c *vsim.Config) { c.KillAt = killSync }}, opts...)
		res := e.Sim(label, func() {
			var m *ckModel
			cur := -1
			if len(acked) > 0 {
				a := acked[len(acked)-1]
				var err error
				if m, err = nn.LoadFromFile[*ckModel](slot(a.slot)); err != nil {
					Fail("lost", "%s: the checkpoint of step %d was acknowledged, loading it returned %v", label, a.step, err)
				}
				if m.Step != a.step {
					Fail("altered", "%s: the checkpoint of step %d holds step %d", label, a.step, m.Step)
				}
				cur = a.slot
			}
			t := w.start(m)
			compare := func(when string) {
				if d := sameSnap(t.m.snap(), ref[t.m.Step]); d != "" {
					Fail("diverged", "%s: %s step %d the model differs from uninterrupted training: %s", label, when, t.m.Step, d)
				}
			}
			compare("resumed at")
			for t.m.Step < w.Steps {
				t.step()
				compare("after")
				if t.m.Step%w.Every != 0 {
					continue
				}
				// The last acknowledged checkpoint is kept.
				next := (cur + 1) % w.Slots
				dump = dumps
				dumps++
				delete(last, next)
				if err := nn.DumpToFile(t.m, slot(next)); err == nil {
					acked = append(acked, ackRec{t.m.Step, next})
					last[next] = t.m.Step
					cur = next
					e.Probe("checkpoint acknowledged")
				} else {
					e.Probe("checkpoint failed")
				}
				dump = -1
				compare("after the checkpoint of")
			}
			CheckLeaks("training")
		}, o...)
		vos.Cur.Hook = nil
		if res.Outcome == "kill" {
			e.Probe("process killed")
			if killFile <= 0 {
				e.Fault("kill at a synchronisation operation")
			}
			if len(acked) > 0 {
				e.Probe("resumed from a checkpoint")
			}
		} else if v := Abnormal(label, res); v != nil {
			return v
		}
		// Every acknowledged checkpoint is still there.
		if v := e.Must("checkpoints after "+label, func() {
			for s := 0; s < w.Slots; s++ {
				step, ok := last[s]
				if !ok {
					continue
				}
				m, err := nn.LoadFromFile[*ckModel](slot(s))
				if err != nil {
					Fail("lost", "after %s: the checkpoint of step %d was acknowledged, loading it returned %v", label, step, err)
				}
				if m.Step != step {
					Fail("altered", "after %s: the checkpoint of step %d holds step %d", label, step, m.Step)
				}
				if d := sameSnap(m.snap(), ref[step]); d != "" {
					Fail("altered", "after %s: the checkpoint of step %d differs from uninterrupted training: %s", label, step, d)
				}
			}
		}, Sequential); v != nil {
			return v
		}
		if res.Outcome != "kill" {
			return nil
		}
	}
}

var _ mat.Tensor = (*nn.Param)(nil)

func init() {
	register(&Prop{
		ID: "P11", Flavours: map[string]int{"sim": 1}, Quick: 8000, Thorough: 240000,
		Gen: genCk, New: func() any { return &ckW{} }, Exec: execCk,
		NonTrivial: func(e *Env) bool { return e.Probes["process killed"] > 0 },
		Rule:       "a run is a training program (layers, strategy, clipper, embedding table, dropout, batch statistics) of 2-7 steps executed without interruption, and again with checkpoints under file faults and 1-3 process kills at drawn file or synchronisation operations, each followed by a restart from the last acknowledged checkpoint; non-trivial if at least one kill took effect",
		Real:       "nn (Dump, Load, streams), nn/*, ag, mat, optimizers/*, gradclipper, losses, encoding/gob", Stub: "file system (simulated), Go scheduler, channels, sync, atomics (simulated)",
		Faults: []string{"process kill at any file or synchronisation operation", "torn writes", "create, write, close errors, full disk, short writes"},
	})
}
