package harness

import (
	"time"

	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/nn/embedding"

	"spagosim/vsim"
	"spagosim/vsim/vcontext"
	"spagosim/vsim/vsync"
	"spagosim/vsim/vtime"
)

// strW describes a model and the consumers of its parameter stream.
type strW struct {
	Root    strNode
	NParam  int
	List    []int // stream over this list instead of the model
	UseList bool
	Streams []strCons
	Change  bool // the model then changes into Then, and is streamed again
	Then    strNode
}

// strNode is one part of a model; numbers select parameters.
type strNode struct {
	W, B   int // -1: nil
	Arr    []int
	List   []int
	Subs   []strNode
	Mods   []strNode
	ByName []strNode
	ByInt  []int
	SMap   []int
	Trav   []int // custom traversal
	Rows   []int // rows of an embedding table that have gradients
	IsTrav bool
	HasEmb bool
	Tied   bool // the table is shared with another part of the model
}

type strCons struct {
	Work     int // steps between two receives
	Stop     int // stop receiving after so many (0: never)
	Cancel   int // cancel after so many receives (-1: never; -2: before the start)
	By       int // 0: the consumer cancels, 1: another goroutine at some moment, 2: a timeout
	Delay    int
	Drain    bool // go on receiving after the cancellation
	Repeat   int
	Sequence bool // starts when the previous one has ended
}

type strModel struct {
	nn.Module
	W      *nn.Param
	Count  int
	Subs   []nn.Model
	hidden *nn.Param
	Arr    [2]*nn.Param
	B      *nn.Param
	Note   string
	List   []*nn.Param
	ByName map[string]nn.Model
	Emb    *embedding.Model
	ByInt  map[int]*nn.Param
	Mods   nn.ModuleList[*strMod]
	SMap   *vsync.Map
	Custom *strTrav
	Tied   nn.Model
}

type strMod struct {
	nn.Module
	P    *nn.Param
	Next nn.Model
	Q    *nn.Param
}

func (*strMod) Forward(xs ...mat.Tensor) []mat.Tensor { return xs }

// strTrav visits its parameters by itself.
type strTrav struct {
	nn.Module
	Ps []*nn.Param
}

func (t *strTrav) TraverseParams(f func(*nn.Param)) {
	for _, p := range t.Ps {
		f(p)
	}
}

func genStrNode(r *Rng, n, depth int) strNode {
	par := func() int { return r.Intn(n) }
	some := func(p float64, max int) []int {
		var out []int
		if r.P(p) {
			for k := r.Range(1, max); k > 0; k-- {
				out = append(out, par())
			}
		}
		return out
	}
	x := strNode{W: -1, B: -1, List: some(.3, 5), ByInt: some(.15, 4), SMap: some(.15, 4)}
	if r.P(.7) {
		x.W = par()
	}
	if r.P(.5) {
		x.B = par()
	}
	if r.P(.2) {
		x.Arr = []int{par(), par()}
	}
	if r.P(.2) {
		x.Trav, x.IsTrav = some(.9, 5), true
	}
	if r.P(.2) {
		x.HasEmb, x.Tied = true, r.P(.3)
		for i := 0; i < 6; i++ {
			if r.P(.5) {
				x.Rows = append(x.Rows, i)
			}
		}
	}
	if depth > 0 {
		subs := func(p float64) []strNode {
			var out []strNode
			if r.P(p) {
				for k := r.Range(1, 3); k > 0; k-- {
					out = append(out, genStrNode(r, n, depth-1))
				}
			}
			return out
		}
		x.Subs, x.Mods, x.ByName = subs(.4), subs(.2), subs(.2)
	}
	return x
}

func genStr(r *Rng) any {
	w := &strW{NParam: r.Size(12), UseList: r.P(.3)}
	if r.P(.02) {
		w.NParam = r.Range(20, 100)
	}
	w.Root = genStrNode(r, w.NParam, r.Intn(4))
	if r.P(.03) { // long collections
		for k := r.Range(20, 150); k > 0; k-- {
			w.Root.List = append(w.Root.List, r.Intn(w.NParam))
		}
		if r.P(.3) {
			for k := r.Range(20, 80); k > 0; k-- {
				w.Root.Subs = append(w.Root.Subs, genStrNode(r, w.NParam, 0))
			}
		}
	}
	if w.UseList {
		for k := Pick(r, r.Intn(20), r.Intn(20), r.Intn(20), r.Intn(20), r.Intn(150)); k > 0; k-- {
			w.List = append(w.List, r.Intn(w.NParam))
		}
	}
	if !w.UseList && r.P(.25) {
		w.Change, w.Then = true, w.Root
		w.Then.W = r.Range(-1, w.NParam-1)
		switch r.Intn(5) {
		case 0:
			w.Then.List = append(append([]int{}, w.Root.List...), r.Intn(w.NParam))
		case 1:
			if n := len(w.Root.List); n > 0 {
				w.Then.List = w.Root.List[:r.Intn(n)]
			}
		case 2:
			w.Then.Subs = append(append([]strNode{}, w.Root.Subs...), genStrNode(r, w.NParam, 0))
		case 3:
			w.Then = genStrNode(r, w.NParam, r.Intn(3))
		}
	}
	for k := Pick(r, 1, 1, 2, 3); k > 0; k-- {
		c := strCons{Work: r.Intn(4), Cancel: -1, Repeat: Pick(r, 1, 1, 2), Sequence: r.P(.3)}
		if r.P(.6) {
			c.Cancel = Pick(r, -2, 0, 0, r.Intn(3), r.Intn(8), r.Intn(20))
			c.By = r.Intn(3)
			c.Delay = r.Intn(25)
			c.Drain = r.P(.6)
		}
		w.Streams = append(w.Streams, c)
	}
	return w
}

// seg is a part of the expected visit: one parameter, or unordered groups.
type seg struct {
	p      *nn.Param
	groups [][]seg
}

type strBuilder struct {
	ps     []*nn.Param
	models []nn.Model // every part that is a model
}

func (b *strBuilder) at(i int) *nn.Param {
	if i < 0 {
		return nil
	}
	return b.ps[i%len(b.ps)]
}

func (b *strBuilder) list(in []int) (ps []*nn.Param, segs []seg) {
	for _, i := range in {
		p := b.at(modulo(i, len(b.ps)))
		ps = append(ps, p)
		segs = append(segs, seg{p: p})
	}
	return
}

func (b *strBuilder) model(x strNode) (*strModel, []seg) {
	m := &strModel{Count: 3, Note: "x", hidden: b.ps[0]}
	b.models = append(b.models, m)
	var segs []seg
	one := func(p *nn.Param) {
		if p != nil {
			segs = append(segs, seg{p: p})
		}
	}
	m.W = b.at(x.W)
	one(m.W)
	for _, s := range x.Subs {
		sm, ss := b.model(s)
		m.Subs = append(m.Subs, sm)
		segs = append(segs, ss...)
	}
	if len(x.Arr) == 2 {
		for i := range m.Arr {
			m.Arr[i] = b.at(modulo(x.Arr[i], len(b.ps)))
			one(m.Arr[i])
		}
	} else { // a nil element would not be visited in a meaningful way
		for i := range m.Arr {
			m.Arr[i] = b.ps[0]
			one(m.Arr[i])
		}
	}
	m.B = b.at(x.B)
	one(m.B)
	var ss []seg
	m.List, ss = b.list(x.List)
	segs = append(segs, ss...)
	if len(x.ByName) > 0 {
		m.ByName = map[string]nn.Model{}
		var g seg
		for i, s := range x.ByName {
			sm, ss := b.model(s)
			m.ByName[string(rune('a'+i))] = sm
			g.groups = append(g.groups, ss)
		}
		segs = append(segs, g)
	}
	var rows []seg
	if x.HasEmb {
		m.Emb = embedding.New[float64](6, 2)
		b.models = append(b.models, m.Emb)
		var g seg
		seen := map[int]bool{}
		for _, i := range x.Rows {
			i = modulo(i, 6)
			e, err := m.Emb.Embedding(i)
			if err != nil {
				Fail("error", "Embedding returned %v", err)
			}
			e.AccGrad(newMat(true, 2, 1, []float64{1, 1}, false))
			if !seen[i] {
				seen[i] = true
				g.groups = append(g.groups, []seg{{p: m.Emb.Weights[i]}})
			}
		}
		segs = append(segs, g)
		if x.Tied {
			m.Tied = embedding.Shared{Model: m.Emb}
			b.models = append(b.models, m.Tied)
			rows = []seg{g}
		}
	}
	if len(x.ByInt) > 0 {
		m.ByInt = map[int]*nn.Param{}
		var g seg
		for i, k := range x.ByInt {
			m.ByInt[i] = b.at(modulo(k, len(b.ps)))
			g.groups = append(g.groups, []seg{{p: m.ByInt[i]}})
		}
		segs = append(segs, g)
	}
	for _, s := range x.Mods {
		mm := &strMod{P: b.at(s.W), Q: b.at(s.B)}
		b.models = append(b.models, mm)
		one(mm.P)
		if len(s.Subs) > 0 {
			sm, ss := b.model(s.Subs[0])
			mm.Next = sm
			segs = append(segs, ss...)
		} else {
			mm.Next = &strMod{}
			b.models = append(b.models, mm.Next)
		}
		one(mm.Q)
		m.Mods = append(m.Mods, mm)
	}
	if len(x.SMap) > 0 {
		m.SMap = &vsync.Map{}
		var g seg
		for i, k := range x.SMap {
			p := b.at(modulo(k, len(b.ps)))
			if i%2 == 0 {
				m.SMap.Store(i, p)
			} else {
				m.SMap.Store(string(rune('a'+i)), p)
			}
			g.groups = append(g.groups, []seg{{p: p}})
		}
		segs = append(segs, g)
	}
	if x.IsTrav {
		ps, ss := b.list(x.Trav)
		m.Custom = &strTrav{Ps: ps}
		b.models = append(b.models, m.Custom)
		segs = append(segs, ss...)
	}
	return m, append(segs, rows...)
}

// matcher checks that a sequence of parameters is a visit (or a subsequence
// of a visit) of the segments.
type matcher struct {
	seq  []*nn.Param
	sub  bool
	fuel int
}

// match consumes the segments from position i on, then calls next.
func (m *matcher) match(segs []seg, i int, next func(i int) bool) bool {
	if m.fuel--; m.fuel < 0 {
		return true // too ambiguous to judge
	}
	if len(segs) == 0 {
		return next(i)
	}
	s, rest := segs[0], segs[1:]
	if s.groups == nil {
		if s.p == nil {
			return m.match(rest, i, next)
		}
		if i < len(m.seq) && m.seq[i] == s.p && m.match(rest, i+1, next) {
			return true
		}
		return m.sub && m.match(rest, i, next)
	}
	return m.perm(s.groups, make([]bool, len(s.groups)), i, func(j int) bool { return m.match(rest, j, next) })
}

func (m *matcher) perm(groups [][]seg, used []bool, i int, next func(int) bool) bool {
	left := false
	for k := range groups {
		if used[k] {
			continue
		}
		left = true
		used[k] = true
		ok := m.match(groups[k], i, func(j int) bool { return m.perm(groups, used, j, next) })
		used[k] = false
		if ok {
			return true
		}
		if m.fuel < 0 {
			return true
		}
	}
	if !left || m.sub {
		return next(i)
	}
	return false
}

// fits tells whether seq is a visit of segs, or a part of one.
func fits(segs []seg, seq []*nn.Param, partial bool) bool {
	m := &matcher{seq: seq, sub: partial, fuel: 50000}
	return m.match(segs, 0, func(i int) bool { return i == len(seq) })
}

func countSegs(segs []seg) int {
	n := 0
	for _, s := range segs {
		if s.p != nil {
			n++
		}
		for _, g := range s.groups {
			n += countSegs(g)
		}
	}
	return n
}

// multi compares as multisets.
func multi(ps []*nn.Param) map[*nn.Param]int {
	m := map[*nn.Param]int{}
	for _, p := range ps {
		m[p]++
	}
	return m
}

func ordered(segs []seg) bool {
	for _, s := range segs {
		if len(s.groups) > 1 {
			return false
		}
		for _, g := range s.groups {
			if !ordered(g) {
				return false
			}
		}
	}
	return true
}

func (b *strBuilder) names(ps []*nn.Param) []int {
	var out []int
	for _, p := range ps {
		k := -1
		for i, q := range b.ps {
			if q == p {
				k = i
			}
		}
		out = append(out, k)
	}
	return out
}

func execStr(wl any, e *Env) *Violation {
	w := wl.(*strW)
	np := w.NParam
	if np < 1 || np > 100 {
		return nil
	}
	return e.Must("parameter streams", func() {
		b := &strBuilder{}
		for i := 0; i < np; i++ {
			b.ps = append(b.ps, nn.NewParam(newMat(true, 1, 1, []float64{float64(i)}, false)))
		}
		var segs []seg
		var f nn.ParamChannelFunc
		var m *strModel
		visit := func() { // what a visit of the model yields
			var direct []*nn.Param
			nn.ForEachParam(m, func(p *nn.Param) { direct = append(direct, p) })
			if !fits(segs, direct, false) {
				Fail("visit", "the direct visit yields the parameters %v, which is not a visit of the model", b.names(direct))
			}
			left := map[nn.Model]int{}
			for _, s := range b.models {
				left[s]++
			}
			nn.Apply(m, func(s nn.Model) {
				if left[s]--; left[s] < 0 {
					Fail("visit", "Apply reaches a %T once more than the model contains it", s)
				}
			})
			for s, n := range left {
				if n > 0 {
					Fail("visit", "Apply does not reach a %T of the model", s)
				}
			}
		}
		if w.UseList {
			var ps []*nn.Param
			ps, segs = b.list(w.List)
			f = nn.StreamParams(ps)
		} else {
			m, segs = b.model(w.Root)
			f = nn.Parameters(m)
			visit()
		}
		total := countSegs(segs)
		if total > 400 {
			return
		}
		consume := func(k int, c strCons) {
			ctx, cancel := vcontext.WithCancel(vcontext.Background())
			cancelled := false
			stop := func() { cancelled = true; cancel(); e.Fault("cancellation") }
			if c.Cancel == -2 {
				stop()
			} else if c.Cancel >= 0 && c.By == 2 {
				ctx, _ = vcontext.WithTimeout(vcontext.Background(), time.Duration(c.Delay)*time.Millisecond)
				cancelled = true // at some time
				e.Fault("deadline")
			}
			ch := f(ctx)
			if c.Cancel >= 0 && c.By == 1 {
				vsim.Go(func() {
					for i := 0; i < c.Delay; i++ {
						vsim.Step()
					}
					stop()
				})
			}
			var got []*nn.Param
			closed := false
			for {
				if c.Cancel >= 0 && c.By == 0 && len(got) >= c.Cancel && !cancelled {
					stop()
				}
				if cancelled && !c.Drain && len(got) >= c.Cancel {
					break
				}
				p, ok := vsim.Recv2(ch)
				if !ok {
					closed = true
					break
				}
				got = append(got, p)
				if len(got) > total {
					Fail("duplicate", "stream %d: %d parameters were delivered, a visit yields %d", k, len(got), total)
				}
				for i := 0; i < c.Work; i++ {
					vsim.Step()
				}
				if c.By == 2 {
					vtime.Sleep(time.Duration(c.Work) * time.Millisecond)
				}
			}
			if !cancelled && c.Cancel == -1 {
				if !fits(segs, got, false) {
					Fail("incomplete", "stream %d delivered the parameters %v, a visit yields %d, in another order or with other multiplicities", k, b.names(got), total)
				}
				e.Probe("complete stream")
			} else {
				if !fits(segs, got, true) {
					Fail("order", "stream %d delivered the parameters %v before and after its cancellation: not part of a visit", k, b.names(got))
				}
				if !closed {
					e.Probe("abandoned stream")
				} else if len(got) < total {
					e.Probe("stream cut short")
				}
			}
			if closed {
				if _, ok := vsim.Recv2(ch); ok {
					Fail("order", "stream %d delivered a parameter after its end", k)
				}
			}
			if !cancelled && closed {
				cancel()
			}
		}
		all := func() {
			fin := make(chan int, len(w.Streams))
			pending := 0
			for k, c := range w.Streams {
				if k >= 6 {
					break
				}
				if c.Sequence {
					for ; pending > 0; pending-- {
						vsim.Recv(fin)
					}
					CheckLeaks("a parameter stream")
				}
				pending++
				vsim.Go(func() {
					for i := 0; i < 1+modulo(c.Repeat-1, 3); i++ {
						consume(k, c)
					}
					vsim.Send(fin)(1)
				})
			}
			for ; pending > 0; pending-- {
				vsim.Recv(fin)
			}
			CheckLeaks("a parameter stream")
		}
		all()
		if w.Change && m != nil {
			b.models = nil
			var n *strModel
			n, segs = b.model(w.Then)
			*m = *n
			b.models[0] = m
			total = countSegs(segs)
			if total > 400 {
				return
			}
			visit()
			f = nn.Parameters(m)
			all()
			e.Probe("changed model")
		}
	})
}

func init() {
	register(&Prop{
		ID: "P08", Flavours: map[string]int{"sim": 1}, Quick: 200000, Thorough: 4000000,
		Gen: genStr, New: func() any { return &strW{} }, Exec: execStr,
		Rule: "a run is a random model (nested modules, lists, arrays, maps, sync.Map, custom traversals, embeddings) or list, with 1-3 consumers of its parameter stream that read slowly, stop, cancel or time out at some moment, under a random schedule; non-trivial if the scheduler switched goroutines beyond start-up",
		Real: "nn (model, traversal, Param), nn/embedding", Stub: "Go scheduler, channels, select, context, clock (simulated); map iteration order chosen by the simulator", Faults: []string{"cancellation", "deadline"},
	})
}
