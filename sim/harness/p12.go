package harness

import (
	"fmt"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat/rand"
	"github.com/nlpodyssey/spago/mat/rand/normal"
	"github.com/nlpodyssey/spago/mat/rand/uniform"

	"spagosim/refrand"
	"spagosim/vsim"
)

// rndW is a concurrent history of one locked generator.
type rndW struct {
	Seed   uint64
	Global bool // the generator of package ag
	Procs  [][]rndOp
	Free   int // draws per goroutine from the default source (no model, only distinctness)
}

type rndOp struct {
	Op   int
	N    uint64
	Work int
	Big  int // added to the size of permutations, shuffles and reads
}

const rndKinds = 20

func genRnd(r *Rng) any {
	w := &rndW{Seed: r.seed(.1), Global: r.P(.2)}
	if r.P(.05) {
		w.Free = r.Range(2, 12)
	}
	kinds := []int{}
	for k := 0; k < rndKinds; k++ {
		if r.P(.5) {
			kinds = append(kinds, k)
		}
	}
	if len(kinds) == 0 || r.P(.2) {
		kinds = []int{r.Intn(rndKinds), r.Intn(rndKinds)}
	}
	np := r.Range(2, 5)
	big := 0.
	if r.P(.15) {
		big = .3
	}
	for i := 0; i < np; i++ {
		var ops []rndOp
		for k := r.Range(1, 7); k > 0; k-- {
			o := rndOp{Op: kinds[r.Intn(len(kinds))], N: uint64(r.Range(1, 9)), Work: r.Intn(3)}
			if r.P(.3) {
				o.N = r.U64() >> r.Intn(64)
			}
			if o.Op == 16 && !r.P(.4) {
				o.Op = 2
			}
			if r.P(.03) {
				o.N = 0
			}
			if r.P(big) {
				o.Big = []int{20, 60, 130, 300, 600, 1100}[r.Intn(6)]
				if r.P(.05) {
					o.Big = []int{2100, 4200, 9000}[r.Intn(3)]
				}
			}
			ops = append(ops, o)
		}
		w.Procs = append(w.Procs, ops)
	}
	return w
}

// rndGen is what a locked generator and its sequential reference have in common.
type rndGen interface {
	Seed(uint64)
	TwoInt63() (int64, int64)
	Int63() int64
	Uint32() uint32
	Uint64() uint64
	Uint64n(uint64) uint64
	Int31() int32
	Int() int
	Int63n(int64) int64
	Int31n(int32) int32
	Intn(int) int
	NormFloat64() float64
	Float32() float32
	Float64() float64
	Perm(int) []int
	Read([]byte) (int, error)
	Shuffle(int, func(i, j int))
}

// call performs one operation and describes its outcome.
func (o rndOp) call(g rndGen, step func()) (out string) {
	defer func() {
		if e := recover(); e != nil {
			out = "panic"
		}
	}()
	lr, _ := g.(*rand.LockedRand) // nil: the reference
	sm := int(o.N % 12)
	if o.Big > 0 && o.Big < 10000 {
		sm += o.Big
	}
	switch modulo(o.Op, rndKinds) {
	case 0:
		return fmt.Sprint(g.Int63())
	case 1:
		return fmt.Sprint(g.Uint32())
	case 2:
		return fmt.Sprint(g.Uint64())
	case 3:
		return fmt.Sprint(g.Uint64n(o.N))
	case 4:
		return fmt.Sprint(g.Int31())
	case 5:
		return fmt.Sprint(g.Int())
	case 6:
		return fmt.Sprint(g.Int63n(int64(o.N)))
	case 7:
		return fmt.Sprint(g.Int31n(int32(o.N)))
	case 8:
		return fmt.Sprint(g.Intn(int(o.N)))
	case 9:
		return fmt.Sprint(g.NormFloat64())
	case 10:
		return fmt.Sprint(g.Float32())
	case 11:
		return fmt.Sprint(g.Float64())
	case 12:
		if o.N == 0 {
			g.Perm(-1)
		}
		return fmt.Sprint(g.Perm(sm))
	case 13:
		b := make([]byte, sm)
		n, err := g.Read(b)
		return fmt.Sprint(b, n, err)
	case 14:
		x := make([]int, sm)
		for i := range x {
			x[i] = i
		}
		if o.N == 0 {
			g.Shuffle(-1, nil)
		}
		g.Shuffle(len(x), func(i, j int) {
			step()
			x[i], x[j] = x[j], x[i]
		})
		return fmt.Sprint(x)
	case 15:
		a, b := g.TwoInt63()
		return fmt.Sprint(a, b)
	case 16:
		g.Seed(o.N)
		return "seeded"
	case 17:
		if lr == nil {
			return fmt.Sprint(g.Float64()*4 - 1)
		}
		return fmt.Sprint(uniform.New(-1, 3, lr).Next())
	case 18:
		if lr == nil {
			return fmt.Sprint(g.NormFloat64()*2 + 1)
		}
		return fmt.Sprint(normal.New(2, 1, lr).Next())
	default:
		x := make([]int, sm)
		for i := range x {
			x[i] = i
		}
		if lr == nil {
			g.Shuffle(len(x), func(i, j int) { x[i], x[j] = x[j], x[i] })
			return fmt.Sprint(x)
		}
		return fmt.Sprint(rand.ShuffleInPlace(x, lr))
	}
}

type rndEvent struct {
	op       rndOp
	proc     int
	inv, ret int64
	out      string
}

// linearizable searches for an order of the calls that a sequential generator
// reproduces and that respects the order of calls that did not overlap.
func linearizable(seed uint64, h []rndEvent) bool {
	n := len(h)
	order := []int{}
	done := make([]bool, n)
	seen := map[string]bool{}
	fuel := 20000
	// replayed returns a generator after the calls in order.
	replayed := func() rndGen {
		g := refrand.New(refrand.NewSource(seed))
		for _, i := range order {
			h[i].op.call(g, func() {})
		}
		return g
	}
	var search func() bool
	search = func() bool {
		if len(order) == n {
			return true
		}
		if fuel--; fuel < 0 {
			return true // too ambiguous to judge
		}
		g := replayed()
		key := fmt.Sprint(done, g.Uint64(), g.Uint64())
		if seen[key] {
			return false
		}
		seen[key] = true
		first := int64(-1) // the earliest end of a call that is not ordered yet
		for i, e := range h {
			if !done[i] && (first < 0 || e.ret < first) {
				first = e.ret
			}
		}
		for i, e := range h {
			if done[i] || e.inv > first {
				continue
			}
			if e.op.call(replayed(), func() {}) != e.out {
				continue
			}
			done[i] = true
			order = append(order, i)
			if search() {
				return true
			}
			order = order[:len(order)-1]
			done[i] = false
		}
		return false
	}
	return search()
}

func execRnd(wl any, e *Env) *Violation {
	w := wl.(*rndW)
	var h []rndEvent
	v := e.Must("locked generator", func() {
		if w.Free > 0 && w.Free < 100 {
			// The order of its draws is not specified, but no draw may be delivered twice.
			got := map[float64]bool{}
			fin := make(chan []float64, 3)
			for range [3]int{} {
				vsim.Go(func() {
					var xs []float64
					for i := 0; i < w.Free; i++ {
						xs = append(xs, rand.Float[float64]())
					}
					vsim.Send(fin)(xs)
				})
			}
			for range [3]int{} {
				for _, x := range vsim.Recv(fin) {
					if got[x] {
						Fail("duplicate", "the default source delivered %v twice", x)
					}
					got[x] = true
				}
			}
		}
		var g *rand.LockedRand
		if w.Global {
			g = ag.ManualSeed(w.Seed)
			if g != ag.Rand() {
				Fail("global", "ManualSeed returned another generator than Rand")
			}
		} else {
			g = rand.NewLockedRand(w.Seed)
		}
		if extreme(w.Seed) {
			e.Fault("extreme random number")
		}
		n := 0
		fin := make(chan int, len(w.Procs))
		for p, ops := range w.Procs {
			if n += len(ops); n > 40 {
				ops = nil
			}
			vsim.Go(func() {
				g := g
				for _, o := range ops {
					if w.Global {
						g = ag.Rand()
					}
					ev := rndEvent{op: o, proc: p, inv: vsim.Seq()}
					ev.out = o.call(g, vsim.Step)
					ev.ret = vsim.Seq()
					h = append(h, ev)
					for k := 0; k < o.Work; k++ {
						vsim.Step()
					}
				}
				vsim.Send(fin)(1)
			})
		}
		for range w.Procs {
			vsim.Recv(fin)
		}
		CheckLeaks("drawing")
	})
	if v != nil {
		return v
	}
	over := 0
	for i, a := range h {
		if len(a.out) > 5 && a.out[:5] == "panic" {
			e.Fault("invalid argument")
		}
		for _, b := range h[:i] {
			if a.inv < b.ret && b.inv < a.ret {
				over++
			}
		}
		e.Note(HashString(a.out))
	}
	if over > 0 {
		e.Probe("history with overlapping calls")
	}
	if !linearizable(w.Seed, h) {
		s := ""
		for _, a := range h {
			s += fmt.Sprintf("\ngoroutine %d: [%d,%d] operation %d(%d) = %s", a.proc, a.inv, a.ret, modulo(a.op.Op, rndKinds), a.op.N, a.out)
		}
		return bad("linearizability", "no sequential order of the calls explains the values drawn:%s", s)
	}
	return nil
}

func init() {
	register(&Prop{
		ID: "P12", Flavours: map[string]int{"sim": 1}, Quick: 150000, Thorough: 3000000,
		Gen: genRnd, New: func() any { return &rndW{} }, Exec: execRnd,
		Rule: "a run is a concurrent history of 2-35 calls of all operations of one locked generator from 2-5 goroutines (including reseeding and calls with invalid arguments) under a random schedule; non-trivial if the scheduler switched goroutines beyond start-up",
		Real: "mat/rand, mat/internal/rand, ag (global generator)", Stub: "Go scheduler, sync.Mutex (simulated)", Faults: []string{"invalid argument", "extreme random number"},
	})
}
