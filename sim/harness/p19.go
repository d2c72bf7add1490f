package harness

import (
	"fmt"
	"sort"

	"github.com/nlpodyssey/spago/mat/rand"

	"spagosim/vsim"
)

// selW is a set of goroutines that select at random from the shared source.
type selW struct {
	Seed  uint64
	Procs [][]selOp
}

type selOp struct {
	Op    int
	N     int
	Max   int
	Big   int // the range is as many times larger, if positive
	Mask  int // of the values that are not acceptable
	W     []int
	Scale int
	F32   bool
	Reps  int
	Seed  uint64
	Src   bool // a generator of one's own
}

const selKinds = 5

func genSel(r *Rng) any {
	w := &selW{Seed: r.seed(.25)}
	for p := r.Range(1, 4); p > 0; p-- {
		var ops []selOp
		for k := r.Range(1, 3); k > 0; k-- {
			o := selOp{Op: r.Intn(selKinds), Max: r.Range(1, 9), Seed: r.seed(.15), Src: r.P(.4), F32: r.P(.6), Reps: 1}
			if r.P(.6) {
				o.Mask = r.Intn(1 << o.Max)
				if r.P(.5) {
					o.Mask &= r.Intn(1 << o.Max)
				}
			}
			free := 0
			for i := 0; i < o.Max; i++ {
				free += 1 - o.Mask>>i&1
			}
			o.N = r.Intn(free + 1)
			if r.P(.3) {
				o.N = free
			}
			if r.P(.25) {
				o.Big = r.Range(2, 40)
				if o.N = Pick(r, 1000, r.Intn(60)); o.Op == 1 {
					o.N = r.Intn(12)
				}
			} else if r.P(.3) {
				o.Reps = 200
				if o.N > 3 && o.Op < 2 {
					o.Reps = 60
				}
			}
			if o.Op == 3 {
				for i := r.Range(1, 8); i > 0; i-- {
					o.W = append(o.W, r.Intn(4))
				}
				if r.P(.4) {
					o.Scale = r.Range(2, 1500) // so many equal parts: their sum is not quite one
					o.Reps = 200
					if r.P(.5) {
						o.W[0], o.F32 = 0, true
					}
				}
			}
			ops = append(ops, o)
		}
		w.Procs = append(w.Procs, ops)
	}
	return w
}

func (o selOp) max() int {
	return (modulo(o.Max-1, 12) + 1) * min(max(o.Big, 1), 40)
}

func (o selOp) ok(i int) bool { return o.Mask>>(i%12)&1 == 0 }

// do performs one request and checks its outcome; it returns what was selected.
func (o selOp) do() []int {
	m := o.max()
	var free []int
	for i := 0; i < m; i++ {
		if o.ok(i) {
			free = append(free, i)
		}
	}
	n := min(max(o.N, 0), len(free))
	calls := 0
	valid := func(r int) bool {
		vsim.Step()
		if r < 0 || r >= m {
			Fail("range", "the value %d was drawn, which is not in [0,%d)", r, m)
		}
		// Each of the acceptable values comes up in one draw of m.
		if calls++; calls > 400*m*(n+1) {
			Fail("progress", "%d values of %v were requested: no end after %d draws", n, free, calls)
		}
		return o.ok(r)
	}
	check := func(name string, got []int) {
		if len(got) != n {
			Fail("count", "%s returned %v: %d of %d acceptable values (of %d) were requested", name, got, n, len(free), m)
		}
		seen := map[int]bool{}
		for _, x := range got {
			if x < 0 || x >= m || !o.ok(x) || seen[x] {
				Fail("value", "%s returned %v: the acceptable values are %v", name, got, free)
			}
			seen[x] = true
		}
	}
	perm := func() []int {
		x := make([]int, m)
		for i := range x {
			x[i] = i
		}
		return x
	}
	isPerm := func(name string, x []int) {
		s := append([]int(nil), x...)
		sort.Ints(s)
		if fmt.Sprint(s) != fmt.Sprint(perm()) {
			Fail("permutation", "%s left %v of the numbers below %d", name, x, m)
		}
	}
	switch modulo(o.Op, selKinds) {
	case 0:
		got := rand.GetUniqueRandomInt(n, m, valid)
		check("GetUniqueRandomInt", got)
		return got
	case 1:
		ind := perm()
		got := rand.GetUniqueRandomIndices(n, ind, valid)
		check("GetUniqueRandomIndices", got)
		isPerm("GetUniqueRandomIndices", ind)
		return got
	case 2:
		x := perm()
		if !o.Src {
			y := rand.ShuffleInPlace(x, nil)
			isPerm("ShuffleInPlace", x)
			isPerm("ShuffleInPlace (result)", y)
			return y[:1]
		}
		y := rand.ShuffleInPlace(x, rand.NewLockedRand(o.Seed))
		isPerm("ShuffleInPlace", x)
		z := rand.ShuffleInPlace(perm(), rand.NewLockedRand(o.Seed))
		if fmt.Sprint(y) != fmt.Sprint(z) || fmt.Sprint(x) != fmt.Sprint(z) {
			Fail("seed", "ShuffleInPlace with one seed gave %v and %v", y, z)
		}
		return nil
	case 4:
		return o.bounded(m)
	}
	return nil
}

var bounded = rand.NewLockedRand(1)

// bounded draws one number below m in each of the ways that there are.
func (o selOp) bounded(m int) []int {
	in := func(name string, x uint64, neg bool) {
		if neg || x >= uint64(m) {
			Fail("range", "%s(%d) returned %d", name, m, int64(x))
		}
	}
	g := bounded
	a, b, c, d := g.Int31n(int32(m)), g.Int63n(int64(m)), g.Intn(m), g.Uint64n(uint64(m))
	in("Int31n", uint64(a), a < 0)
	in("Int63n", uint64(b), b < 0)
	in("Intn", uint64(c), c < 0)
	in("Uint64n", d, false)
	x, y := g.Float64(), g.Float32()
	if !(x >= 0 && x < 1) || !(y >= 0 && y < 1) {
		Fail("range", "Float64 and Float32 returned %v and %v", x, y)
	}
	p := g.Perm(m)
	s := append([]int(nil), p...)
	sort.Ints(s)
	for i := range s {
		if s[i] != i {
			Fail("permutation", "Perm(%d) returned %v", m, p)
		}
	}
	h := rand.NewLockedRand(o.Seed)
	first := fmt.Sprint(h.Int31n(1<<30), h.Int63n(1<<40), h.Intn(1<<30), h.Uint64n(1<<50), h.Perm(m), h.Uint64())
	h.Seed(o.Seed)
	if again := fmt.Sprint(h.Int31n(1<<30), h.Int63n(1<<40), h.Intn(1<<30), h.Uint64n(1<<50), h.Perm(m), h.Uint64()); again != first {
		Fail("seed", "with one seed, the draws were %s and %s", first, again)
	}
	return []int{int(a), m + int(b), 2*m + int(c), 3*m + int(d), 4*m + p[0], 5*m + p[m-1]}
}

// weights are those of the choice, and their sum.
func (o selOp) weights() (w []int, sum int) {
	k := min(max(o.Scale, 1), 2000)
	for i := 0; i < k; i++ {
		for _, x := range o.W {
			x = modulo(x, 8)
			if i > 0 && x > 0 {
				x = 1
			}
			w = append(w, x)
			sum += x
		}
	}
	return
}

// choice returns the choice among the weights of o.
func choice[T float32 | float64](o selOp) func() []int {
	w, sum := o.weights()
	d := make([]T, len(w))
	for i, x := range w {
		d[i] = T(x) / T(max(sum, 1))
	}
	return func() []int {
		if sum == 0 {
			return nil
		}
		return []int{choose(w, d)}
	}
}

func choose[T float32 | float64](w []int, d []T) int {
	i := rand.WeightedChoice(d)
	if i < 0 || i >= len(w) || w[i] == 0 {
		Fail("weight", "WeightedChoice returned the index %d, which has no probability, of %d weights", i, len(w))
	}
	return i
}

func execSel(wl any, e *Env) *Violation {
	w := wl.(*selW)
	return e.Must("random selections", func() {
		vsim.Reseed(w.Seed)
		bounded = rand.NewLockedRand(w.Seed)
		if extreme(w.Seed) {
			e.Fault("extreme random number")
		}
		fin := make(chan int, len(w.Procs))
		for _, ops := range w.Procs {
			vsim.Go(func() {
				for _, o := range ops {
					reps := min(max(o.Reps, 1), 400)
					seen := map[int]bool{}
					do := o.do
					if modulo(o.Op, selKinds) == 3 {
						if do = choice[float64](o); o.F32 {
							do = choice[float32](o)
						}
					}
					for k := 0; k < reps; k++ {
						for _, x := range do() {
							seen[x] = true
						}
					}
					e.Probe("selection checked")
					if reps >= 200 {
						o.reach(seen)
						e.Probe("reachability checked")
					}
				}
				vsim.Send(fin)(1)
			})
		}
		for range w.Procs {
			vsim.Recv(fin)
		}
		CheckLeaks("selecting")
	})
}

// reach checks that everything that may be selected was, at least once in 200
// selections; none of it has a probability of less than one in nine (one in six, if weighted).
func (o selOp) reach(seen map[int]bool) {
	m := o.max()
	switch modulo(o.Op, selKinds) {
	case 0, 1:
		if o.N <= 0 || m > 9 {
			return
		}
		for i := 0; i < m; i++ {
			if o.ok(i) && !seen[i] {
				Fail("reach", "the acceptable value %d of %d was never selected (operation %d, %d at once)", i, m, o.Op, o.N)
			}
		}
	case 2:
		if o.Src || m > 9 {
			return
		}
		for i := 0; i < m; i++ {
			if !seen[i] {
				Fail("reach", "the element %d of %d never came first", i, m)
			}
		}
	case 4:
		if m > 9 {
			return
		}
		for i := 0; i < 6*m; i++ {
			if !seen[i] {
				Fail("reach", "%s(%d) never gave %d", []string{"Int31n", "Int63n", "Intn", "Uint64n", "Perm, first", "Perm, last"}[i/m], m, i%m)
			}
		}
	default:
		w, sum := o.weights()
		for i, x := range w {
			if x*6 >= sum && sum > 0 && !seen[i] {
				Fail("reach", "index %d of weight %d/%d was never chosen", i, x, sum)
			}
		}
	}
}

func init() {
	register(&Prop{
		ID: "P19", Flavours: map[string]int{"sim": 1}, Quick: 8000, Thorough: 400000,
		Gen: genSel, New: func() any { return &selW{} }, Exec: execSel,
		NonTrivial: func(e *Env) bool { return e.Probes["selection checked"] > 0 },
		Rule:       "a run is 1-4 goroutines that perform 1-3 requests each (unique numbers, unique indices, shuffles, weighted choices; up to 200 times) on the shared source under a drawn seed and schedule; non-trivial if a selection was checked",
		Real:       "mat/rand, mat/internal/rand", Stub: "Go scheduler, sync.Mutex (simulated); the seed of the default source",
		Faults: []string{"adverse sequences of random numbers (by search over seeds)", "extreme random number"},
	})
}
