package harness

import (
	"math"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat/gradfn"

	"spagosim/vsim"
)

// bigW is a large graph over scalars: far more operators than any bound on
// concurrency. All values and derivatives are positive.
type bigW struct {
	N     int // operators
	Kind  int // 0 chain, 1 wide, 2 random, 3 ladder of diamonds
	Seed  uint64
	Async int // of 8
	Users int // consumers of the last node
	Pass  int
	Split bool // the consumers are separate outputs
}

func genBig(r *Rng, p float64) *bigW {
	if !r.P(p) {
		return nil
	}
	return &bigW{N: int(50 * math.Exp(r.F()*math.Log(50))), Kind: r.Intn(4), Seed: r.U64(),
		Async: Pick(r, 0, 1, 4, 8), Users: Pick(r, 1, 2, 2, 3, 40), Pass: Pick(r, 1, 1, 2), Split: r.P(.3)}
}

func execBig(w *bigW, e *Env) *Violation {
	n := w.N
	if n > 4000 {
		n = 4000
	}
	if n < 1 {
		n = 1
	}
	users := 1 + modulo(w.Users-1, 64)
	type node struct{ a, b int }
	const leaves = 2
	r := NewRng(w.Seed)
	nodes := make([]node, leaves)
	mode := make([]bool, leaves)
	for i := leaves; i < leaves+n; i++ {
		x := node{i - 1, -1}
		switch modulo(w.Kind, 4) {
		case 1:
			x.a = r.Intn(leaves)
		case 2:
			x.a = r.Intn(i)
			if r.P(.5) {
				x.a = i - 1 - r.Intn(min(i, 4))
			}
			if r.P(.4) {
				x.b = r.Intn(i)
			}
		case 3:
			if i%3 == 1 && i >= leaves+3 {
				x = node{i - 1, i - 2}
			} else if i >= leaves+3 {
				x.a = i - 1 - i%3
			}
		}
		nodes = append(nodes, x)
		mode = append(mode, r.Intn(8) < w.Async)
	}
	if modulo(w.Kind, 4) == 1 { // a tree of sums joins everything
		for lo := leaves; lo < len(nodes)-1; lo += 2 {
			nodes = append(nodes, node{lo, lo + 1})
			mode = append(mode, false)
		}
	}
	last := len(nodes) - 1
	var outs []int
	for k := 0; k < users; k++ {
		nodes = append(nodes, node{last, -1})
		mode = append(mode, r.Intn(8) < w.Async)
		outs = append(outs, len(nodes)-1)
	}
	if !w.Split {
		acc := outs[0]
		for _, o := range outs[1:] {
			nodes = append(nodes, node{acc, o})
			mode = append(mode, false)
			acc = len(nodes) - 1
		}
		outs = []int{acc}
	}
	// every node is (a + b)/2, or its only operand
	val := []float64{3, 5}
	for _, x := range nodes[leaves:] {
		if x.b < 0 {
			val = append(val, val[x.a])
		} else {
			val = append(val, (val[x.a]+val[x.b])/2)
		}
	}
	g := make([]float64, len(nodes))
	for _, o := range outs {
		g[o]++
	}
	for i := len(nodes) - 1; i >= leaves; i-- {
		if x := nodes[i]; x.b < 0 {
			g[x.a] += g[i]
		} else {
			g[x.a] += g[i] / 2
			g[x.b] += g[i] / 2
		}
	}
	near := func(a, b float64) bool { return math.Abs(a-b) <= 1e-9*(math.Abs(a)+math.Abs(b)) }
	if n > 256 {
		e.Probe("hundreds of operators")
	}
	return e.Must("large graph", func() {
		half := newMat(true, 1, 1, []float64{.5}, false)
		ts := []T{newMat(true, 1, 1, []float64{3}, true), newMat(true, 1, 1, []float64{5}, true)}
		var inner []T
		run := func(i int, o *ag.Operator) T { return o.Run(mode[i]) }
		for i, x := range nodes[leaves:] {
			i += leaves
			if x.b < 0 {
				ts = append(ts, run(i, ag.NewOperator(gradfn.NewCopy(ts[x.a]))))
			} else {
				sum := run(i, ag.NewOperator(gradfn.NewAdd(ts[x.a], ts[x.b])))
				inner = append(inner, sum)
				ts = append(ts, ag.ProdScalar(sum, half))
			}
		}
		for pass := 1; pass <= 1+modulo(w.Pass-1, 3); pass++ {
			var xs []T
			for _, o := range outs {
				xs = append(xs, ts[o])
			}
			if pass > 1 { // start again
				for _, t := range append(inner, ts...) {
					t.ZeroGrad()
				}
			}
			if err := ag.Backward(xs...); err != nil {
				Fail("error", "Backward of a large graph returned %v", err)
			}
			for i, t := range ts {
				if v := vals(t); !near(v[0], val[i]) {
					Fail("value", "node %d of %d of a large graph is %v, expected %v", i, len(ts), v[0], val[i])
				}
				got := gradVals(t)
				if g[i] == 0 && (got == nil || got[0] == 0) {
					continue
				}
				if got == nil || !near(got[0], g[i]) {
					Fail("gradient", "the gradient of node %d of %d of a large graph is %v, expected %v", i, len(ts), got, g[i])
				}
			}
			CheckLeaks("Backward of a large graph")
		}
		vsim.Quiesce()
	})
}
