// Package harness holds the simulated workloads, reference models and oracles,
// one set per property.
package harness

import (
	"encoding/json"
	"fmt"
	"math"
	"sort"
	"strings"

	"spagosim/vsim"
)

// Rng is a small deterministic generator (splitmix64).
type Rng struct{ s uint64 }

// NewRng returns a generator.
func NewRng(seed uint64) *Rng { return &Rng{seed} }

// U64 draws 64 bits.
func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Intn draws from [0,n).
func (r *Rng) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// Range draws from [a,b].
func (r *Rng) Range(a, b int) int { return a + r.Intn(b-a+1) }

// F draws from [0,1).
func (r *Rng) F() float64 { return float64(r.U64()>>11) / (1 << 53) }

// P is true with probability p.
func (r *Rng) P(p float64) bool { return r.F() < p }

// Pick returns one of the arguments.
func Pick[T any](r *Rng, xs ...T) T { return xs[r.Intn(len(xs))] }

// Size draws a size in [1,max], small ones more often.
func (r *Rng) Size(max int) int {
	if max <= 1 {
		return 1
	}
	v := int(math.Exp(r.F() * math.Log(float64(max)+1)))
	if v < 1 {
		v = 1
	}
	if v > max {
		v = max
	}
	return v
}

// Mix combines two numbers into a seed.
func Mix(a, b uint64) uint64 {
	r := Rng{a ^ b*0xd6e8feb86659fd93}
	r.U64()
	return r.U64()
}

// HashString hashes a string into a seed.
func HashString(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

// Violation describes a broken property. Class groups violations for
// minimisation; Key identifies the specific finding.
type Violation struct {
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

func bad(class, format string, a ...any) *Violation {
	return &Violation{Class: class, Msg: fmt.Sprintf(format, a...)}
}

// Prop is one simulated property.
type Prop struct {
	ID string
	// Flavours lists the build flavours and their weights in the run mix.
	Flavours map[string]int
	// Runs per tier.
	Quick, Thorough int
	Gen             func(r *Rng) any
	New             func() any
	Exec            func(w any, e *Env) *Violation
	// NonTrivial tells, after a run, whether it counted; nil: at least one
	// context switch away from the main goroutine happened.
	NonTrivial func(e *Env) bool
	Rule       string
	Real, Stub string
	Faults     []string // fault kinds this property injects
}

// Props is the registry.
var Props = map[string]*Prop{}

func register(p *Prop) { Props[p.ID] = p }

// RunRec records one simulated run.
type RunRec struct {
	Label   string          `json:"label"`
	Outcome string          `json:"outcome"`
	Detail  string          `json:"detail,omitempty"`
	Script  []vsim.Decision `json:"script"`
	Hash    uint64          `json:"hash"`
	Sync    uint64          `json:"sync"`
	Trace   []string        `json:"trace,omitempty"`
}

// Env is the environment of one execution of a workload.
type Env struct {
	Seed     uint64
	Replay   bool
	Script   [][]vsim.Decision
	Trace    bool
	Thorough bool

	Runs   []RunRec
	Ticks  int64
	VTime  int64
	Switch int64
	Preem  int64
	SyncN  int64
	Spawn  int64
	Choice int64
	Faults map[string]int64
	Probes map[string]int64
	log    uint64
	policy string
}

// Fault counts an injected fault.
func (e *Env) Fault(kind string) {
	if vsim.RaceEnabled {
		vsim.Count("f", kind)
		return
	}
	if e.Faults == nil {
		e.Faults = map[string]int64{}
	}
	e.Faults[kind]++
}

// Probe counts a rare condition that was reached.
func (e *Env) Probe(name string) {
	if vsim.RaceEnabled {
		vsim.Count("p", name)
		return
	}
	if e.Probes == nil {
		e.Probes = map[string]int64{}
	}
	e.Probes[name]++
}

// Opt adjusts the schedule of one simulated run.
type Opt func(c *vsim.Config)

// Sequential makes a run use the default schedule (no preemption, no fault).
func Sequential(c *vsim.Config) {
	c.Policy, c.P, c.Q, c.Env = "block", 0, 0, 0
	c.Replay, c.Script = true, nil
}

// NoEnv disables environment choices (map orders, select choices).
func NoEnv(c *vsim.Config) { c.Env = 0 }

func (e *Env) config(k int) vsim.Config {
	r := NewRng(Mix(e.Seed, uint64(k)+1000))
	c := vsim.Config{Seed: r.U64()}
	c.Env = Pick(r, 0, 0.5, 0.5, 1.0)
	switch x := r.Intn(100); {
	case x < 15:
		c.Policy = "block"
	case x < 50:
		c.Policy = "random"
		c.P = Pick(r, .3, .1, .03, .01, .003)
		c.Q = Pick(r, 0, .1, .5)
	case x < 75:
		c.Policy = "sync"
		c.Q = Pick(r, .05, .2, .5)
	case x < 95:
		c.Policy = "pct"
		c.Depth = r.Range(1, 4)
		c.Horizon = int64(math.Exp(math.Log(100) + r.F()*math.Log(200)))
	default:
		c.Policy = "starve"
		c.Victim = r.Intn(12)
		c.P = Pick(r, .3, .03)
		c.Q = Pick(r, .1, .5)
	}
	return c
}

// Sim runs main under the simulator.
func (e *Env) Sim(label string, main func(), opts ...Opt) vsim.Result {
	k := len(e.Runs)
	c := e.config(k)
	if e.Replay {
		c.Replay = true
		if k < len(e.Script) {
			c.Script = e.Script[k]
		}
	}
	for _, o := range opts {
		o(&c)
	}
	c.Trace = e.Trace
	c.MaxTicks = 30_000_000
	res := vsim.Run(c, func() {
		vsim.Boot()
		vsim.Reseed(c.Seed)
		main()
	})
	e.Runs = append(e.Runs, RunRec{Label: label, Outcome: res.Outcome, Detail: res.Detail, Script: res.Decisions, Hash: res.FullHash, Sync: res.SyncHash, Trace: res.Trace})
	e.Ticks += res.Ticks
	e.VTime += res.VTime
	e.Switch += res.Switches
	e.Preem += res.Preempts
	e.SyncN += res.SyncOps
	e.Spawn += int64(res.Spawned)
	e.Choice += res.Choices
	e.policy = c.Policy
	return res
}

// Must runs main, which has to end normally.
func (e *Env) Must(label string, main func(), opts ...Opt) *Violation {
	return Abnormal(label, e.Sim(label, main, opts...))
}

// Abnormal turns an abnormal end of a run into a violation.
func Abnormal(label string, r vsim.Result) *Violation {
	switch r.Outcome {
	case "ok":
		return nil
	case "fail":
		cl, msg, ok := strings.Cut(r.Detail, "|")
		if !ok {
			cl, msg = "oracle", r.Detail
		}
		return &Violation{Class: cl, Msg: msg}
	case "deadlock":
		return bad("stuck", "%s: the program got stuck:\n%s", label, r.Detail)
	case "ticks":
		return bad("livelock", "%s: %s", label, r.Detail)
	case "panic":
		return bad("panic", "%s: %s", label, r.Detail)
	case "fatal", "exit":
		return bad("fatal", "%s: the process ended: %s", label, r.Detail)
	}
	return bad(r.Outcome, "%s: %s", label, r.Detail)
}

// Fail ends the current simulated run with a violation.
func Fail(class, format string, a ...any) {
	vsim.Crash("fail", class+"|"+fmt.Sprintf(format, a...))
}

// CheckLeaks fails if goroutines are left behind. Main goroutine only.
func CheckLeaks(what string) {
	if l := vsim.Quiesce(); len(l) > 0 {
		Fail("leak", "%s left goroutines behind:\n%s", what, strings.Join(l, "\n"))
	}
}

// Note adds to the event log digest of the execution.
func (e *Env) Note(x uint64) { e.log = Mix(e.log, x) }

// Digest summarises everything observed, for determinism audits.
func (e *Env) Digest() uint64 {
	h := e.log
	for _, r := range e.Runs {
		h = Mix(h, r.Hash)
		h = Mix(h, r.Sync)
		h = Mix(h, HashString(r.Outcome))
		h = Mix(h, uint64(len(r.Script)))
	}
	return h
}

// SyncDigest identifies the interleaving of synchronisation operations.
func (e *Env) SyncDigest() uint64 {
	h := uint64(0)
	for _, r := range e.Runs {
		h = Mix(h, r.Sync)
	}
	return h
}

// Marshal encodes a workload.
func Marshal(w any) json.RawMessage {
	b, err := json.Marshal(w)
	if err != nil {
		panic(err)
	}
	return b
}

// Catch runs one execution, turning panics of the harness outside simulated
// goroutines into an internal error.
func (p *Prop) Run(w any, e *Env) (v *Violation) {
	v = p.Exec(w, e)
	if vsim.RaceEnabled {
		vsim.Counts(func(group, name string, n int64) {
			m := &e.Probes
			if group == "f" {
				m = &e.Faults
			}
			if *m == nil {
				*m = map[string]int64{}
			}
			(*m)[name] += n
		})
	}
	return v
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// RunSeed is the seed of run number idx of a property.
func RunSeed(seed uint64, prop string, idx int) uint64 {
	return Mix(Mix(seed, HashString(prop)), uint64(idx)+1)
}
