// Package vsim is the deterministic simulator: real goroutines, parked and
// released one at a time by a seeded scheduler.
//
// Everything in this package and below it is compiled with -race=false in the
// race flavour (see build.go of the driver): the scheduler's own state and its
// hand-offs must be invisible to the race detector, which sees only the
// happens-before edges that the simulated primitives announce explicitly.
// For the same reason shared state here avoids built-in maps (their runtime
// implementation is instrumented).
package vsim

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"unsafe"
)

type gstate uint8

const (
	gRunnable gstate = iota
	gRunning
	gBlocked
	gQuiescing
	gDone
)

// G is a simulated goroutine.
type G struct {
	idx     int
	path    string
	hash    uint64
	nchild  int
	nchoice int64
	ticks   int64
	state   gstate
	why     string
	obj     unsafe.Pointer
	wake    chan struct{}
	prio    uint64
	rpre    []Decision // replay: remaining preemptions, by tick
	rblk    []Decision // replay: block decisions
	rcho    []Decision // replay: environment choices
	site    string
	daemon  bool // started by the initialization of the program
}

// Decision is one non-default decision of the simulator.
// K is "p" (preemption at local tick T, V = path of the goroutine run next),
// "b" (choice of the next goroutine when G blocks or ends at tick T) or
// "c" (environment choice number T of G, N = chosen alternative).
type Decision struct {
	G string `json:"g"`
	T int64  `json:"t"`
	K string `json:"k"`
	V string `json:"v,omitempty"`
	N int    `json:"n,omitempty"`
	S string `json:"s,omitempty"` // label of an environment choice
}

// Config describes one simulated run.
type Config struct {
	Seed     uint64
	Policy   string  // "random", "sync", "pct", "block", "starve"
	P        float64 // preemption probability per statement
	Q        float64 // preemption probability per synchronisation operation
	Depth    int     // pct: number of priority change points
	Horizon  int64   // pct: ticks over which change points are spread
	Victim   int     // starve: spawn index of the starved goroutine
	Replay   bool
	Script   []Decision
	MaxTicks int64
	Trace    bool
	Env      float64 // probability that an environment choice is not the default
	KillAt   int64   // the process is killed at this synchronisation operation, if positive
}

// Result describes how a run ended.
type Result struct {
	Outcome   string // ok, deadlock, panic, fatal, exit, ticks, fail
	Detail    string
	Ticks     int64
	Switches  int64
	Preempts  int64
	SyncOps   int64
	Spawned   int
	MaxLive   int
	VTime     int64
	Choices   int64
	SyncHash  uint64
	FullHash  uint64
	Decisions []Decision
	Leaked    []string
	Trace     []string
}

type run struct {
	cfg       Config
	gs        []*G // live goroutines
	spawned   int
	done      chan struct{}
	ended     bool
	res       Result
	start     int64
	budget0   int64
	rng       uint64
	now       int64
	timers    []*Timer
	tseq      int64
	chans     chanTable
	changeAt  []int64
	lowest    uint64
	woke      bool
	consec    int64
	mainG     *G
	cand      []*G
	probes    []probe
	lastTick  int64
	inFair    bool
	objIDs    ptrTable
	syncCount int64
	booting   bool
}

type probe struct {
	name string
	n    int64
}

var (
	budget int64 = 1 << 62
	cur    *G
	rt     *run
	epoch  uint32    // number of the run
	base   chanTable // channel state created outside any run (package init)
	// NCPU is the simulated number of CPUs, fixed for the process.
	NCPU = 4
)

func init() {
	if s := os.Getenv("SPAGOSIM_NCPU"); s != "" {
		if n, err := strconv.Atoi(s); err == nil && n > 0 {
			NCPU = n
		}
	}
}

// past stands for everything that happened in the runs before this one.
var past [8]byte

const fairness = 150000

func splitmix(x *uint64) uint64 {
	*x += 0x9e3779b97f4a7c15
	z := *x
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func mix(a, b uint64) uint64 {
	x := a ^ (b * 0x9e3779b97f4a7c15)
	x ^= x >> 32
	x *= 0xd6e8feb86659fd93
	x ^= x >> 32
	x *= 0xd6e8feb86659fd93
	x ^= x >> 32
	return x
}

func hashString(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return mix(h, uint64(len(s)))
}

func (r *run) float() float64 { return float64(splitmix(&r.rng)>>11) / (1 << 53) }

// Epoch is the number of the current run.
func Epoch() uint32 { return epoch }

// Active reports whether a simulated run is in progress.
func Active() bool { return cur != nil }

// Run executes main as goroutine "0" of a new simulated run.
func Run(cfg Config, main func()) Result {
	if rt != nil {
		panic("vsim: nested Run")
	}
	if cfg.MaxTicks == 0 {
		cfg.MaxTicks = 40_000_000
	}
	r := &run{cfg: cfg, done: make(chan struct{}, 1), rng: mix(cfg.Seed, 0x5eed)}
	r.res.Outcome = "ok"
	r.lowest = 1 << 40
	base.copyTo(&r.chans)
	if cfg.Policy == "pct" && !cfg.Replay {
		for i := 0; i < cfg.Depth; i++ {
			r.changeAt = append(r.changeAt, 1+int64(splitmix(&r.rng)%uint64(cfg.Horizon)))
		}
		for i := 1; i < len(r.changeAt); i++ {
			for j := i; j > 0 && r.changeAt[j] < r.changeAt[j-1]; j-- {
				r.changeAt[j], r.changeAt[j-1] = r.changeAt[j-1], r.changeAt[j]
			}
		}
	}
	rt = r
	epoch++
	g := r.newG("0", main)
	r.mainG = g
	g.state = gRunning
	cur = g
	r.resume(g)
	raceDisable()
	g.wake <- struct{}{}
	raceEnable()
	<-r.done
	RaceAcquire(unsafe.Pointer(&past))
	cur = nil
	rt = nil
	budget = 1 << 62
	for _, l := range r.gs {
		if l != g && l.state != gDone && !l.daemon {
			r.res.Leaked = append(r.res.Leaked, l.describe())
		}
	}
	r.res.VTime = r.now
	r.res.Spawned = r.spawned
	r.res.SyncOps = r.syncCount
	return r.res
}

func (g *G) describe() string {
	s := "goroutine " + g.path
	if g.site != "" {
		s += " (started at " + g.site + ")"
	}
	switch g.state {
	case gBlocked:
		s += " blocked in " + g.why
	case gQuiescing:
		s += " waiting for quiescence"
	default:
		s += " not finished"
	}
	return s
}

func (r *run) newG(path string, fn func()) *G {
	g := &G{idx: r.spawned, path: path, hash: hashString(path), state: gRunnable, wake: make(chan struct{}, 1)}
	r.spawned++
	if r.cfg.Policy == "pct" {
		g.prio = 1<<41 + mix(mix(r.cfg.Seed, 77), g.hash)>>20
	}
	if r.cfg.Replay {
		for _, d := range r.cfg.Script {
			if d.G == path {
				switch d.K {
				case "p":
					g.rpre = append(g.rpre, d)
				case "b":
					g.rblk = append(g.rblk, d)
				case "c":
					g.rcho = append(g.rcho, d)
				}
			}
		}
	}
	r.gs = append(r.gs, g)
	if len(r.gs) > r.res.MaxLive {
		r.res.MaxLive = len(r.gs)
	}
	go r.entry(g, fn)
	return g
}

func (r *run) entry(g *G, fn func()) {
	raceDisable()
	<-g.wake
	raceEnable()
	defer func() {
		if r.ended {
			return
		}
		if e := recover(); e != nil {
			r.crash("panic", fmt.Sprintf("goroutine %s: %v\n%s", g.path, e, trimStack(debug.Stack())))
		}
		// reached on runtime.Goexit too
		r.finish(g)
	}()
	fn()
}

func trimStack(b []byte) string {
	s := string(b)
	if len(s) > 3000 {
		s = s[:3000]
	}
	return s
}

func (r *run) finish(g *G) {
	RaceReleaseMerge(unsafe.Pointer(&past))
	r.syncEvent(g, "exit", nil)
	r.leave(g)
	g.state = gDone
	if g == r.mainG {
		r.end()
		return
	}
	for i, x := range r.gs {
		if x == g {
			for j := i + 1; j < len(r.gs); j++ { // copying would be seen by the race detector
				r.gs[j-1] = r.gs[j]
			}
			r.gs[len(r.gs)-1] = nil
			r.gs = r.gs[:len(r.gs)-1]
			break
		}
	}
	n := r.pickBlocked(g)
	if n == nil {
		return
	}
	r.switchTo(n)
}

func (r *run) end() {
	r.ended = true
	raceDisable()
	defer raceEnable()
	raceEnable()
	r.done <- struct{}{} // real edge: the controller sees everything main did
	raceDisable()
}

// crash ends the run abnormally; the calling goroutine never continues.
func (r *run) crash(kind, detail string) {
	RaceReleaseMerge(unsafe.Pointer(&past))
	r.leave(cur)
	r.res.Outcome = kind
	r.res.Detail = detail
	r.ended = true
	r.done <- struct{}{}
	select {}
}

// Crash simulates the death of the process.
func Crash(kind, detail string) {
	if rt == nil {
		fmt.Fprintln(os.Stderr, "vsim: "+kind+": "+detail)
		os.Exit(2)
	}
	rt.crash(kind, detail)
}

// Fail ends the run with a violation found by the harness during the run.
func Fail(format string, a ...any) { Crash("fail", fmt.Sprintf(format, a...)) }

func (r *run) leave(g *G) {
	used := r.start - budget
	g.ticks += used
	r.res.Ticks += used
	r.start = budget
}

// resume prepares the tick budget of g, which is about to run.
func (r *run) resume(g *G) {
	b := int64(fairness)
	if r.cfg.Replay {
		for len(g.rpre) > 0 && g.rpre[0].T <= g.ticks {
			g.rpre = g.rpre[1:]
		}
		if len(g.rpre) > 0 {
			if n := g.rpre[0].T - g.ticks - 1; n < b {
				b = n
			}
		}
	} else {
		switch r.cfg.Policy {
		case "pct":
			for len(r.changeAt) > 0 && r.changeAt[0] <= r.res.Ticks {
				r.changeAt = r.changeAt[1:]
			}
			if len(r.changeAt) > 0 {
				if n := r.changeAt[0] - r.res.Ticks - 1; n < b {
					b = n
				}
			}
		default:
			if r.cfg.P > 0 {
				if n := r.geometric(r.cfg.P); n < b {
					b = n
				}
			}
		}
	}
	budget = b
	r.start = b
}

func (r *run) geometric(p float64) int64 {
	// number of failures before the first success
	u := r.float()
	if u <= 0 {
		return fairness
	}
	// ln(u)/ln(1-p), computed without importing math's asm paths being an issue
	n := int64(ln(u) / ln(1-p))
	if n < 0 {
		n = 0
	}
	return n
}

// Y is the preemption point inserted before every statement.
//
//go:norace
func Y() {
	budget--
	if budget < 0 {
		ySlow()
	}
}

// M is a preemption point at an access to memory that others may see: taken
// more often than those between any two statements.
func M() {
	budget--
	if budget < 0 {
		ySlow()
		return
	}
	r := rt
	if r == nil || cur == nil || r.cfg.Q <= 0 || r.cfg.Replay || r.cfg.Policy == "pct" {
		return
	}
	if r.ended {
		select {}
	}
	if r.float() < r.cfg.Q/4 {
		r.preempt(false)
	}
}

//go:noinline
func ySlow() {
	r := rt
	if r == nil || cur == nil {
		budget = 1 << 62
		return
	}
	if r.ended {
		select {}
	}
	r.preempt(true)
}

// preempt is called by the running goroutine when its budget is used up (or a
// synchronisation operation chose to preempt); it may switch.
func (r *run) preempt(budgetOut bool) {
	g := cur
	r.leave(g)
	if r.res.Ticks > r.cfg.MaxTicks {
		r.crash("ticks", fmt.Sprintf("no end after %d ticks; goroutine %s running", r.res.Ticks, g.path))
	}
	r.consec += r.res.Ticks - r.lastTick
	r.lastTick = r.res.Ticks
	fair := r.consec >= fairness
	cand := r.runnable(g)
	if len(cand) == 0 {
		r.resume(g)
		return
	}
	var n *G
	if r.cfg.Replay {
		for len(g.rpre) > 0 && g.rpre[0].T < g.ticks {
			g.rpre = g.rpre[1:]
		}
		if len(g.rpre) > 0 && g.rpre[0].T == g.ticks {
			for _, c := range cand {
				if c.path == g.rpre[0].V {
					n = c
				}
			}
			g.rpre = g.rpre[1:]
		}
		if n == nil && fair {
			n = r.after(cand, g)
		}
	} else {
		switch r.cfg.Policy {
		case "pct":
			if fair || budgetOut && len(r.changeAt) > 0 && r.changeAt[0] <= r.res.Ticks {
				r.lowest--
				g.prio = r.lowest
			}
			best := g
			for _, c := range cand {
				if c.prio > best.prio {
					best = c
				}
			}
			if best != g {
				n = best
			}
		case "starve":
			n = cand[splitmix(&r.rng)%uint64(len(cand))]
			if n.idx == r.cfg.Victim && !fair && len(cand) > 1 {
				n = cand[splitmix(&r.rng)%uint64(len(cand))]
			}
			if n.idx == r.cfg.Victim && !fair {
				n = nil
			}
		default:
			n = cand[splitmix(&r.rng)%uint64(len(cand))]
		}
		if n == nil && fair {
			n = r.after(cand, g)
		}
		if n != nil && !(fair && n == r.after(cand, g)) {
			r.res.Decisions = append(r.res.Decisions, Decision{G: g.path, T: g.ticks, K: "p", V: n.path})
		}
	}
	if n == nil {
		r.resume(g)
		return
	}
	r.res.Preempts++
	g.state = gRunnable
	r.switchTo(n)
	r.park(g)
}

// after returns the candidate following g in spawn order, cyclically.
func (r *run) after(cand []*G, g *G) *G {
	for _, c := range cand {
		if c.idx > g.idx {
			return c
		}
	}
	return cand[0]
}

func (r *run) runnable(except *G) []*G {
	c := r.cand[:0]
	for _, g := range r.gs {
		if g != except && g.state == gRunnable {
			c = append(c, g)
		}
	}
	r.cand = c
	return c
}

func (r *run) switchTo(n *G) {
	r.res.Switches++
	r.consec = 0
	r.lastTick = r.res.Ticks
	r.res.FullHash = mix(r.res.FullHash, mix(n.hash, uint64(r.res.Ticks)))
	if r.cfg.Trace {
		r.trace(n, "runs")
	}
	n.state = gRunning
	cur = n
	r.resume(n)
	raceDisable()
	n.wake <- struct{}{}
	raceEnable()
}

func (r *run) park(g *G) {
	RaceReleaseMerge(unsafe.Pointer(&past))
	raceDisable()
	<-g.wake
	raceEnable()
}

// pickBlocked chooses who runs when g cannot continue.
func (r *run) pickBlocked(g *G) *G {
	for {
		cand := r.runnable(g)
		if len(cand) > 0 {
			def := cand[0]
			n := def
			if r.cfg.Replay {
				for len(g.rblk) > 0 && g.rblk[0].T < g.ticks {
					g.rblk = g.rblk[1:]
				}
				if len(g.rblk) > 0 && g.rblk[0].T == g.ticks {
					for _, c := range cand {
						if c.path == g.rblk[0].V {
							n = c
						}
					}
					g.rblk = g.rblk[1:]
				}
				return n
			}
			switch r.cfg.Policy {
			case "pct":
				for _, c := range cand {
					if c.prio > n.prio {
						n = c
					}
				}
			case "starve":
				n = cand[splitmix(&r.rng)%uint64(len(cand))]
				for i := 0; n.idx == r.cfg.Victim && len(cand) > 1 && i < 64; i++ {
					n = cand[splitmix(&r.rng)%uint64(len(cand))]
				}
			default:
				n = cand[splitmix(&r.rng)%uint64(len(cand))]
			}
			if n != def {
				r.res.Decisions = append(r.res.Decisions, Decision{G: g.path, T: g.ticks, K: "b", V: n.path})
			}
			return n
		}
		if g.state == gRunnable {
			return g // woken by a timer meanwhile
		}
		if r.fireTimers() {
			if g.state == gRunnable {
				return g
			}
			continue
		}
		if r.mainG.state == gQuiescing {
			return r.mainG
		}
		// Deadlock.
		d := ""
		for _, x := range r.gs {
			if x.state != gDone {
				d += x.describe() + "\n"
			}
		}
		r.res.Outcome = "deadlock"
		r.res.Detail = d
		r.ended = true
		r.done <- struct{}{}
		select {}
	}
}

// block suspends the calling goroutine until Ready is called on it.
func (r *run) block(g *G, why string, obj unsafe.Pointer) {
	budget--
	r.leave(g)
	g.state = gBlocked
	g.why = why
	g.obj = obj
	n := r.pickBlocked(g)
	if n == g {
		g.state = gRunning
		r.resume(g)
		return
	}
	r.switchTo(n)
	r.park(g)
}

func (r *run) ready(g *G) {
	if g.state == gBlocked {
		g.state = gRunnable
		r.woke = true
	}
}

// op is a scheduling point at a synchronisation operation.
func op(kind string, obj unsafe.Pointer) *run {
	r := rt
	if r == nil || cur == nil {
		return nil
	}
	if r.ended {
		select {}
	}
	budget--
	pre := budget < 0
	if !pre && !r.cfg.Replay {
		if r.cfg.Policy == "pct" {
			if r.woke {
				r.woke = false
				pre = true
			}
		} else if r.cfg.Q > 0 && r.float() < r.cfg.Q {
			pre = true
		}
	}
	if pre {
		r.preempt(budget < 0)
	}
	r.syncEvent(cur, kind, obj)
	if r.cfg.KillAt > 0 && r.syncCount >= r.cfg.KillAt {
		r.crash("kill", "process killed")
	}
	return r
}

func (r *run) syncEvent(g *G, kind string, obj unsafe.Pointer) {
	id := uint64(0)
	if obj != nil {
		id = r.objIDs.id(obj)
	}
	r.syncCount++
	r.res.SyncHash = mix(r.res.SyncHash, mix(g.hash, mix(hashString(kind), id)))
	r.res.FullHash = mix(r.res.FullHash, r.res.SyncHash)
	if r.cfg.Trace {
		r.trace(g, kind+" #"+strconv.FormatUint(id, 10))
	}
}

func (r *run) trace(g *G, what string) {
	if len(r.res.Trace) < 4000 {
		r.res.Trace = append(r.res.Trace, g.path+"@"+strconv.FormatInt(g.ticks+r.start-budget, 10)+" "+what)
	}
}

// early runs what the initialization of the program starts concurrently, up to
// the point where it blocks: all of that happens again in every run.
func early(fn func()) {
	defer func() {
		if e := recover(); e != nil {
			if s, ok := e.(string); !ok || !strings.HasPrefix(s, "vsim: ") {
				panic(e)
			}
		}
	}()
	fn()
}

// Go starts a simulated goroutine.
func Go(fn func()) {
	r := rt
	if r == nil || cur == nil {
		if epoch == 0 {
			early(fn)
			return
		}
		go fn()
		return
	}
	op("go", nil)
	g := cur
	n := r.newG(g.path+"."+strconv.Itoa(g.nchild), fn)
	g.nchild++
	n.daemon = r.booting || g.daemon
	if r.cfg.Trace || r.cfg.Replay {
		if _, f, l, ok := runtime.Caller(1); ok {
			n.site = shortFile(f) + ":" + strconv.Itoa(l)
		}
	}
	r.woke = true
	opAfter()
}

// opAfter is a scheduling point right after an operation made others runnable.
func opAfter() {
	r := rt
	if r == nil || r.cfg.Replay {
		Y()
		return
	}
	budget--
	pre := budget < 0
	if r.cfg.Policy == "pct" {
		if r.woke {
			r.woke = false
			pre = true
		}
	} else if r.cfg.Q > 0 && r.float() < r.cfg.Q {
		pre = true
	}
	if pre {
		r.preempt(budget < 0)
	}
}

func shortFile(f string) string {
	n := 0
	for i := len(f) - 1; i >= 0; i-- {
		if f[i] == '/' {
			n++
			if n == 3 {
				return f[i+1:]
			}
		}
	}
	return f
}

// Yield is runtime.Gosched: any runnable goroutine may run.
func Yield() {
	r := op("gosched", nil)
	if r == nil {
		return
	}
	budget--
	r.leave(cur)
	g := cur
	cand := r.runnable(g)
	if len(cand) == 0 {
		r.resume(g)
		return
	}
	g.state = gRunnable
	n := r.pickBlocked(g)
	if n == g {
		g.state = gRunning
		r.resume(g)
		return
	}
	r.switchTo(n)
	r.park(g)
}

// Quiesce lets every other goroutine run until all are finished or blocked,
// and returns a description of the blocked ones. Only goroutine 0 may call it.
func Quiesce() []string {
	r := op("quiesce", nil)
	if cur != r.mainG {
		panic("vsim: Quiesce outside the main goroutine")
	}
	g := cur
	budget--
	r.leave(g)
	g.state = gQuiescing
	n := r.pickBlocked(g)
	if n != g {
		r.switchTo(n)
		r.park(g)
	} else {
		g.state = gRunning
		r.resume(g)
	}
	var out []string
	for _, x := range r.gs {
		if x != g && x.state == gBlocked && !x.daemon {
			out = append(out, x.describe())
		}
	}
	return out
}

// Choose makes an environment choice among n alternatives; 0 is the default.
func Choose(label string, n int) int {
	r := rt
	if r == nil || cur == nil || n <= 1 {
		return 0
	}
	g := cur
	i := g.nchoice
	g.nchoice++
	v := 0
	if r.cfg.Replay {
		for len(g.rcho) > 0 && g.rcho[0].T < i {
			g.rcho = g.rcho[1:]
		}
		if len(g.rcho) > 0 && g.rcho[0].T == i {
			if g.rcho[0].N < n {
				v = g.rcho[0].N
			}
			g.rcho = g.rcho[1:]
		}
	} else {
		h := mix(mix(r.cfg.Seed, 0xc401ce), mix(g.hash, uint64(i)))
		if float64(h>>11)/(1<<53) < r.cfg.Env {
			v = int(mix(h, 1) % uint64(n))
		}
		if v != 0 {
			r.res.Decisions = append(r.res.Decisions, Decision{G: g.path, T: i, K: "c", N: v, S: label})
		}
	}
	r.res.Choices++
	r.res.FullHash = mix(r.res.FullHash, uint64(v)+1)
	return v
}

// Seq returns the global event number; it orders invocations and responses.
func Seq() int64 {
	r := rt
	if r == nil {
		return 0
	}
	r.tseq++
	return r.tseq
}

// Path returns the identity of the running simulated goroutine.
func Path() string {
	if cur == nil {
		return ""
	}
	return cur.path
}

// Live returns the number of live simulated goroutines.
func Live() int {
	if rt == nil {
		return 1
	}
	return len(rt.gs)
}

// Note adds a line to the trace of a replay.
func Note(format string, a ...any) {
	if rt != nil && cur != nil && rt.cfg.Trace {
		rt.trace(cur, "# "+fmt.Sprintf(format, a...))
	}
}

// Step is an explicit scheduling point for harness code.
func Step() { op("step", nil); Y() }

func ln(x float64) float64 {
	// natural logarithm, portable and deterministic
	if x <= 0 {
		return -1e300
	}
	k := 0
	for x < 0.5 {
		x *= 2
		k--
	}
	for x > 1 {
		x /= 2
		k++
	}
	t := (x - 1) / (x + 1)
	t2 := t * t
	s, p := 0.0, t
	for i := 1; i < 40; i += 2 {
		s += p / float64(i)
		p *= t2
	}
	return 2*s + float64(k)*0.6931471805599453
}
