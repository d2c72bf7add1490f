// Command simrun decides one property: it builds the simulator against the
// current tree of the library, runs the simulated executions in worker
// processes, and on a violation reproduces, minimises and saves it.
//
// Exit status: 0 the property held on everything explored; 1 a violation (with
// a VIOLATION line and a replay file); 2 trouble of the check itself.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

var (
	verif   = flag.String("verif", "/verif", "directory of the framework")
	repo    = flag.String("repo", "/repo", "library under test")
	prop    = flag.String("prop", "", "property")
	replay  = flag.String("replay", "", "replay file")
	tierF   = flag.String("tier", "", "quick or thorough (default: VERIF_TIER)")
	runs    = flag.Int("runs", 0, "number of runs (default: per tier)")
	keep    = flag.String("keep", "", "keep the build in this directory")
	workers = flag.Int("workers", 8, "worker processes")
	noEvid  = flag.Bool("noevidence", false, "do not write the evidence file")
	outDir  = flag.String("out", "", "directory of replay files")
)

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "simrun: "+f+"\n", a...)
	cleanup()
	os.Exit(2)
}

var cleanups []func()

func cleanup() {
	for _, f := range cleanups {
		f()
	}
	cleanups = nil
}

type decision = json.RawMessage

type violation struct {
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

type line struct {
	Idx      int              `json:"idx"`
	Digest   string           `json:"d"`
	Sync     string           `json:"s"`
	Ticks    int64            `json:"t"`
	VTime    int64            `json:"vt"`
	Switches int64            `json:"sw"`
	Preempts int64            `json:"pr"`
	SyncN    int64            `json:"sn"`
	Spawned  int64            `json:"sp"`
	Choices  int64            `json:"ch"`
	SimRuns  int              `json:"r"`
	NT       bool             `json:"nt"`
	Faults   map[string]int64 `json:"f"`
	Probes   map[string]int64 `json:"p"`
	V        *violation       `json:"v"`
	Workload json.RawMessage  `json:"w"`
	Script   [][]decision     `json:"script"`
	Outcomes []string         `json:"o"`
	Trace    json.RawMessage  `json:"trace"`
	Seed     uint64           `json:"seed"`
}

type caseT struct {
	Workload json.RawMessage `json:"workload"`
	Seed     uint64          `json:"seed"`
	Replay   bool            `json:"replay"`
	Script   [][]decision    `json:"script"`
	Trace    bool            `json:"trace"`
	Thorough bool            `json:"thorough"`
}

// replayFile is what a VIOLATION line points to.
type replayFile struct {
	Property  string          `json:"property"`
	Flavour   string          `json:"flavour"`
	NCPU      int             `json:"ncpu"`
	Mode      string          `json:"mode"` // script, seed, batch
	Violation *violation      `json:"violation"`
	Case      *caseT          `json:"case,omitempty"`
	Batch     *batchT         `json:"batch,omitempty"`
	Original  *batchT         `json:"original"`
	Minimised map[string]any  `json:"minimised,omitempty"`
	Trace     json.RawMessage `json:"trace,omitempty"`
	How       string          `json:"how"`
}

type batchT struct {
	Seed     uint64 `json:"seed"`
	From     int    `json:"from"`
	Count    int    `json:"count"`
	Thorough bool   `json:"thorough"`
}

type infoT struct {
	Flavours map[string]int `json:"flavours"`
	Quick    int            `json:"quick"`
	Thorough int            `json:"thorough"`
	Rule     string         `json:"rule"`
	Real     string         `json:"real"`
	Stub     string         `json:"stub"`
	Faults   []string       `json:"faults"`
}

func goCmd(dir string, args ...string) error {
	cmd := exec.Command("go", args...)
	cmd.Dir = dir
	var b bytes.Buffer
	cmd.Stdout, cmd.Stderr = &b, &b
	if err := cmd.Run(); err != nil {
		return fmt.Errorf("go %s: %v\n%s", strings.Join(args, " "), err, b.String())
	}
	return nil
}

// build makes the requested flavours.
func build(dir string, flavours []string) (map[string]string, map[string]any, error) {
	sim := filepath.Join(*verif, "sim")
	rw := filepath.Join(dir, "rewrite")
	if err := goCmd(sim, "build", "-o", rw, "./cmd/rewrite"); err != nil {
		return nil, nil, err
	}
	// The module replaces the library by *repo through a private copy of go.mod.
	mod, err := os.ReadFile(filepath.Join(sim, "go.mod"))
	if err != nil {
		return nil, nil, err
	}
	mod = bytes.ReplaceAll(mod, []byte("=> /repo"), []byte("=> "+*repo))
	modf := filepath.Join(dir, "go.mod")
	if err := os.WriteFile(modf, mod, 0666); err != nil {
		return nil, nil, err
	}
	sum, err := os.ReadFile(filepath.Join(sim, "go.sum"))
	if err != nil {
		return nil, nil, err
	}
	if err := os.WriteFile(filepath.Join(dir, "go.sum"), sum, 0666); err != nil {
		return nil, nil, err
	}
	variants := map[string][]string{"asm": {}, "pure": {"-tags", "noasm,purego", "-kernels"}}
	flags := map[string][]string{
		"sim":  {},
		"fine": {"-tags", "noasm,purego"},
		"race": {"-tags", "noasm,purego", "-race", "-gcflags=spagosim/vsim/...=-race=false -l"},
	}
	vof := map[string]string{"sim": "asm", "fine": "pure", "race": "pure"}
	stats := map[string]any{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	var errs []error
	done := map[string]chan struct{}{}
	for _, f := range flavours {
		v := vof[f]
		if done[v] != nil {
			continue
		}
		ch := make(chan struct{})
		done[v] = ch
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer close(ch)
			args := append([]string{"-repo", *repo, "-sim", sim, "-out", filepath.Join(dir, v)}, variants[v]...)
			cmd := exec.Command(rw, args...)
			out, err := cmd.CombinedOutput()
			mu.Lock()
			defer mu.Unlock()
			if err != nil {
				errs = append(errs, fmt.Errorf("instrumentation: %v\n%s", err, out))
				return
			}
			if b, err := os.ReadFile(filepath.Join(dir, v, "stats.json")); err == nil {
				var m map[string]any
				if json.Unmarshal(b, &m) == nil {
					stats[v] = m
				}
			}
		}()
	}
	bins := map[string]string{}
	for _, f := range flavours {
		bins[f] = filepath.Join(dir, "simcheck-"+f)
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-done[vof[f]]
			mu.Lock()
			failed := len(errs) > 0
			mu.Unlock()
			if failed {
				return
			}
			args := append([]string{"build", "-modfile", modf, "-overlay", filepath.Join(dir, vof[f], "overlay.json"), "-o", bins[f]}, flags[f]...)
			args = append(args, "./cmd/simcheck")
			if err := goCmd(sim, args...); err != nil {
				mu.Lock()
				errs = append(errs, err)
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	return bins, stats, errors.Join(errs...)
}

func env(ncpu, procs int, race string) []string {
	e := append(os.Environ(), "SPAGOSIM_NCPU="+strconv.Itoa(ncpu), "GOMAXPROCS="+strconv.Itoa(procs), "GOTRACEBACK=all")
	if race != "" {
		e = append(e, "GORACE=exitcode=0 halt_on_error=0 atexit_sleep_ms=0 history_size=5 log_path="+race)
	}
	return e
}

type workerErr struct {
	code   int
	stderr string
}

func (e *workerErr) Error() string {
	return fmt.Sprintf("worker exit %d: %s", e.code, tail(e.stderr, 3000))
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n/2] + "\n...\n" + s[len(s)-n/2:]
	}
	return s
}

var raceSeq struct {
	sync.Mutex
	n int
}

// runWorker runs a worker and passes its lines to fn. Exit status 3 means a
// violation was reported.
func runWorker(dir, bin, flavour string, ncpu, procs int, args []string, fn func(line) bool) error {
	race := ""
	if flavour == "race" {
		raceSeq.Lock()
		raceSeq.n++
		race = filepath.Join(dir, fmt.Sprintf("race-%d", raceSeq.n))
		raceSeq.Unlock()
	}
	cmd := exec.Command(bin, args...)
	cmd.Env = env(ncpu, procs, race)
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	out, err := cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := cmd.Start(); err != nil {
		return err
	}
	watch := time.AfterFunc(700*time.Second, func() { cmd.Process.Kill() })
	defer watch.Stop()
	rd := bufio.NewReaderSize(out, 1<<20)
	stopped := false
	for {
		b, err := rd.ReadBytes('\n')
		if len(b) > 0 {
			var l line
			if e := json.Unmarshal(b, &l); e != nil {
				cmd.Process.Kill()
				cmd.Wait()
				return fmt.Errorf("worker output: %v: %s", e, tail(string(b), 400))
			}
			if !fn(l) {
				stopped = true
				cmd.Process.Kill()
				break
			}
		}
		if err != nil {
			break
		}
	}
	err = cmd.Wait()
	if stopped || err == nil {
		return nil
	}
	var ee *exec.ExitError
	if errors.As(err, &ee) && ee.ExitCode() == 3 {
		return nil
	}
	code := -1
	if ee != nil {
		code = ee.ExitCode()
	}
	return &workerErr{code, stderr.String()}
}

// head shortens the schedules shown as samples.
func head(script [][]decision) any {
	type cut struct {
		Total int        `json:"total"`
		First []decision `json:"first"`
	}
	var out []any
	for _, d := range script {
		if len(d) > 40 {
			out = append(out, cut{len(d), d[:40]})
		} else {
			out = append(out, d)
		}
	}
	return out
}

var ncpus = []int{2, 1, 4, 3, 8, 2, 1, 4}

type batchResult struct {
	flavour string
	ncpu    int
	b       batchT
	lines   []line
}

func main() {
	flag.Parse()
	start := time.Now()
	tmp := os.Getenv("SIMRUN_TMP")
	if tmp == "" {
		var err error
		tmp, err = os.MkdirTemp("", "simrun-")
		if err != nil {
			die("%v", err)
		}
	}
	if *keep != "" {
		tmp = *keep
		os.MkdirAll(tmp, 0777)
	} else {
		cleanups = append(cleanups, func() { os.RemoveAll(tmp) })
	}
	if *replay != "" {
		code := doReplay(tmp, *replay)
		cleanup()
		os.Exit(code)
	}
	tier := *tierF
	if tier == "" {
		tier = os.Getenv("VERIF_TIER")
	}
	if tier == "" {
		tier = "quick"
	}
	thorough := tier == "thorough"
	seed := uint64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		v, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			die("VERIF_SEED: %v", err)
		}
		seed = uint64(v)
	}
	fmt.Printf("property %s tier %s seed %d\n", *prop, tier, int64(seed))

	flavours := flavoursOf(*prop)
	bins, istats, err := build(tmp, flavours)
	if err != nil {
		die("build: %v", err)
	}
	var info infoT
	ib, err := exec.Command(bins[flavours[0]], "-prop", *prop, "-info").Output()
	if err != nil {
		die("info: %v", err)
	}
	if err := json.Unmarshal(ib, &info); err != nil {
		die("info: %v", err)
	}
	buildS := time.Since(start).Seconds()
	total := info.Quick
	if thorough {
		total = info.Thorough
	}
	if *runs > 0 {
		total = *runs
	}
	known := loadKnown(*prop)

	// Batches: consecutive run numbers, a flavour and a CPU count each.
	var wheel []string
	for _, f := range flavours {
		for i := 0; i < info.Flavours[f]; i++ {
			wheel = append(wheel, f)
		}
	}
	size := 40
	if total/size < 4*len(wheel) {
		size = total/(4*len(wheel)) + 1
	}
	if total > 40*400 {
		size = total / 400
	}
	var batches []*batchResult
	for from, i := 0, 0; from < total; from, i = from+size, i+1 {
		n := size
		if from+n > total {
			n = total - from
		}
		batches = append(batches, &batchResult{flavour: wheel[i%len(wheel)], ncpu: ncpus[(i/len(wheel))%len(ncpus)],
			b: batchT{Seed: seed, From: from, Count: n, Thorough: thorough}})
	}
	deadline := start.Add(time.Duration(envInt("SIMRUN_MAX_S", 840)) * time.Second)
	if thorough {
		deadline = start.Add(time.Duration(envInt("SIMRUN_MAX_S", 6*3600)) * time.Second)
	}
	var mu sync.Mutex
	var firstErr error
	var found *batchResult
	var foundLine line
	knownHits := map[string]int{}
	knownMsg := map[string]string{}
	cut := false
	next := 0
	simStart := time.Now()
	var wg sync.WaitGroup
	for k := 0; k < *workers; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				if firstErr != nil || found != nil || next >= len(batches) {
					mu.Unlock()
					return
				}
				if time.Now().After(deadline) {
					cut = true
					mu.Unlock()
					return
				}
				br := batches[next]
				next++
				mu.Unlock()
				err := runBatch(tmp, bins[br.flavour], br, 1, func(l line) bool {
					if l.V == nil {
						mu.Lock()
						defer mu.Unlock()
						return found == nil
					}
					mu.Lock()
					defer mu.Unlock()
					if id := matchKnown(known, l.V); id != "" {
						knownHits[id]++
						knownMsg[id] = l.V.Msg
						return true
					}
					if found == nil || l.Idx < foundLine.Idx {
						found, foundLine = br, l
					}
					return false
				})
				if err != nil {
					mu.Lock()
					if firstErr == nil {
						firstErr = fmt.Errorf("runs %d.. (%s, %d CPUs): %w", br.b.From, br.flavour, br.ncpu, err)
					}
					mu.Unlock()
				}
			}
		}()
	}
	wg.Wait()
	simS := time.Since(simStart).Seconds()
	if firstErr != nil && found == nil {
		die("%v", firstErr)
	}
	code := 0
	if found == nil {
		audit := auditDeterminism(tmp, bins, batches)
		for _, k := range known {
			if knownHits[k.ID] > 0 {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, k.What)
			}
		}
		writeEvidence(tier, seed, start, simS, buildS, info, istats, batches, audit, cut, 0, knownHits)
	} else {
		rf := investigate(tmp, bins, found, foundLine)
		if rf == nil {
			die("a violation was observed but could not be reproduced: run %d (%s, %d CPUs): %s: %s", foundLine.Idx, found.flavour, found.ncpu, foundLine.V.Class, foundLine.V.Msg)
		}
		path := saveReplay(rf)
		writeEvidence(tier, seed, start, simS, buildS, info, istats, batches, nil, cut, 1, knownHits)
		fmt.Printf("violated: [%s] %s\n", rf.Violation.Class, rf.Violation.Msg)
		fmt.Printf("run %d, seed %d, %s build, %d CPUs, mode %s, %d recorded decisions\n", foundLine.Idx, foundLine.Seed, rf.Flavour, rf.NCPU, rf.Mode, countDecisions(rf))
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
		code = 1
	}
	cleanup()
	os.Exit(code)
}

func envInt(name string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return v
	}
	return def
}

func countDecisions(rf *replayFile) int {
	n := 0
	if rf.Case != nil {
		for _, s := range rf.Case.Script {
			n += len(s)
		}
	}
	return n
}

// runBatch runs a batch; after a violation that fn accepts (a known finding)
// it continues in a new process.
func runBatch(tmp, bin string, br *batchResult, procs int, fn func(line) bool) error {
	from, end := br.b.From, br.b.From+br.b.Count
	for from < end {
		args := []string{"-prop", *prop, "-seed", strconv.FormatUint(br.b.Seed, 10), "-from", strconv.Itoa(from), "-count", strconv.Itoa(end - from)}
		if br.b.Thorough {
			args = append(args, "-thorough")
		}
		if br.b.From == 0 {
			args = append(args, "-sample")
		}
		stop := false
		before := from
		err := runWorker(tmp, bin, br.flavour, br.ncpu, procs, args, func(l line) bool {
			br.lines = append(br.lines, l)
			from = l.Idx + 1
			if !fn(l) {
				stop = true
				return false
			}
			return true
		})
		if stop {
			return nil
		}
		if err != nil {
			return err
		}
		if from == before {
			return errors.New("worker reported nothing")
		}
	}
	return nil
}

func flavoursOf(p string) []string {
	// Built before any worker exists, hence a table in a file.
	b, err := os.ReadFile(filepath.Join(*verif, "sim", "flavours.json"))
	if err != nil {
		die("%v", err)
	}
	var m map[string][]string
	if err := json.Unmarshal(b, &m); err != nil {
		die("%v", err)
	}
	if m[p] == nil {
		die("unknown property %q", p)
	}
	return m[p]
}

type knownT struct {
	Property string   `json:"property"`
	ID       string   `json:"id"`
	Status   string   `json:"status"` // "known" or "fixed"
	What     string   `json:"what"`
	Class    string   `json:"class"`
	Contains []string `json:"contains"`
}

func loadKnown(p string) []knownT {
	b, err := os.ReadFile(filepath.Join(*verif, "known_findings.json"))
	if os.IsNotExist(err) {
		return nil
	}
	if err != nil {
		die("%v", err)
	}
	var all struct{ Findings []knownT }
	if err := json.Unmarshal(b, &all); err != nil {
		die("known findings: %v", err)
	}
	var out []knownT
	for _, k := range all.Findings {
		if k.Property == p && k.Status == "known" {
			out = append(out, k)
		}
	}
	return out
}

func matchKnown(ks []knownT, v *violation) string {
	for _, k := range ks {
		if k.Class != v.Class || len(k.Contains) == 0 {
			continue
		}
		ok := true
		for _, c := range k.Contains {
			if !strings.Contains(v.Msg, c) {
				ok = false
			}
		}
		if ok {
			return k.ID
		}
	}
	return ""
}

// auditDeterminism repeats a few batches in other processes, with more OS
// threads, and compares the digests. It only reports.
func auditDeterminism(tmp string, bins map[string]string, batches []*batchResult) map[string]any {
	n := 0
	div := 0
	var diverged []int
	var mu sync.Mutex
	var wg sync.WaitGroup
	step := len(batches)/8 + 1
	for i := 0; i < len(batches); i += step {
		b := batches[i]
		if len(b.lines) != b.b.Count {
			continue
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			c := &batchResult{flavour: b.flavour, ncpu: b.ncpu, b: b.b}
			if c.b.Count > 40 {
				c.b.Count = 40
			}
			err := runBatch(tmp, bins[b.flavour], c, 4, func(line) bool { return true })
			mu.Lock()
			defer mu.Unlock()
			if err != nil {
				div++
				return
			}
			for j, l := range c.lines {
				n++
				if l.Digest != b.lines[j].Digest {
					div++
					diverged = append(diverged, l.Idx)
				}
			}
		}()
	}
	wg.Wait()
	sort.Ints(diverged)
	m := map[string]any{"runs_repeated": n, "diverged": div}
	if len(diverged) > 0 {
		if len(diverged) > 10 {
			diverged = diverged[:10]
		}
		m["diverged_runs"] = diverged
		fmt.Fprintf(os.Stderr, "simrun: warning: %d of %d repeated runs diverged: %v\n", div, n, diverged)
	}
	return m
}

func writeEvidence(tier string, seed uint64, start time.Time, simS, buildS float64, info infoT, istats map[string]any, batches []*batchResult, audit map[string]any, cut bool, violations int, known map[string]int) {
	if *noEvid {
		return
	}
	evals, nt := 0, 0
	sy, dg := map[string]bool{}, map[string]bool{}
	ntSync := map[string]bool{}
	faults, probes := map[string]int64{}, map[string]int64{}
	byFlavour, byCPU := map[string]int{}, map[string]int{}
	outcomes := map[string]int{}
	var ticks, vt, sw, pr, sn, sp, ch int64
	simRuns := 0
	var samples []any
	for _, f := range info.Faults {
		faults[f] = 0
	}
	for _, b := range batches {
		for _, l := range b.lines {
			evals++
			key := l.Sync + fmt.Sprint(b.flavour, b.ncpu)
			sy[l.Sync] = true
			dg[l.Digest] = true
			if l.NT {
				nt++
				ntSync[key] = true
			}
			ticks += l.Ticks
			vt += l.VTime
			sw += l.Switches
			pr += l.Preempts
			sn += l.SyncN
			sp += l.Spawned
			ch += l.Choices
			simRuns += l.SimRuns
			byFlavour[b.flavour]++
			byCPU[strconv.Itoa(b.ncpu)]++
			for k, v := range l.Faults {
				faults[k] += v
			}
			for k, v := range l.Probes {
				probes[k] += v
			}
			for _, o := range l.Outcomes {
				outcomes[o]++
			}
			if l.Workload != nil && len(samples) < 3 && len(l.Workload) < 4000 {
				samples = append(samples, map[string]any{"run": l.Idx, "seed": l.Seed, "workload": l.Workload, "schedule_decisions": head(l.Script), "context_switches": l.Switches})
			}
		}
	}
	if len(samples) == 0 && len(batches) > 0 && len(batches[0].lines) > 0 {
		l := batches[0].lines[0]
		samples = append(samples, map[string]any{"run": l.Idx, "seed": l.Seed, "workload_bytes": len(l.Workload)})
	}
	perHour := 0.0
	if simS > 0 {
		perHour = float64(evals) / simS * 3600
	}
	cov := map[string]any{
		"evaluations":         evals,
		"distinct_nontrivial": len(ntSync),
		"rule":                info.Rule + "; distinct: the digest of the sequence of synchronisation operations (goroutine, operation, object) differs",
		"samples":             samples,

		"simulated_runs":                     simRuns,
		"nontrivial_runs":                    nt,
		"runs_per_hour":                      int64(perHour),
		"seeds_per_hour":                     int64(perHour),
		"simulated_statements":               ticks,
		"simulated_clock_ns":                 vt,
		"context_switches":                   sw,
		"preemptions":                        pr,
		"synchronisation_operations":         sn,
		"goroutines_spawned":                 sp,
		"environment_choices":                ch,
		"distinct_synchronisation_histories": len(sy),
		"distinct_statement_level_histories": len(dg),
		"faults_injected":                    faults,
		"probes":                             probes,
		"runs_by_build":                      byFlavour,
		"runs_by_cpus":                       byCPU,
		"abnormal_outcomes_expected":         outcomes,
		"determinism_audit":                  audit,
		"instrumentation":                    istats,
		"components_real":                    info.Real,
		"components_stub":                    info.Stub,
		"simulation_wall_s":                  simS,
		"build_wall_s":                       buildS,
		"stopped_at_time_limit":              cut,
		"known_findings_seen":                known,
	}
	ev := map[string]any{
		"property": *prop, "tier": tier, "seed": int64(seed), "level": "exploration",
		"coverage": cov, "wall_s": time.Since(start).Seconds(), "violations": violations,
		"assumptions": []string{
			"The simulator's model of goroutines, channels, sync, context, time and files follows the Go specification and memory model; executions are sequentially consistent (weak-memory effects are covered only by the race detector in the race build).",
			"Preemption happens between statements and inside split read-modify-write statements of the library, not inside one Go expression or assembly kernel.",
		},
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		die("%v", err)
	}
	dir := filepath.Join(*verif, "evidence")
	if err := os.MkdirAll(dir, 0777); err != nil {
		die("%v", err)
	}
	if err := os.WriteFile(filepath.Join(dir, *prop+".json"), append(b, '\n'), 0666); err != nil {
		die("%v", err)
	}
	fmt.Printf("%d runs (%d simulated executions, %d distinct non-trivial) in %.1fs + %.1fs build\n", evals, simRuns, len(ntSync), simS, buildS)
	_ = runtime.NumCPU
}
