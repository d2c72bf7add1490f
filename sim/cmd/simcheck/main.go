// Command simcheck executes simulated runs of one property and reports them,
// one JSON line each. It is built against an instrumented copy of the library
// by simrun, which starts it.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"time"

	"spagosim/harness"
	"spagosim/vsim"
)

// Line is one report.
type Line struct {
	Idx      int                `json:"idx"`
	Digest   string             `json:"d"`
	Sync     string             `json:"s"`
	Ticks    int64              `json:"t"`
	VTime    int64              `json:"vt,omitempty"`
	Switches int64              `json:"sw"`
	Preempts int64              `json:"pr"`
	SyncN    int64              `json:"sn"`
	Spawned  int64              `json:"sp"`
	Choices  int64              `json:"ch,omitempty"`
	SimRuns  int                `json:"r"`
	NT       bool               `json:"nt"`
	Faults   map[string]int64   `json:"f,omitempty"`
	Probes   map[string]int64   `json:"p,omitempty"`
	V        *harness.Violation `json:"v,omitempty"`
	Workload json.RawMessage    `json:"w,omitempty"`
	Script   [][]vsim.Decision  `json:"script,omitempty"`
	Outcomes []string           `json:"o,omitempty"`
	Trace    []harness.RunRec   `json:"trace,omitempty"`
	Seed     uint64             `json:"seed,omitempty"`
}

// Case is one explicit execution.
type Case struct {
	Workload json.RawMessage   `json:"workload"`
	Seed     uint64            `json:"seed"`
	Replay   bool              `json:"replay"`
	Script   [][]vsim.Decision `json:"script"`
	Trace    bool              `json:"trace"`
	Thorough bool              `json:"thorough"`
}

func main() {
	prop := flag.String("prop", "", "property")
	seed := flag.Uint64("seed", 1, "base seed")
	from := flag.Int("from", 0, "first run")
	count := flag.Int("count", 1, "number of runs")
	caseFile := flag.String("case", "", "execute one explicit case")
	thorough := flag.Bool("thorough", false, "thorough tier")
	sample := flag.Bool("sample", false, "report workloads")
	info := flag.Bool("info", false, "describe the property")
	quiet := flag.Bool("q", false, "suppress the library's own output")
	flag.Parse()
	_ = quiet
	debug.SetGCPercent(400)
	p := harness.Props[*prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "simcheck: unknown property", *prop)
		os.Exit(2)
	}
	out := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(out)
	emit := func(l any) {
		if err := enc.Encode(l); err != nil {
			fmt.Fprintln(os.Stderr, "simcheck:", err)
			os.Exit(2)
		}
		out.Flush()
	}
	if *info {
		emit(map[string]any{"flavours": p.Flavours, "quick": p.Quick, "thorough": p.Thorough, "rule": p.Rule,
			"real": p.Real, "stub": p.Stub, "faults": p.Faults})
		return
	}
	if *caseFile != "" {
		b, err := os.ReadFile(*caseFile)
		if err != nil {
			fmt.Fprintln(os.Stderr, "simcheck:", err)
			os.Exit(2)
		}
		var c Case
		if err := json.Unmarshal(b, &c); err != nil {
			fmt.Fprintln(os.Stderr, "simcheck:", err)
			os.Exit(2)
		}
		w := p.New()
		if err := json.Unmarshal(c.Workload, w); err != nil {
			fmt.Fprintln(os.Stderr, "simcheck: bad workload:", err)
			os.Exit(2)
		}
		e := &harness.Env{Seed: c.Seed, Replay: c.Replay, Script: c.Script, Trace: c.Trace, Thorough: c.Thorough}
		l := execute(p, w, e, 0)
		l.Seed = c.Seed
		l.Workload = harness.Marshal(w)
		for _, r := range e.Runs {
			l.Script = append(l.Script, r.Script)
		}
		if c.Trace {
			l.Trace = e.Runs
		}
		emit(l)
		return
	}
	for i := *from; i < *from+*count; i++ {
		rs := harness.RunSeed(*seed, *prop, i)
		raw := harness.Marshal(p.Gen(harness.NewRng(rs)))
		w := p.New()
		if err := json.Unmarshal(raw, w); err != nil {
			fmt.Fprintln(os.Stderr, "simcheck: workload does not round-trip:", err)
			os.Exit(2)
		}
		e := &harness.Env{Seed: rs, Thorough: *thorough}
		t := time.AfterFunc(600*time.Second, func() {
			fmt.Fprintf(os.Stderr, "simcheck: run %d does not end\n", i)
			os.Exit(2)
		})
		l := execute(p, w, e, i)
		t.Stop()
		if l.V != nil || *sample {
			l.Workload = raw
			l.Seed = rs
			for _, r := range e.Runs {
				l.Script = append(l.Script, r.Script)
			}
		}
		emit(l)
		if l.V != nil {
			os.Exit(3)
		}
	}
}

func execute(p *harness.Prop, w any, e *harness.Env, idx int) Line {
	v := p.Run(w, e)
	l := Line{Idx: idx, Digest: fmt.Sprintf("%016x", e.Digest()), Sync: fmt.Sprintf("%016x", e.SyncDigest()),
		Ticks: e.Ticks, VTime: e.VTime, Switches: e.Switch, Preempts: e.Preem, SyncN: e.SyncN, Spawned: e.Spawn,
		Choices: e.Choice, SimRuns: len(e.Runs), Faults: e.Faults, Probes: e.Probes, V: v}
	if p.NonTrivial != nil {
		l.NT = p.NonTrivial(e)
	} else {
		l.NT = e.Switch > int64(len(e.Runs))
	}
	for _, r := range e.Runs {
		if r.Outcome != "ok" {
			l.Outcomes = append(l.Outcomes, r.Label+": "+r.Outcome)
		}
	}
	return l
}
