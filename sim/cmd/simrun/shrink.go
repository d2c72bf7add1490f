package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"sync"
	"time"
)

type shrinker struct {
	tmp, bin string
	flavour  string
	ncpu     int
	class    string
	deadline time.Time
	mu       sync.Mutex
	n        int
	thorough bool
}

// runCase executes one case in a fresh process.
func (s *shrinker) runCase(c *caseT) *line {
	s.mu.Lock()
	s.n++
	f := filepath.Join(s.tmp, "case-"+strconv.Itoa(s.n)+".json")
	s.mu.Unlock()
	b, err := json.Marshal(c)
	if err != nil {
		die("%v", err)
	}
	if err := os.WriteFile(f, b, 0666); err != nil {
		die("%v", err)
	}
	defer os.Remove(f)
	var out *line
	err = runWorker(s.tmp, s.bin, s.flavour, s.ncpu, 1, []string{"-prop", *prop, "-case", f}, func(l line) bool {
		out = &l
		return true
	})
	if err != nil {
		return nil
	}
	return out
}

func (s *shrinker) fails(c *caseT) *line {
	l := s.runCase(c)
	if l == nil || l.V == nil || l.V.Class != s.class {
		return nil
	}
	return l
}

// firstFailing evaluates candidates in parallel, in groups, and returns the
// first one, in order, that still fails.
func (s *shrinker) firstFailing(cs []*caseT) (*caseT, *line) {
	const width = 8
	for i := 0; i < len(cs); i += width {
		if time.Now().After(s.deadline) {
			return nil, nil
		}
		j := i + width
		if j > len(cs) {
			j = len(cs)
		}
		res := make([]*line, j-i)
		var wg sync.WaitGroup
		for k := i; k < j; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				res[k-i] = s.fails(cs[k])
			}()
		}
		wg.Wait()
		for k, l := range res {
			if l != nil {
				return cs[i+k], l
			}
		}
	}
	return nil, nil
}

func investigate(tmp string, bins map[string]string, br *batchResult, l line) *replayFile {
	s := &shrinker{tmp: tmp, bin: bins[br.flavour], flavour: br.flavour, ncpu: br.ncpu, class: l.V.Class,
		deadline: time.Now().Add(time.Duration(envInt("SIMRUN_SHRINK_S", 60)) * time.Second), thorough: br.b.Thorough}
	rf := &replayFile{Property: *prop, Flavour: br.flavour, NCPU: br.ncpu, Violation: l.V,
		Original: &batchT{Seed: br.b.Seed, From: l.Idx, Count: 1, Thorough: br.b.Thorough},
		How:      "cd /verif && ./check --replay FILE"}
	bySeed := &caseT{Workload: l.Workload, Seed: l.Seed, Thorough: br.b.Thorough}
	byScript := &caseT{Workload: l.Workload, Seed: l.Seed, Replay: true, Script: l.Script, Thorough: br.b.Thorough}
	if s.fails(byScript) == nil {
		if s.fails(bySeed) != nil {
			rf.Mode = "seed"
			rf.Case = bySeed
			return rf
		}
		// State left behind by earlier runs of the same process may matter.
		b := br.b
		b.Count = l.Idx - b.From + 1
		for _, from := range []int{l.Idx - 1, l.Idx - 4, b.From} {
			if from < b.From {
				continue
			}
			c := &batchT{Seed: b.Seed, From: from, Count: l.Idx - from + 1, Thorough: b.Thorough}
			if s.batchFails(c, l.Idx) {
				rf.Mode = "batch"
				rf.Batch = c
				return rf
			}
		}
		return nil
	}
	size0, dec0 := len(l.Workload), decisions(byScript)
	best := byScript
	for round := 0; round < 4 && time.Now().Before(s.deadline); round++ {
		before := string(best.Workload) + fmt.Sprint(decisions(best))
		best = s.shrinkScript(best)
		best = s.shrinkWorkload(best)
		best = s.shrinkScript(best)
		if before == string(best.Workload)+fmt.Sprint(decisions(best)) {
			break
		}
	}
	rf.Mode = "script"
	best.Trace = true
	if l := s.fails(best); l != nil {
		rf.Violation = l.V
		rf.Trace = l.Trace
	}
	rf.Case = best
	rf.Minimised = map[string]any{"workload_bytes": []int{size0, len(best.Workload)}, "decisions": []int{dec0, decisions(best)}, "executions": s.n}
	return rf
}

func (s *shrinker) batchFails(b *batchT, idx int) bool {
	br := &batchResult{flavour: s.flavour, ncpu: s.ncpu, b: *b}
	ok := false
	runBatch(s.tmp, s.bin, br, 1, func(l line) bool {
		if l.V != nil {
			ok = l.Idx == idx && l.V.Class == s.class
			return false
		}
		return true
	})
	return ok
}

func decisions(c *caseT) int {
	n := 0
	for _, s := range c.Script {
		n += len(s)
	}
	return n
}

// shrinkScript removes scheduling decisions and faults (ddmin).
func (s *shrinker) shrinkScript(c *caseT) *caseT {
	type ref struct{ run, i int }
	flat := func(c *caseT) []ref {
		var out []ref
		for r, sc := range c.Script {
			for i := range sc {
				out = append(out, ref{r, i})
			}
		}
		return out
	}
	without := func(c *caseT, drop map[ref]bool) *caseT {
		n := &caseT{Workload: c.Workload, Seed: c.Seed, Replay: true, Thorough: c.Thorough}
		for r, sc := range c.Script {
			o := []decision{}
			for i, d := range sc {
				if !drop[ref{r, i}] {
					o = append(o, d)
				}
			}
			n.Script = append(n.Script, o)
		}
		return n
	}
	for chunk := decisions(c); chunk >= 1; {
		if time.Now().After(s.deadline) {
			return c
		}
		fs := flat(c)
		if len(fs) == 0 {
			return c
		}
		if chunk > len(fs) {
			chunk = len(fs)
		}
		var cands []*caseT
		for i := 0; i < len(fs); i += chunk {
			drop := map[ref]bool{}
			for j := i; j < i+chunk && j < len(fs); j++ {
				drop[fs[j]] = true
			}
			cands = append(cands, without(c, drop))
		}
		if n, _ := s.firstFailing(cands); n != nil {
			c = n
			continue
		}
		if chunk == 1 {
			break
		}
		chunk = (chunk + 1) / 2
	}
	return c
}

// shrinkWorkload simplifies the workload, under the current schedule or under
// a few fresh ones.
func (s *shrinker) shrinkWorkload(c *caseT) *caseT {
	for time.Now().Before(s.deadline) {
		var v any
		d := json.NewDecoder(bytes.NewReader(c.Workload))
		d.UseNumber()
		if err := d.Decode(&v); err != nil {
			return c
		}
		var cands []*caseT
		var pend []*caseT
		for _, w := range simpler(v) {
			b, err := json.Marshal(w)
			if err != nil || bytes.Equal(b, c.Workload) {
				continue
			}
			cands = append(cands, &caseT{Workload: b, Seed: c.Seed, Replay: true, Script: c.Script, Thorough: c.Thorough})
			for k := uint64(0); k < 3; k++ {
				pend = append(pend, &caseT{Workload: b, Seed: c.Seed + k*7919, Thorough: c.Thorough})
			}
		}
		n, l := s.firstFailing(cands)
		if n == nil {
			n, l = s.firstFailing(pend)
		}
		if n == nil {
			return c
		}
		// Continue with the decisions of that very execution.
		m := &caseT{Workload: n.Workload, Seed: n.Seed, Replay: true, Script: l.Script, Thorough: c.Thorough}
		if n.Replay {
			m.Script = n.Script
		} else if s.fails(m) == nil {
			return c
		}
		c = m
	}
	return c
}

// simpler lists simplifications of a decoded workload, big steps first.
func simpler(v any) []any {
	var out []any
	var walk func(x any, rebuild func(any) any)
	walk = func(x any, rebuild func(any) any) {
		switch x := x.(type) {
		case map[string]any:
			keys := make([]string, 0, len(x))
			for k := range x {
				keys = append(keys, k)
			}
			sortStrings(keys)
			for _, k := range keys {
				walk(x[k], func(n any) any {
					m := map[string]any{}
					for a, b := range x {
						m[a] = b
					}
					m[k] = n
					return rebuild(m)
				})
			}
		case []any:
			for chunk := len(x); chunk >= 1; chunk /= 2 {
				if len(x)/chunk > 40 {
					break
				}
				for i := 0; i < len(x); i += chunk {
					j := i + chunk
					if j > len(x) {
						j = len(x)
					}
					n := append(append([]any{}, x[:i]...), x[j:]...)
					out = append(out, rebuild(n))
				}
			}
			for i := range x {
				if i > 60 {
					break
				}
				walk(x[i], func(n any) any {
					m := append([]any{}, x...)
					m[i] = n
					return rebuild(m)
				})
			}
		case json.Number:
			f, err := strconv.ParseInt(x.String(), 10, 64)
			if err != nil {
				return
			}
			seen := map[int64]bool{f: true}
			for _, n := range []int64{0, 1, f / 2, f - 1} {
				if n >= 0 && n < f && !seen[n] {
					seen[n] = true
					out = append(out, rebuild(json.Number(strconv.FormatInt(n, 10))))
				}
			}
		case bool:
			if x {
				out = append(out, rebuild(false))
			}
		}
	}
	walk(v, func(n any) any { return n })
	return out
}

func sortStrings(s []string) {
	for i := 1; i < len(s); i++ {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

func saveReplay(rf *replayFile) string {
	dir := *outDir
	if dir == "" {
		dir = filepath.Join(*verif, "evidence", "replays")
	}
	if err := os.MkdirAll(dir, 0777); err != nil {
		die("%v", err)
	}
	b, err := json.MarshalIndent(rf, "", " ")
	if err != nil {
		die("%v", err)
	}
	p := filepath.Join(dir, fmt.Sprintf("%s-%d-%d.json", rf.Property, int64(rf.Original.Seed), rf.Original.From))
	rf.How = "cd /verif && ./check --replay " + p
	b, _ = json.MarshalIndent(rf, "", " ")
	if err := os.WriteFile(p, append(b, '\n'), 0666); err != nil {
		die("%v", err)
	}
	return p
}

func doReplay(tmp, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		die("%v", err)
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		die("%v", err)
	}
	*prop = rf.Property
	bins, _, err := build(tmp, []string{rf.Flavour})
	if err != nil {
		die("build: %v", err)
	}
	s := &shrinker{tmp: tmp, bin: bins[rf.Flavour], flavour: rf.Flavour, ncpu: rf.NCPU, class: rf.Violation.Class}
	var got *violation
	if rf.Mode == "batch" {
		br := &batchResult{flavour: rf.Flavour, ncpu: rf.NCPU, b: *rf.Batch}
		err = runBatch(tmp, s.bin, br, 1, func(l line) bool {
			got = l.V
			return l.V == nil
		})
		if err != nil {
			die("%v", err)
		}
	} else {
		rf.Case.Trace = true
		l := s.runCase(rf.Case)
		if l == nil {
			die("the case does not execute")
		}
		got = l.V
		if got != nil && len(l.Trace) > 0 {
			var tr []struct {
				Label string
				Trace []string
			}
			json.Unmarshal(l.Trace, &tr)
			for _, t := range tr {
				fmt.Printf("-- run %q\n", t.Label)
				for _, x := range t.Trace {
					fmt.Println("   ", x)
				}
			}
		}
	}
	if got == nil {
		fmt.Println("replayed: no violation on this tree")
		return 0
	}
	same := "the recorded violation"
	if got.Class != rf.Violation.Class {
		same = "a different violation (recorded: " + rf.Violation.Class + ")"
	}
	fmt.Printf("replayed: %s: [%s] %s\n", same, got.Class, got.Msg)
	fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, file)
	return 1
}
