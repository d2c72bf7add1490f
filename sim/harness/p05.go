package harness

import "encoding/json"

// raceW is a workload of another property, executed in the race build. Only
// conflicting unsynchronised accesses count.
type raceW struct {
	Sub  string
	Work json.RawMessage
}

var raceSubs = []string{"P01", "P02", "P04", "P07", "P08", "P12", "P13", "P14", "P15", "P15", "P17", "P18", "P18", "P20", "P21", "P22", "P23"}

func genRace(r *Rng) any {
	w := &raceW{Sub: Pick(r, raceSubs...)}
	w.Work = Marshal(Props[w.Sub].Gen(r))
	return w
}

func execRace(wl any, e *Env) *Violation {
	w := wl.(*raceW)
	ok := false
	for _, s := range raceSubs {
		ok = ok || s == w.Sub
	}
	if !ok || len(w.Work) == 0 {
		return nil
	}
	p := Props[w.Sub]
	sub := p.New()
	if json.Unmarshal(w.Work, sub) != nil {
		return nil
	}
	newRaces()
	p.Exec(sub, e) // whatever else it finds is judged by that property
	e.Probe("workload of " + w.Sub)
	return newRaces()
}

func init() {
	register(&Prop{
		ID: "P05", Flavours: map[string]int{"race": 1}, Quick: 6000, Thorough: 200000,
		Gen: genRace, New: func() any { return &raceW{} }, Exec: execRace,
		Rule: "a run is a workload of P01, P02, P04, P07, P08, P12-P15, P17, P18 or P20-P23 executed in the race build: the happens-before detector follows only the synchronisation of the simulated program; distinct by the interleaving of synchronisation operations",
		Real: "ag, mat, mat/gradfn, mat/rand, nn/*, losses, optimizers/*, gradclipper (pure Go kernels)", Stub: "Go scheduler, channels, sync, atomics, context (simulated, with their happens-before edges)",
		Faults: []string{"adversarial schedules (starvation, priority inversion, preemption at any statement)", "1-8 CPUs", "those of the workloads"},
	})
}
