package vsim

// Counters of the harness in the race build: this package is not instrumented,
// and uses no operation of the runtime that is.
type counter struct {
	group, name string
	n           int64
	next        *counter
}

var counters *counter

// Count increments a counter.
func Count(group, name string) {
	for c := counters; c != nil; c = c.next {
		if c.group == group && c.name == name {
			c.n++
			return
		}
	}
	counters = &counter{group, name, 1, counters}
}

// Counts reports and resets the counters.
func Counts(fn func(group, name string, n int64)) {
	for c := counters; c != nil; c = c.next {
		fn(c.group, c.name, c.n)
	}
	counters = nil
}
