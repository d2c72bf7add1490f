package vsim

// A simulated run is a process of its own: it begins with the initialization
// of the library's packages, which gives their variables their initial values
// and whatever these refer to.

var boot []func()

// Package announces how the initialization of a package is repeated; the
// packages do so in the order of their initialization.
func Package(f func()) { boot = append(boot, f) }

// Zero gives a variable the zero value.
func Zero[T any](p *T) {
	var z T
	*p = z
}

// Boot repeats the initialization of the program, in a simulated run.
// Goroutines it starts belong to the process as such.
func Boot() {
	r := rt
	r.booting = true
	for _, f := range boot {
		f()
	}
	r.booting = false
}
