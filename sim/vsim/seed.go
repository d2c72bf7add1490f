package vsim

// Seeders seed the random sources that outlive a run. The instrumented copy of
// the package that has one registers it.
var Seeders []func(uint64)

// Reseed makes everything drawn from now on depend on the run alone.
func Reseed(seed uint64) {
	for _, f := range Seeders {
		f(seed)
	}
}
