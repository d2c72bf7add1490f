package harness

// Seeds with which one of the first twelve numbers that the generator of the
// repository draws has all of its 64 bits clear, and seeds with which all of them
// are set. They were found by solving for the state of the generator; no search
// over seeds meets one.
var extremeSeeds = []uint64{
	7871113345137015862, 2661202526218554158, 770935369938410757, 17642475797910254195, 18314242588178019384, 2279619097409816853, 12618191840352768284, 11979317727832568758, 11214240070847698799, 9168519882464384989, 10371997913800673420, 3874911292007673996,
	15438709151486428482, 2291871824331610919, 9256419605420834253, 13679773928268415210, 18103128251115996167, 5351472341008913138, 18177089994930984662, 6272351313914926759, 193078125090829493, 874298578020681256, 15298914730503618375,
}

// seed draws a seed, rarely one with an extreme draw.
func (r *Rng) seed(extreme float64) uint64 {
	if s := r.U64(); !r.P(extreme) {
		return s
	}
	return Pick(r, extremeSeeds...)
}

func extreme(s uint64) bool {
	for _, x := range extremeSeeds {
		if x == s {
			return true
		}
	}
	return false
}
