//go:build !race

package vsim

import "unsafe"

// RaceEnabled tells the flavour of the build.
const RaceEnabled = false

func raceDisable() {}
func raceEnable()  {}

// RaceAcquire, RaceRelease and RaceReleaseMerge announce happens-before edges.
func RaceAcquire(p unsafe.Pointer)      {}
func RaceRelease(p unsafe.Pointer)      {}
func RaceReleaseMerge(p unsafe.Pointer) {}
func RaceErrors() int                   { return 0 }
