// Package vruntime stands in for package runtime inside the simulator.
package vruntime

import "spagosim/vsim"

func NumCPU() int          { return vsim.NCPU }
func GOMAXPROCS(n int) int { return vsim.NCPU }
func NumGoroutine() int    { return vsim.Live() }
func Gosched()             { vsim.Yield() }
func GC()                  {}
