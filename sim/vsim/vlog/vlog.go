// Package vlog stands in for package log inside the simulator: a fatal error
// is the death of the simulated process; other output is discarded.
package vlog

import (
	"fmt"

	"spagosim/vsim"
)

func Fatal(a ...any)            { vsim.Crash("fatal", fmt.Sprint(a...)) }
func Fatalf(f string, a ...any) { vsim.Crash("fatal", fmt.Sprintf(f, a...)) }
func Fatalln(a ...any)          { vsim.Crash("fatal", fmt.Sprintln(a...)) }
func Panic(a ...any)            { panic(fmt.Sprint(a...)) }
func Panicf(f string, a ...any) { panic(fmt.Sprintf(f, a...)) }
func Panicln(a ...any)          { panic(fmt.Sprintln(a...)) }
func Print(a ...any)            {}
func Printf(f string, a ...any) {}
func Println(a ...any)          {}
