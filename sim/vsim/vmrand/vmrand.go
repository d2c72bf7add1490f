// Package vmrand stands in for the automatically seeded top-level functions of
// math/rand: inside the simulator they are the simulator's choices.
package vmrand

import (
	"math/rand"

	"spagosim/vsim"
)

func src() *rand.Rand {
	return rand.New(rand.NewSource(int64(vsim.Choose("math/rand", 1<<30))))
}

func Seed(int64)                      {}
func Int() int                        { return src().Int() }
func Intn(n int) int                  { return src().Intn(n) }
func IntN(n int) int                  { return src().Intn(n) }
func N(n int) int                     { return src().Intn(n) }
func Int31() int32                    { return src().Int31() }
func Int31n(n int32) int32            { return src().Int31n(n) }
func Int32() int32                    { return src().Int31() }
func Int32N(n int32) int32            { return src().Int31n(n) }
func Int63() int64                    { return src().Int63() }
func Int63n(n int64) int64            { return src().Int63n(n) }
func Int64() int64                    { return src().Int63() }
func Int64N(n int64) int64            { return src().Int63n(n) }
func Uint32() uint32                  { return src().Uint32() }
func Uint64() uint64                  { return src().Uint64() }
func Float32() float32                { return src().Float32() }
func Float64() float64                { return src().Float64() }
func NormFloat64() float64            { return src().NormFloat64() }
func ExpFloat64() float64             { return src().ExpFloat64() }
func Perm(n int) []int                { return src().Perm(n) }
func Shuffle(n int, f func(i, j int)) { src().Shuffle(n, f) }
