// Package srandv2 is math/rand/v2 with the simulator's randomness.
package srandv2

import (
	"math/rand/v2"
	"vsa/zsim/rt"
)

func r() *rand.Rand                   { return rand.New(rand.NewPCG(rt.Rand("math/rand/v2"), 1)) }
func Int() int                        { return r().Int() }
func IntN(n int) int                  { return r().IntN(n) }
func Int64() int64                    { return r().Int64() }
func Int64N(n int64) int64            { return r().Int64N(n) }
func Int32N(n int32) int32            { return r().Int32N(n) }
func Uint32() uint32                  { return r().Uint32() }
func Uint64() uint64                  { return r().Uint64() }
func Uint64N(n uint64) uint64         { return r().Uint64N(n) }
func Uint32N(n uint32) uint32         { return r().Uint32N(n) }
func UintN(n uint) uint               { return r().UintN(n) }
func Float64() float64                { return r().Float64() }
func Perm(n int) []int                { return r().Perm(n) }
func Shuffle(n int, f func(i, j int)) { r().Shuffle(n, f) }
func N[T interface{ ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr }](n T) T {
	return T(r().Uint64N(uint64(n)))
}
