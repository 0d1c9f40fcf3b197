//go:build go1.25

// Package simrand stands in for the global generators of math/rand and
// crypto/rand: seeded by the case.
package simrand

import "math/rand"

var r = rand.New(rand.NewSource(1))

// Reset seeds the generator for one case.
func Reset(seed int64) { r = rand.New(rand.NewSource(seed)) }

func Seed(int64)                      {}
func Int() int                        { return r.Int() }
func Intn(n int) int                  { return r.Intn(n) }
func Int31() int32                    { return r.Int31() }
func Int31n(n int32) int32            { return r.Int31n(n) }
func Int63() int64                    { return r.Int63() }
func Int63n(n int64) int64            { return r.Int63n(n) }
func Uint32() uint32                  { return r.Uint32() }
func Uint64() uint64                  { return r.Uint64() }
func Float64() float64                { return r.Float64() }
func Perm(n int) []int                { return r.Perm(n) }
func Shuffle(n int, f func(i, j int)) { r.Shuffle(n, f) }
func Read(b []byte) (int, error)      { return r.Read(b) }
