// Package vrand stands in for math/rand in the copy of the code under test:
// the top-level functions draw from a source the explorer controls.
package vrand

import "math/rand"

// Src yields the raw 63/64-bit draws.
type Src struct{ Next func() uint64 }

func (s *Src) Int63() int64    { return int64(s.Uint64() >> 1) }
func (s *Src) Uint64() uint64  { return s.Next() }
func (s *Src) Seed(seed int64) {}

// Use makes f the origin of all draws.
func Use(f func() uint64) { cur = rand.New(&Src{f}) }

var x uint64 = 88172645463325252

var cur = rand.New(&Src{func() uint64 { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return x }})

func ExpFloat64() float64                { return cur.ExpFloat64() }
func Float32() float32                   { return cur.Float32() }
func Float64() float64                   { return cur.Float64() }
func Int() int                           { return cur.Int() }
func Int31() int32                       { return cur.Int31() }
func Int31n(n int32) int32               { return cur.Int31n(n) }
func Int63() int64                       { return cur.Int63() }
func Int63n(n int64) int64               { return cur.Int63n(n) }
func Intn(n int) int                     { return cur.Intn(n) }
func NormFloat64() float64               { return cur.NormFloat64() }
func Perm(n int) []int                   { return cur.Perm(n) }
func Read(p []byte) (int, error)         { return cur.Read(p) }
func Seed(seed int64)                    {}
func Shuffle(n int, swap func(i, j int)) { cur.Shuffle(n, swap) }
func Uint32() uint32                     { return cur.Uint32() }
func Uint64() uint64                     { return cur.Uint64() }
