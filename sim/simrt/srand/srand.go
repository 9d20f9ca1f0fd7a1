// Package srand replaces the global generator of math/rand in the instrumented
// copy by one that is seeded per run.
package srand

import (
	"math/rand"

	"verif.local/simrt"
)

type (
	Rand     = rand.Rand
	Source   = rand.Source
	Source64 = rand.Source64
	Zipf     = rand.Zipf
)

type src struct{}

func (src) Int63() int64    { return int64(simrt.Rand() >> 1) }
func (src) Uint64() uint64  { return simrt.Rand() }
func (src) Seed(seed int64) {}

var g = rand.New(src{})

func New(s Source) *Rand                               { return rand.New(s) }
func NewSource(seed int64) Source                      { return rand.NewSource(seed) }
func Seed(int64)                                       {}
func Int() int                                         { return g.Int() }
func Intn(n int) int                                   { return g.Intn(n) }
func Int31() int32                                     { return g.Int31() }
func Int31n(n int32) int32                             { return g.Int31n(n) }
func Int63() int64                                     { return g.Int63() }
func Int63n(n int64) int64                             { return g.Int63n(n) }
func Uint32() uint32                                   { return g.Uint32() }
func Uint64() uint64                                   { return g.Uint64() }
func Float64() float64                                 { return g.Float64() }
func Float32() float32                                 { return g.Float32() }
func Perm(n int) []int                                 { return g.Perm(n) }
func Shuffle(n int, swap func(i, j int))               { g.Shuffle(n, swap) }
func NormFloat64() float64                             { return g.NormFloat64() }
func ExpFloat64() float64                              { return g.ExpFloat64() }
func Read(p []byte) (int, error)                       { return g.Read(p) }
func NewZipf(r *Rand, s, v float64, imax uint64) *Zipf { return rand.NewZipf(r, s, v, imax) }
