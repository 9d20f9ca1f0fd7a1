package main

import (
	"math"
	"strconv"
)

// R is the only source of randomness of the harness.
type R struct{ s uint64 }

func newR(seed uint64) *R { return &R{s: seed*0x9e3779b97f4a7c15 + 0x1234567} }

func (r *R) u64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *R) n(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.u64() % uint64(n))
}

// p is true with probability x.
func (r *R) p(x float64) bool { return float64(r.u64()>>11)/(1<<53) < x }

// f is uniform in [0,1).
func (r *R) f() float64 { return float64(r.u64()>>11) / (1 << 53) }

func (r *R) pick(xs ...string) string { return xs[r.n(len(xs))] }

// logN is roughly log-uniform in [1,max].
func (r *R) logN(max int) int {
	if max <= 1 {
		return 1
	}
	v := int(math.Exp(r.f() * math.Log(float64(max)+0.999)))
	if v < 1 {
		v = 1
	}
	if v > max {
		v = max
	}
	return v
}

// weighted returns an index with probability proportional to its weight.
func (r *R) weighted(ws []float64) int {
	t := 0.0
	for _, w := range ws {
		t += w
	}
	x := r.f() * t
	for i, w := range ws {
		if x < w {
			return i
		}
		x -= w
	}
	return len(ws) - 1
}

func mix(a, b uint64) uint64 {
	r := R{s: a ^ b*0xff51afd7ed558ccd}
	return r.u64()
}

func itoa(i int) string { return strconv.Itoa(i) }
