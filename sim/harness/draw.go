//go:build go1.23

package main

import (
	"math"

	"github.com/exascience/pargo/zzsim/simrt"
)

// Draw is the source of all workload choices; what it hands out is recorded, so
// that a run can be repeated and shrunk.
type Draw struct {
	rng    simrt.Rand
	fixed  []int
	replay bool
	Log    []int
}

// Int returns a number in [0,n); 0 is the simplest choice.
func (d *Draw) Int(n int) int {
	if n <= 1 {
		return 0
	}
	v := 0
	if d.replay {
		if i := len(d.Log); i < len(d.fixed) {
			v = d.fixed[i]
			if v < 0 {
				v = -v
			}
			v %= n
		}
	} else {
		v = d.rng.Intn(n)
	}
	d.Log = append(d.Log, v)
	return v
}

// Range returns a number in [lo,hi].
func (d *Draw) Range(lo, hi int) int { return lo + d.Int(hi-lo+1) }

// Chance is true with probability num/den.
func (d *Draw) Chance(num, den int) bool { return d.Int(den) >= den-num }

// LogUpTo returns a number in [lo,hi], small ones being more likely.
func (d *Draw) LogUpTo(lo, hi int) int {
	if hi <= lo {
		return lo
	}
	x := d.Int(1 << 16)
	f := math.Exp(float64(x)/(1<<16)*math.Log(float64(hi-lo+1)+0.999)) - 1
	v := lo + int(f)
	if hi-lo > 16 && x&3 == 3 {
		// next to a power of two, or to a round number
		b := 1
		for b <= v/2 {
			b *= 2
		}
		if x>>2&7 == 7 && v >= 100 {
			b = v / 100 * 100
			if v >= 1000 {
				b = v / 1000 * 1000
			}
		}
		if v = b + (x>>5)%3 - 1; v < lo {
			v = lo
		}
	}
	if v > hi {
		v = hi
	}
	return v
}

// Pick returns an index with the given weights.
func (d *Draw) Pick(w ...int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	v := d.Int(t)
	for i, x := range w {
		if v < x {
			return i
		}
		v -= x
	}
	return 0
}

// Perm returns a permutation of 0..n-1 (the identity being the simplest).
func (d *Draw) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := i - d.Int(i+1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// Of picks one of the given numbers.
func (d *Draw) Of(xs ...int) int { return xs[d.Int(len(xs))] }
