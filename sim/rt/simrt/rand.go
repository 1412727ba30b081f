//go:build go1.23

package simrt

// Rand is a splitmix64/xorshift generator: fixed by its seed on every platform.
type Rand struct{ x uint64 }

// Mix hashes two numbers.
func Mix(a, b uint64) uint64 {
	z := a + 0x9e3779b97f4a7c15*(b+1)
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Seed sets the state.
func (r *Rand) Seed(s uint64) { r.x = Mix(s, 0x5eed) }

// Uint64 returns the next number.
func (r *Rand) Uint64() uint64 {
	r.x += 0x9e3779b97f4a7c15
	z := r.x
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Intn returns a number in [0,n).
func (r *Rand) Intn(n int) int { return int(r.Uint64() % uint64(n)) }

// Float returns a number in [0,1).
func (r *Rand) Float() float64 { return float64(r.Uint64()>>11) / (1 << 53) }
