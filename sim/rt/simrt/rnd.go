//go:build go1.23

package simrt

// Stand-ins for the global functions of math/rand and math/rand/v2.

func rnd() uint64 { return uint64(Choose(1<<30))<<33 ^ uint64(Choose(1<<30))<<7 ^ uint64(Choose(128)) }

func bound(n int) {
	if n <= 0 {
		panic(plainError("invalid argument to rand function"))
	}
}

func RandSeed(int64)              {}
func RandInt() int                { return int(rnd() >> 1) }
func RandInt63() int64            { return int64(rnd() >> 1) }
func RandInt64() int64            { return int64(rnd() >> 1) }
func RandInt31() int32            { return int32(rnd() >> 33) }
func RandInt32() int32            { return int32(rnd() >> 33) }
func RandUint32() uint32          { return uint32(rnd() >> 32) }
func RandUint64() uint64          { return rnd() }
func RandIntn(n int) int          { bound(n); return Choose(n) }
func RandIntN(n int) int          { bound(n); return Choose(n) }
func RandInt63n(n int64) int64    { bound(int(n)); return int64(Choose(int(n))) }
func RandInt64N(n int64) int64    { bound(int(n)); return int64(Choose(int(n))) }
func RandInt31n(n int32) int32    { bound(int(n)); return int32(Choose(int(n))) }
func RandInt32N(n int32) int32    { bound(int(n)); return int32(Choose(int(n))) }
func RandUint32N(n uint32) uint32 { bound(int(n)); return uint32(Choose(int(n))) }
func RandUint64N(n uint64) uint64 { bound(int(n)); return uint64(Choose(int(n))) }
func RandUintN(n uint) uint       { bound(int(n)); return uint(Choose(int(n))) }
func RandFloat64() float64        { return float64(rnd()>>11) / (1 << 53) }
func RandFloat32() float32        { return float32(rnd()>>40) / (1 << 24) }
func RandPerm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	RandShuffle(n, func(i, j int) { p[i], p[j] = p[j], p[i] })
	return p
}
func RandShuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, Choose(i+1))
	}
}
