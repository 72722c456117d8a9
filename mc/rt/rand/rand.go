// Package rand is what math/rand's global functions are replaced with: a fixed sequence per goroutine history.
package rand

import "zzmc/mc"

func Seed(int64)     {}
func Uint64() uint64 { return mc.Rand() }
func Uint32() uint32 { return uint32(mc.Rand() >> 32) }
func Int63() int64   { return int64(mc.Rand() >> 1) }
func Int31() int32   { return int32(mc.Rand() >> 33) }
func Int() int       { return int(mc.Rand() >> 1) }
func Int63n(n int64) int64 {
	if n <= 0 {
		panic("invalid argument to Int63n")
	}
	return Int63() % n
}
func Int31n(n int32) int32 {
	if n <= 0 {
		panic("invalid argument to Int31n")
	}
	return Int31() % n
}
func Intn(n int) int {
	if n <= 0 {
		panic("invalid argument to Intn")
	}
	return Int() % n
}
func IntN(n int) int   { return Intn(n) }
func Float64() float64 { return float64(mc.Rand()>>11) / (1 << 53) }
func Float32() float32 { return float32(mc.Rand()>>40) / (1 << 24) }
func Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	Shuffle(n, func(i, j int) { p[i], p[j] = p[j], p[i] })
	return p
}
func Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, Intn(i+1))
	}
}
