package rand

import "github.com/mozilla/crlite/go/zzvf/vf"

// VFSymbolic makes the functions below return arbitrary values.
var VFSymbolic bool

func Seed(seed int64) {}

func Int63n(n int64) int64 {
	if n <= 0 {
		panic("invalid argument to Int63n")
	}
	if !VFSymbolic {
		return 0
	}
	v := vf.I64("rand.Int63n")
	vf.Assume(vf.And(v >= 0, v < n))
	return v
}

func Int63() int64         { return Int63n(1<<63 - 1) }
func Int31n(n int32) int32 { return int32(Int63n(int64(n))) }
func Intn(n int) int       { return int(Int63n(int64(n))) }
func Int() int             { return int(Int63()) }
func Uint32() uint32       { return uint32(Int63() >> 31) }
func Uint64() uint64       { return uint64(Int63()) << 1 }
func Float64() float64     { return 0.5 }
func NormFloat64() float64 { return 0 }
func ExpFloat64() float64  { return 1 }
func Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	return p
}
func Shuffle(n int, swap func(i, j int)) {}
