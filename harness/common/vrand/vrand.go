// Package vrand stands in for math/rand in the code under test: every draw is
// an arbitrary value of the documented range.
package vrand

import "github.com/ynqa/wego/zzverif/vp"

// Draw supplies a value in [0,1); harnesses may replace it.
var Draw func() float64

func Float64() float64 {
	if Draw != nil {
		return Draw()
	}
	return vp.Float("rand", 0, 0.999999)
}

func Float32() float32 { return float32(Float64()) }

func Intn(n int) int {
	if n <= 0 {
		panic("invalid argument to Intn")
	}
	return vp.Int("randn", 0, n-1)
}
func IntN(n int) int       { return Intn(n) }
func Int63n(n int64) int64 { return int64(Intn(int(n))) }
func Int31n(n int32) int32 { return int32(Intn(int(n))) }
func Int64N(n int64) int64 { return int64(Intn(int(n))) }
func Int() int             { return vp.Int("rand63", 0, 1<<62) }
func Int63() int64         { return int64(Int()) }
func Int31() int32         { return int32(vp.Int("rand31", 0, 1<<31-1)) }
func Uint32() uint32       { return uint32(vp.Int("rand32", 0, 1<<32-1)) }
func Seed(seed int64)      {}
func NormFloat64() float64 { return vp.Float("randnorm", -4, 4) }
func Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, Intn(i+1))
	}
}

func Perm(n int) []int {
	m := make([]int, n)
	for i := range m {
		m[i] = i
	}
	Shuffle(n, func(i, j int) { m[i], m[j] = m[j], m[i] })
	return m
}

type Source interface{ Int63() int64 }

type src struct{}

func (src) Int63() int64 { return Int63() }

func NewSource(seed int64) Source { return src{} }

type Rand struct{ s Source }

func New(s Source) *Rand { return &Rand{s} }

func (r *Rand) Float64() float64                   { return Float64() }
func (r *Rand) Float32() float32                   { return Float32() }
func (r *Rand) Intn(n int) int                     { return Intn(n) }
func (r *Rand) Int63n(n int64) int64               { return Int63n(n) }
func (r *Rand) Int31n(n int32) int32               { return Int31n(n) }
func (r *Rand) Int() int                           { return Int() }
func (r *Rand) Int63() int64                       { return Int63() }
func (r *Rand) Perm(n int) []int                   { return Perm(n) }
func (r *Rand) Shuffle(n int, swap func(i, j int)) { Shuffle(n, swap) }
func (r *Rand) Seed(seed int64)                    {}
