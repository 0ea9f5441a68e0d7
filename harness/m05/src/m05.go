package m05

import (
	"math"

	"github.com/ynqa/wego/pkg/model/word2vec"
	"github.com/ynqa/wego/zzverif/vp"
)

// mid is a point in the k-th of n parts of the range.
func mid(k, n int) float64 { return -6 + 12*(float64(k)+0.5)/float64(n) }

// start is where the k-th block begins: between two of these points, where the
// value changes (if it does), so that a table entry makes up a block. Blocks
// cover the range whatever the values are.
func start(s func(float64) float64, k, n int) float64 {
	if k <= 0 {
		return math.Nextafter(-6, 0)
	}
	if k >= n {
		return below(single + n - k)
	}
	lo, hi := mid(k-1, n), mid(k, n)
	v := s(hi)
	for i := 0; i < 2200; i++ {
		m := lo + (hi-lo)/2
		if m <= lo || m >= hi {
			break
		}
		if s(m) == v {
			hi = m
		} else {
			lo = m
		}
	}
	return hi
}

// The last doubles below 6 are blocks of their own: there the sum with 6 is
// rounded up to 12.
const single = 6

func below(k int) float64 {
	x := 6.
	for ; k > 0; k-- {
		x = math.Nextafter(x, 0)
	}
	return x
}

// Monotone: no panic, within each block, and from each block to the next; hence
// everywhere. And between 0 and 1.
func Monotone() {
	s := word2vec.ZZSigmoid()
	n := vp.Param("blocks", 1000)
	k := vp.Choose("block", n+single)
	lo, next := start(s, k, n), start(s, k+1, n)
	hi := math.Nextafter(next, -7)
	if hi < lo {
		return // an empty block
	}
	if k < n+single-1 {
		vp.Assert(s(hi) <= s(next), "the value decreases where the argument increases")
	}
	x, y := vp.AnyFloat("x"), vp.AnyFloat("y")
	vp.Assume(vp.And(x >= lo, x <= y, x <= hi, y >= lo, y <= hi))
	a, b := s(x), s(y)
	vp.Assert(vp.And(a > 0, b < 1), "value is not strictly between 0 and 1")
	vp.Assert(a <= b, "the value decreases where the argument increases")
}

func logistic(x float64) float64 { return 1 / (1 + math.Exp(-x)) }

// Accurate: close to the logistic function; it differs by less than 0.0002
// from its linear interpolation over one part.
func Accurate() {
	s := word2vec.ZZSigmoid()
	n := vp.Param("blocks", 96)
	k := vp.Choose("block", n)
	lo, hi := -6+12*float64(k)/float64(n), -6+12*float64(k+1)/float64(n)
	x := vp.Float("x", lo, hi)
	want, tol := 0., 0.004
	if vp.Symbolic() {
		a, b := logistic(lo), logistic(hi)
		want, tol = a+(b-a)/(hi-lo)*(x-lo), 0.0038
	} else {
		want = logistic(x)
	}
	vp.Assume(vp.And(x > -6, x < 6))
	d := s(x) - want
	vp.Assert(vp.And(d <= tol, d >= -tol), "value differs from the logistic function by more than 0.004")
}
