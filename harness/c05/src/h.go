package c05

import (
	"github.com/ynqa/wego/pkg/corpus/cooccurrence/encode"
	"github.com/ynqa/wego/zzverif/vp"
)

const lim = uint64(1) << 32

// Pair: symmetry, decoding and injectivity for arbitrary ids below 2^32.
func Pair() {
	a, b := vp.Uint64("a"), vp.Uint64("b")
	c, d := vp.Uint64("c"), vp.Uint64("d")
	vp.Assume(a < lim)
	vp.Assume(b < lim)
	vp.Assume(c < lim)
	vp.Assume(d < lim)
	ab, ba := encode.EncodeBigram(a, b), encode.EncodeBigram(b, a)
	vp.Assert(ab == ba, "code depends on the order of the ids")
	x, y := encode.DecodeBigram(ab)
	lo := a
	hi := b
	if b < a {
		lo, hi = b, a
	}
	vp.Assert(vp.And(x == lo, y == hi), "decoding does not give smaller then larger id")
	cd := encode.EncodeBigram(c, d)
	same := vp.Or(vp.And(a == c, b == d), vp.And(a == d, b == c))
	vp.Assert(vp.Implies(ab == cd, same), "two different pairs share a code")
	vp.Reach("pair")
}
