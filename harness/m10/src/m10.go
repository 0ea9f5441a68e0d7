package m10

import (
	"math"

	"github.com/ynqa/wego/pkg/corpus/dictionary"
	"github.com/ynqa/wego/pkg/model/modelutil/subsample"
	"github.com/ynqa/wego/zzverif/vp"
	"github.com/ynqa/wego/zzverif/vrand"
)

// vocabulary has words with the given frequencies, added in turns.
func vocabulary(fs []int) *dictionary.Dictionary {
	d := dictionary.New()
	for i := range fs {
		d.Add(string(rune('a' + i)))
	}
	for i, f := range fs {
		for k := 1; k < f; k++ {
			d.Add(string(rune('a' + i)))
		}
	}
	return d
}

// Trial: the decision for any threshold and draw, several times in a row.
func Trial() {
	n, max := vp.Param("words", 2), vp.Param("max", 4)
	fs := make([]int, n)
	for i := range fs {
		fs[i] = vp.Choose("freq", max) + 1
	}
	t := vp.Float("threshold", 0, float64(max+1))
	s := subsample.New(vocabulary(fs), t)
	for k := 0; k < vp.Param("trials", 2); k++ {
		i := vp.Choose("word", n)
		u := vp.Float("draw", 0, 0.999999)
		draws := 0
		vrand.Draw = func() float64 { draws++; return u }
		got := s.Trial(i)
		vp.Assert(draws <= 1, "a decision takes more than one draw")
		z := 1 - math.Sqrt(t/float64(fs[i]))
		want := u < z
		// leave rounding aside: nothing is claimed where the draw meets the limit
		vp.Assume(vp.Or(u < z-1e-9, u > z+1e-9))
		if want {
			vp.Reach("selected")
			vp.Assert(got, "the occurrence is dropped though the draw is below its probability")
		} else {
			vp.Reach("dropped")
			vp.Assert(!got, "the occurrence is selected though the draw is not below its probability")
		}
	}
}

// Edges: a threshold of 0 selects every occurrence, one of at least the
// frequency none, for every draw.
func Edges() {
	max := vp.Param("max", 4)
	f := vp.Choose("freq", max) + 1
	u := vp.Float("draw", 0, 0.999999)
	vrand.Draw = func() float64 { return u }
	d := vocabulary([]int{f})
	vp.Assert(subsample.New(d, 0).Trial(0), "threshold 0 drops an occurrence")
	t := vp.Float("threshold", 0, 1e9)
	vp.Assume(t >= float64(f))
	vp.Assert(!subsample.New(d, t).Trial(0), "a threshold of the frequency or more selects an occurrence")
}

// Given: usual thresholds and frequencies.
func Given() {
	fs := []int{1, 3, 10, 40}
	t := []float64{1e-5, 1e-3, 0.01, 0.5, 2, 20}[vp.Choose("threshold", 6)]
	s := subsample.New(vocabulary(fs), t)
	i := vp.Choose("word", len(fs))
	u := vp.Float("draw", 0, 0.999999)
	vrand.Draw = func() float64 { return u }
	z := 1 - math.Sqrt(t/float64(fs[i]))
	vp.Assume(vp.Or(u < z-1e-9, u > z+1e-9))
	vp.Assert(s.Trial(i) == (u < z), "the decision is not that of the configured probability")
}

// Any: two words of any frequencies, usual and any thresholds.
func Any() {
	fs := []int{freq(), freq()}
	t := []float64{1e-5, 1e-3, 1, 100, 1e6, 1e12, 0}[vp.Choose("threshold", 7)]
	s := subsample.New(anyOf(fs), t)
	i := vp.Choose("word", 2)
	u := vp.Float("draw", 0, 0.999999)
	vrand.Draw = func() float64 { return u }
	z := 1 - math.Sqrt(t/float64(fs[i]))
	vp.Assume(vp.Or(u < z-1e-9, u > z+1e-9))
	vp.Assert(s.Trial(i) == (u < z), "the decision is not that of the configured probability")
	if limit > 1000 && fs[0] == fs[1]+1 {
		vp.Reach("close")
	}
}

// Many: many words, some of the same or nearly the same frequency.
func Many() {
	var fs []int
	for i := 0; i < vp.Param("n", 60); i++ {
		fs = append(fs, 1+i*i%97+i/2)
	}
	fs = append(fs, 300, 301, 300, 1000, 999)
	t := []float64{1e-3, 0.5, 10, 200}[vp.Choose("threshold", 4)]
	s := subsample.New(vocabulary(fs), t)
	i := vp.Choose("word", len(fs))
	u := vp.Float("draw", 0, 0.999999)
	vrand.Draw = func() float64 { return u }
	z := 1 - math.Sqrt(t/float64(fs[i]))
	vp.Assume(vp.Or(u < z-1e-9, u > z+1e-9))
	vp.Assert(s.Trial(i) == (u < z), "the decision is not that of the configured probability")
}
