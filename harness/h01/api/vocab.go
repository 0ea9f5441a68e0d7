package h01

import (
	"strconv"

	"github.com/ynqa/wego/pkg/corpus/dictionary"
	"github.com/ynqa/wego/zzverif/vp"
)

const limit = 5

func freq() int { return vp.Fix(vp.Int("freq", 1, 5)) }

func vocabulary(freqs []int) *dictionary.Dictionary {
	d := dictionary.New()
	for i, f := range freqs {
		for k := 0; k < f; k++ {
			d.Add("w" + strconv.Itoa(i))
		}
	}
	return d
}
