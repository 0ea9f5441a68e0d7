package m10

import (
	"github.com/ynqa/wego/pkg/corpus/dictionary"
	"github.com/ynqa/wego/zzverif/vp"
)

const limit = 1 << 40

func freq() int { return vp.Int("freq", 1, limit) }

func anyOf(freqs []int) *dictionary.Dictionary { return dictionary.ZZVocabulary(freqs) }
