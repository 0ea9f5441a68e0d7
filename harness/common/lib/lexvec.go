package lib

import (
	"math"

	"github.com/ynqa/wego/pkg/model/lexvec"
)

// Association is the value lexvec is to train a pair of words towards.
func Association(rel string, a, b int, ps []Pair, freq []int, total int, smooth float64) float64 {
	if a > b {
		a, b = b, a
	}
	for _, p := range ps {
		if p.A != a || p.B != b {
			continue
		}
		pmi := math.Log(p.X * math.Pow(float64(total), smooth) / (float64(freq[a]) * math.Pow(float64(freq[b]), smooth)))
		switch rel {
		case lexvec.PMI:
			return pmi
		case lexvec.PPMI:
			if pmi < 0 {
				return 0
			}
			return pmi
		case lexvec.Collocation:
			return p.X
		}
		return math.Log(p.X)
	}
	return 0
}

// LexvecStep is the update for one position.
func LexvecStep(doc []int, pos, win, neg int, lr float64, next *Next, word, ctx [][]float64, value func(a, b int) float64) {
	pull := func(x, y []float64, f float64) {
		e := (Dot(x, y) - f) * lr
		x0, y0 := append([]float64(nil), x...), append([]float64(nil), y...)
		for i := range x {
			x[i] -= e * y0[i]
			y[i] -= e * x0[i] // x and y can be the same vector
		}
	}
	w := doc[pos]
	for _, c := range Neighbours(pos, len(doc), win, next.Take(win)) {
		pull(word[w], word[doc[c]], value(w, doc[c]))
		for k := 0; k < neg; k++ {
			s := next.Take(len(ctx))
			pull(word[w], ctx[s], value(w, s))
		}
	}
}
