package word2vec

// ZZSigmoid returns the tabulated sigmoid.
func ZZSigmoid() func(float64) float64 {
	t := newSigmoidTable()
	return t.sigmoid
}
