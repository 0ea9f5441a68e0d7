package m03

import (
	"github.com/ynqa/wego/pkg/model"
	"github.com/ynqa/wego/pkg/model/word2vec"
	"github.com/ynqa/wego/zzverif/lib"
	"github.com/ynqa/wego/zzverif/vp"
)

type setup struct {
	n, dim, neg, win int
	typ              string
	one              bool // train one position only
}

func run(s setup) {
	text, ws := lib.Text(s.n, "abcdefghijklmnopqrstuvwxyz")
	ids, dic, _ := lib.Index(ws)
	vp.Assume(len(dic) != s.win) // so that the bound tells the kinds of choices apart
	next := lib.NewNext()
	lib.HookSigmoid()
	lr := vp.Float("lr", 0, 2)
	mk := func(iter int) model.Model {
		opts := []word2vec.ModelOption{word2vec.Dim(s.dim), word2vec.Window(s.win), word2vec.Iter(iter), word2vec.Goroutines(1),
			word2vec.Initlr(lr), word2vec.MinLR(0), word2vec.UpdateLRBatch(1000), word2vec.BatchSize(1000), word2vec.MinCount(0),
			word2vec.Model(s.typ), word2vec.Optimizer(word2vec.NegativeSampling), word2vec.NegativeSampleSize(s.neg),
			word2vec.SubsampleThreshold(1e-6), word2vec.DocInMemory()}
		m, err := word2vec.New(opts...)
		vp.Assert(err == nil, "model cannot be created")
		return m
	}
	draws := lib.NewDraws(-8, 8)
	word, ctx := draws.Initial(mk, text, len(dic), s.dim)
	// which positions are selected by subsampling
	only := -1
	if s.one {
		only = vp.Choose("pos", s.n)
	}
	k := 0
	draws.Later = func() float64 {
		i := k
		k++
		if only < 0 || i == only {
			return 0
		}
		return 0.9999999
	}
	m := mk(1)
	vp.Assert(m.Train(lib.NewReader(text)) == nil, "training fails")
	gotW, gotC := lib.Vectors(m, len(dic), s.dim)
	ref := lib.W2V{Dim: s.dim, Neg: s.neg, Win: s.win, Cbow: s.typ == word2vec.Cbow}
	for pos := range ids {
		if only < 0 || pos == only {
			ref.NsStep(ids, pos, lr, next, word, ctx)
		}
	}
	vp.Assert(lib.Close(gotW, word), "word vectors differ from the update rule")
	vp.Assert(lib.Close(gotC, ctx), "context vectors differ from the update rule")
}

func params(typ string, one bool) setup {
	return setup{vp.Param("n", 3), vp.Param("dim", 1), vp.Param("neg", 1), vp.Param("win", 1), typ, one}
}

func SkipGram() { run(params(word2vec.SkipGram, true)) }
func Cbow()     { run(params(word2vec.Cbow, true)) }

func All() {
	run(params([]string{word2vec.SkipGram, word2vec.Cbow}[vp.Choose("type", 2)], false))
}

func Dims() {
	run(params([]string{word2vec.SkipGram, word2vec.Cbow}[vp.Choose("type", 2)], true))
}

// Threads: two goroutines train the two halves of a text. The halves have no
// word in common and nothing is sampled, so that the result is the same
// whichever way the goroutines take turns.
func Threads() {
	typ := []string{word2vec.SkipGram, word2vec.Cbow}[vp.Choose("type", 2)]
	mem := vp.Choose("mem", 2) == 1
	dim, text := vp.Param("dim", 2), "a b c d"
	next := lib.NewNext()
	next.Zero = true
	lib.HookSigmoid()
	mk := func(iter int) model.Model {
		opts := []word2vec.ModelOption{word2vec.Dim(dim), word2vec.Window(1), word2vec.Iter(iter), word2vec.Goroutines(2),
			word2vec.Initlr(0.5), word2vec.MinLR(0), word2vec.UpdateLRBatch(1000), word2vec.BatchSize(2), word2vec.MinCount(0),
			word2vec.Model(typ), word2vec.Optimizer(word2vec.NegativeSampling), word2vec.NegativeSampleSize(0),
			word2vec.SubsampleThreshold(0)}
		if mem {
			opts = append(opts, word2vec.DocInMemory())
		}
		m, err := word2vec.New(opts...)
		vp.Assert(err == nil, "model cannot be created")
		return m
	}
	draws := lib.NewDraws(0, 1)
	draws.Given = func(i int) float64 { return float64(i*37%101)/101 + 0.01 }
	word, ctx := draws.Initial(mk, text, 4, dim)
	m := mk(1)
	vp.Assert(m.Train(lib.NewReader(text)) == nil, "training fails")
	gotW, gotC := lib.Vectors(m, 4, dim)
	ref := lib.W2V{Dim: dim, Win: 1, Cbow: typ == word2vec.Cbow}
	for _, half := range [][]int{{0, 1}, {2, 3}} {
		for pos := range half {
			ref.NsStep(half, pos, 0.5, next, word, ctx)
		}
	}
	vp.Assert(lib.Close(gotW, word), "word vectors differ from the update rule when two goroutines train")
	vp.Assert(lib.Close(gotC, ctx), "context vectors differ from the update rule when two goroutines train")
}

// Many: a longer text, several iterations, from given vectors and with given
// random choices.
func Many() {
	typ := []string{word2vec.SkipGram, word2vec.Cbow}[vp.Choose("type", 2)]
	mem := vp.Choose("mem", 2) == 1
	dim := []int{1, 2, 4, 5, 8, 17}[vp.Choose("dim", 6)]
	win := []int{1, 2, 4, 9}[vp.Choose("win", 4)]
	neg := []int{0, 1, 4, 9}[vp.Choose("neg", 4)]
	text := []string{"a b c a d e a b", "a a b b c c", "e d c b a f a b c g h i"}[vp.Choose("text", 3)]
	lr := []float64{0.025, 0.25}[vp.Choose("lr", 2)]
	ids, dic, _ := lib.Index(lib.Words(text))
	if len(dic) == win {
		win++
	}
	next := lib.NewNext()
	next.Given = func(k, bound int) int { return (k*k*7 + k*3) % 31 % bound }
	lib.HookSigmoid()
	mk := func(iter int) model.Model {
		opts := []word2vec.ModelOption{word2vec.Dim(dim), word2vec.Window(win), word2vec.Iter(iter), word2vec.Goroutines(1),
			word2vec.Initlr(lr), word2vec.MinLR(0), word2vec.UpdateLRBatch(1000), word2vec.BatchSize(1000), word2vec.MinCount(0),
			word2vec.Model(typ), word2vec.Optimizer(word2vec.NegativeSampling), word2vec.NegativeSampleSize(neg),
			word2vec.SubsampleThreshold(0)}
		if mem {
			opts = append(opts, word2vec.DocInMemory())
		}
		m, err := word2vec.New(opts...)
		vp.Assert(err == nil, "model cannot be created")
		return m
	}
	draws := lib.NewDraws(0, 1)
	draws.Given = func(i int) float64 { return float64(i*37%101)/101*8 - 4 }
	word, ctx := draws.Initial(mk, text, len(dic), dim)
	m := mk(2)
	vp.Assert(m.Train(lib.NewReader(text)) == nil, "training fails")
	gotW, gotC := lib.Vectors(m, len(dic), dim)
	ref := lib.W2V{Dim: dim, Neg: neg, Win: win, Cbow: typ == word2vec.Cbow}
	for i := 0; i < 2; i++ {
		for pos := range ids {
			ref.NsStep(ids, pos, lr, next, word, ctx)
		}
	}
	vp.Assert(lib.Close(gotW, word), "word vectors differ from the update rule")
	vp.Assert(lib.Close(gotC, ctx), "context vectors differ from the update rule")
}
