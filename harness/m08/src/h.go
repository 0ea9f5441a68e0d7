package m08

import (
	"github.com/ynqa/wego/pkg/model"
	"github.com/ynqa/wego/pkg/model/lexvec"
	"github.com/ynqa/wego/zzverif/lib"
	"github.com/ynqa/wego/zzverif/vp"
)

func run(one bool) {
	n, dim, neg, win := vp.Param("n", 3), vp.Param("dim", 1), vp.Param("neg", 1), vp.Param("win", 1)
	text, ws := lib.Text(n, "abcdefghijklmnopqrstuvwxyz")
	ids, dic, _ := lib.Index(ws)
	vp.Assume(win == 1 || len(dic) != win) // so that the bound tells the kinds of choices apart
	next := lib.NewNext()
	lr := vp.Float("lr", 0, 2)
	mem := vp.Choose("mem", 2) == 1
	mk := func(iter int) model.Model {
		o := lexvec.DefaultOptions()
		o.Dim, o.Window, o.Iter, o.Goroutines, o.Initlr, o.MinLR, o.UpdateLRBatch = dim, win, iter, 1, lr, 0, 1000
		o.BatchSize, o.MinCount, o.MaxCount, o.NegativeSampleSize, o.SubsampleThreshold = 1000, 0, -1, neg, 1e-6
		o.RelationType, o.DocInMemory = lexvec.Collocation, mem
		m, err := lexvec.NewForOptions(o)
		vp.Assert(err == nil, "model cannot be created")
		return m
	}
	draws := lib.NewDraws(-8, 8)
	word, ctx := draws.Initial(mk, text, len(dic), dim)
	only := -1
	if one {
		only = vp.Choose("pos", n)
	}
	k := 0
	draws.Later = func() float64 {
		i := k
		k++
		if only < 0 || i == only {
			return 0
		}
		return 0.9999999
	}
	m := mk(1)
	vp.Assert(m.Train(lib.NewReader(text)) == nil, "training fails")
	gotW, gotC := lib.Vectors(m, len(dic), dim)
	ps := lib.Pairs(ids, win)
	value := func(a, b int) float64 {
		return lib.Association(lexvec.Collocation, a, b, ps, nil2(len(dic)), n, 1)
	}
	for pos := range ids {
		if only < 0 || pos == only {
			if len(lib.Neighbours(pos, n, win, 0)) >= 2 {
				vp.Reach("two")
			}
			lib.LexvecStep(ids, pos, win, neg, lr, next, word, ctx, value)
		}
	}
	vp.Assert(lib.Close(gotW, word), "word vectors differ from the update rule")
	vp.Assert(lib.Close(gotC, ctx), "context vectors differ from the update rule")
}

func nil2(n int) []int {
	f := make([]int, n)
	for i := range f {
		f[i] = 1
	}
	return f
}

func One() { run(true) }
func All() { run(false) }

// Threads: two goroutines train the two halves of a text. The halves have no
// word in common and nothing is sampled, so that the result is the same
// whichever way the goroutines take turns.
func Threads() {
	mem := vp.Choose("mem", 2) == 1
	dim, text := vp.Param("dim", 2), "a b c d"
	next := lib.NewNext()
	next.Zero = true
	mk := func(iter int) model.Model {
		o := lexvec.DefaultOptions()
		o.Dim, o.Window, o.Iter, o.Goroutines, o.Initlr, o.MinLR, o.UpdateLRBatch = dim, 1, iter, 2, 0.25, 0, 1000
		o.BatchSize, o.MinCount, o.MaxCount, o.NegativeSampleSize, o.SubsampleThreshold = 2, 0, -1, 0, 0
		o.RelationType, o.DocInMemory = lexvec.Collocation, mem
		m, err := lexvec.NewForOptions(o)
		vp.Assert(err == nil, "model cannot be created")
		return m
	}
	draws := lib.NewDraws(0, 1)
	draws.Given = func(i int) float64 { return float64(i*37%101)/101 + 0.01 }
	word, ctx := draws.Initial(mk, text, 4, dim)
	m := mk(1)
	vp.Assert(m.Train(lib.NewReader(text)) == nil, "training fails")
	gotW, gotC := lib.Vectors(m, 4, dim)
	for _, half := range [][]int{{0, 1}, {2, 3}} {
		for pos := range half {
			lib.LexvecStep(half, pos, 1, 0, 0.25, next, word, ctx, func(a, b int) float64 { return 1 })
		}
	}
	vp.Assert(lib.Close(gotW, word), "word vectors differ from the update rule when two goroutines train")
	vp.Assert(lib.Close(gotC, ctx), "context vectors differ from the update rule when two goroutines train")
}

// Many: a longer text, several iterations, from given vectors and with given
// random choices.
func Many() {
	mem := vp.Choose("mem", 2) == 1
	dim := []int{1, 2, 4, 5, 8, 17}[vp.Choose("dim", 6)]
	win := []int{1, 2, 4, 9}[vp.Choose("win", 4)]
	neg := []int{0, 1, 4, 9}[vp.Choose("neg", 4)]
	text := []string{"a b c a d e a b", "a a b b c c", "e d c b a f a b c g h i"}[vp.Choose("text", 3)]
	lr := []float64{0.01, 0.03}[vp.Choose("lr", 2)]
	rel := []lexvec.RelationType{lexvec.PMI, lexvec.PPMI, lexvec.Collocation, lexvec.LogCollocation}[vp.Choose("rel", 4)]
	ids, dic, freq := lib.Index(lib.Words(text))
	if len(dic) == win {
		win++
	}
	next := lib.NewNext()
	next.Given = func(k, bound int) int { return (k*k*7 + k*3) % 31 % bound }
	mk := func(iter int) model.Model {
		o := lexvec.DefaultOptions()
		o.Dim, o.Window, o.Iter, o.Goroutines, o.Initlr, o.MinLR, o.UpdateLRBatch = dim, win, iter, 1, lr, 0, 1000
		o.BatchSize, o.MinCount, o.MaxCount, o.NegativeSampleSize, o.SubsampleThreshold = 1000, 0, -1, neg, 0
		o.RelationType, o.DocInMemory, o.Smooth = rel, mem, 0.75
		m, err := lexvec.NewForOptions(o)
		vp.Assert(err == nil, "model cannot be created")
		return m
	}
	draws := lib.NewDraws(0, 1)
	draws.Given = func(i int) float64 { return float64(i*37%101) / 101 }
	word, ctx := draws.Initial(mk, text, len(dic), dim)
	m := mk(1)
	vp.Assert(m.Train(lib.NewReader(text)) == nil, "training fails")
	gotW, gotC := lib.Vectors(m, len(dic), dim)
	ps := lib.Pairs(ids, win)
	for pos := range ids {
		lib.LexvecStep(ids, pos, win, neg, lr, next, word, ctx, func(a, b int) float64 {
			return lib.Association(rel, a, b, ps, freq, len(ids), 0.75)
		})
	}
	vp.Assert(lib.Close(gotW, word), "word vectors differ from the update rule")
	vp.Assert(lib.Close(gotC, ctx), "context vectors differ from the update rule")
}
