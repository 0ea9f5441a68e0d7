package m02

import (
	"sync"

	"github.com/ynqa/wego/zzverif/lib"
	"github.com/ynqa/wego/zzverif/vp"
	"github.com/ynqa/wego/zzverif/vrand"
)

// offered records which words are offered to the subsampling decision.
type offered struct {
	mu  sync.Mutex
	ids []int
}

func record() *offered {
	o := &offered{}
	vp.Hook("Subsampler.Trial", func(id int) bool {
		o.mu.Lock()
		o.ids = append(o.ids, id)
		o.mu.Unlock()
		return false
	})
	return o
}

// Words: word2vec and lexvec.
func Words() {
	kind := []string{"skipgram-ns", "lexvec", "cbow-hs"}[vp.Choose("kind", vp.Param("kinds", 3))]
	c := lib.Default(kind)
	n := vp.Choose("n", vp.Param("n", 3)+1)
	c.Mem = vp.Choose("mem", 2) == 1
	c.Threads = vp.Choose("threads", vp.Param("threads", 3)) + 1
	c.Iter = vp.Choose("iter", vp.Param("iter", 2)) + 1
	c.MinCount = vp.Choose("min", vp.Param("min", 2)) * 2
	c.UpdateLR = vp.Choose("lr", vp.Param("lr", 2)) + 1
	if c.Mem {
		c.Batch = 7
	} else {
		c.Batch = vp.Choose("batch", vp.Param("batch", 3)) + 1
	}
	text, ws := lib.Text(n, "abcdefghijklmnopqrstuvwxyz")
	ids, dic, freq := lib.Index(ws)
	lib.Fixed()
	o := record()
	m := c.New()
	vp.Assert(m.Train(lib.NewReader(text)) == nil, "training fails")
	o.mu.Lock()
	got := append([]int(nil), o.ids...)
	o.mu.Unlock()
	length := 0
	for _, id := range ids {
		if freq[id] >= c.MinCount {
			length++
		}
	}
	vp.Assert(len(got) == length*c.Iter, "training does not offer every occurrence once per iteration")
	for it := 0; it < c.Iter; it++ {
		seen := make([]int, len(dic))
		for _, id := range got[it*length : (it+1)*length] {
			vp.Assert(id >= 0 && id < len(dic), "an unknown word is offered")
			seen[id]++
		}
		for id, f := range freq {
			want := f
			if f < c.MinCount {
				want = 0
			}
			vp.Assert(seen[id] == want, "an iteration does not offer a word as often as it occurs")
		}
	}
	if length > 1 && c.Threads > 1 {
		vp.Reach("parallel")
	}
	if length < n {
		vp.Reach("filtered")
	}
}

// Pairs: glove. How the vectors move tells which pairs are trained how often.
func Pairs() {
	kind := []string{"glove-sgd", "glove-adagrad"}[vp.Choose("kind", vp.Param("kinds", 2))]
	c := lib.Default(kind)
	n := vp.Choose("n", vp.Param("n", 3)+1)
	c.Mem = vp.Choose("mem", vp.Param("mem", 2)) == 1
	c.Threads = vp.Choose("threads", vp.Param("threads", 4)) + 1
	c.Iter = vp.Choose("iter", vp.Param("iter", 2)) + 1
	c.Lr = 0.5
	text, ws := lib.Text(n, "abcdefghijklmnopqrstuvwxyz")
	ids, dic, _ := lib.Index(ws)
	vrand.Draw = func() float64 { return 0.5 }
	m := c.New()
	vp.Assert(m.Train(lib.NewReader(text)) == nil, "training fails")
	w, ctx := lib.Vectors(m, len(dic), 1)
	ps := lib.Pairs(ids, c.Window)
	if len(ps) > 1 && c.Threads > 1 {
		vp.Reach("parallel")
	}
	rows := func() [][]float64 {
		var r [][]float64
		for range dic {
			r = append(r, []float64{0.5, 0.5})
		}
		return r
	}
	// each iteration can train the pairs in another order
	orders := lib.Orders(len(ps))
	var try func(it int, g lib.Glove) bool
	try = func(it int, g lib.Glove) bool {
		if it == c.Iter {
			return lib.Close(w, lib.Cut(g.Word)) && lib.Close(ctx, lib.Cut(g.Ctx))
		}
		for _, o := range orders {
			h := g.Clone()
			h.Step(ps, o, c.Xmax, c.Alpha)
			if try(it+1, h) {
				return true
			}
		}
		return false
	}
	g := lib.Glove{Word: rows(), Ctx: rows(), Lr: c.Lr, Ada: kind == "glove-adagrad"}
	g.Init()
	vp.Assert(try(0, g), "the vectors are not those of training each pair once per iteration, in whichever order")
}

// Many: longer texts, more goroutines and larger batches, with the goroutines
// run one after the other.
func Many() {
	kind := []string{"skipgram-ns", "lexvec", "cbow-hs"}[vp.Choose("kind", 3)]
	c := lib.Default(kind)
	n := vp.Param("n", 70)
	ws := lib.Many(n)
	for i := 3; i < n; i += 4 {
		ws[i] = ws[i-vp.Param("step", 2)]
	}
	text := ""
	for _, w := range ws {
		text += w + " "
	}
	c.Mem = vp.Choose("mem", 2) == 1
	c.Threads = []int{1, 2, 7, 8, 9, 16, 33, n - 1, n, n + 1}[vp.Choose("threads", 10)]
	c.Iter = []int{1, 3}[vp.Choose("iter", 2)]
	c.MinCount = vp.Choose("min", 2) * 2
	c.UpdateLR = 10
	c.Batch = 7
	if !c.Mem {
		c.Batch = []int{1, 7, 8, 16, n - 1, n, n + 1, 4 * n}[vp.Choose("batch", 8)]
	}
	_, dic, freq := lib.Index(ws)
	lib.Fixed()
	o := record()
	m := c.New()
	vp.Assert(m.Train(lib.NewReader(text)) == nil, "training fails")
	seen := make([]int, len(dic))
	for _, id := range o.ids {
		vp.Assert(id >= 0 && id < len(dic), "an unknown word is offered")
		seen[id]++
	}
	for id, f := range freq {
		want := f * c.Iter
		if f < c.MinCount {
			want = 0
		}
		vp.Assert(seen[id] == want, "training does not offer a word as often as it occurs, in each iteration")
	}
}

// Apart: many pairs without a common word, so that their order does not matter.
func Apart() {
	c := lib.Default("glove-sgd")
	k := vp.Param("pairs", 40) // pairs of words, separated by a word that the filter removes
	ws := lib.Many(2 * k)
	text := ""
	for i := 0; i < k; i++ {
		for r := 0; r <= i%3; r++ {
			text += ws[2*i] + " " + ws[2*i+1] + " x "
		}
	}
	c.MaxCount = k - 1
	c.Mem = vp.Choose("mem", 2) == 1
	c.Threads = []int{1, 2, 7, 8, 9, 16, 33, k - 1, k, k + 1, 2 * k}[vp.Choose("threads", 11)]
	c.Iter = []int{1, 3}[vp.Choose("iter", 2)]
	c.Lr = 0.5
	vrand.Draw = func() float64 { return 0.5 }
	m := c.New()
	vp.Assert(m.Train(lib.NewReader(text)) == nil, "training fails")
	ids, dic, _ := lib.Index(lib.Words(text))
	w, ctx := lib.Vectors(m, len(dic), 1)
	out := ids[2]
	rows := func() [][]float64 {
		var r [][]float64
		for range dic {
			r = append(r, []float64{0.5, 0.5})
		}
		return r
	}
	var ps []lib.Pair
	var order []int
	for _, p := range lib.Pairs(ids, 1) {
		if p.A != out && p.B != out {
			order = append(order, len(ps))
			ps = append(ps, p)
		}
	}
	vp.Assert(len(ps) == k, "harness: not as many pairs as meant")
	g := lib.Glove{Word: rows(), Ctx: rows(), Lr: c.Lr}
	g.Init()
	g.Run(ps, order, c.Iter, c.Xmax, c.Alpha)
	vp.Assert(lib.Close(w, lib.Cut(g.Word)) && lib.Close(ctx, lib.Cut(g.Ctx)), "the vectors are not those of training each pair once per iteration")
}
