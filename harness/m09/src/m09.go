package m09

import (
	"sync"

	"github.com/ynqa/wego/pkg/model"
	"github.com/ynqa/wego/pkg/model/lexvec"
	"github.com/ynqa/wego/zzverif/lib"
	"github.com/ynqa/wego/zzverif/vp"
)

// What one selected position does to the vectors tells the learning rate at
// that moment. All parameters start at 10, so that each inner product is beyond
// the sigmoid's range and the steps are the rate times known numbers.

type setup struct {
	kind      string
	c         lib.Model
	text      string
	ids       []int // ids of the words that are trained, in order
	dic       int
	freq, all []int
	len       int // corpus length
}

// step is the update for one selected position with the rate.
func (s setup) step(pos int, lr float64, next *lib.Next, word, ctx [][]float64) {
	if s.kind == "lexvec" {
		ps := lib.Pairs(s.all, 1)
		lib.LexvecStep(s.ids, pos, 1, 0, lr, next, word, ctx, func(a, b int) float64 {
			return lib.Association(lexvec.Collocation, a, b, ps, s.freq, s.len, 1)
		})
		return
	}
	nb := lib.Neighbours(pos, len(s.ids), 1, next.Take(1))
	t, smp := s.ids[pos], next.Take(s.dic)
	// the target's error is 1-1, the sample's is 0-1; no neighbours: 0.5 each
	in, g := 0., -lr
	for _, n := range nb {
		in += word[s.ids[n]][0]
	}
	if smp == t {
		return
	}
	e := g * ctx[smp][0]
	ctx[smp][0] += g * in
	for _, n := range nb {
		word[s.ids[n]][0] += e
	}
}

// rate is the learning rate after k words of an iteration.
func (s setup) rate(k int) float64 {
	r := s.c.Lr * (1 - float64(k)/float64(s.len))
	if r < s.c.MinLR {
		vp.Reach("limited")
		return s.c.MinLR
	}
	return r
}

// after is the rate after k words of the iteration, 1 or 2.
func (s setup) after(it, k int) float64 {
	if k = k / s.c.UpdateLR * s.c.UpdateLR; k > 0 {
		return s.rate(k)
	}
	if it == 1 {
		return s.c.Lr
	}
	return s.after(it-1, len(s.ids))
}

func make_() setup {
	s := setup{kind: []string{"cbow-ns", "lexvec"}[vp.Choose("kind", vp.Param("kinds", 2))]}
	s.c = lib.Default(s.kind)
	s.c.Relation = lexvec.Collocation
	if s.kind == "lexvec" {
		s.c.Neg = 0
	}
	words := []string{"a", "b", "a", "c", "b", "d", "a", "b"}[:vp.Choose("n", vp.Param("n", 5)-1-vp.Param("less", 0))+2+vp.Param("less", 0)]
	count := map[string]int{}
	for _, w := range words {
		s.text += w + " "
		count[w]++
	}
	s.len = len(words)
	s.c.MinCount = vp.Choose("min", vp.Param("min", 2)) * 2
	all, dic, freq := lib.Index(words)
	s.all = all
	s.dic, s.freq = len(dic), freq
	for _, id := range all {
		if freq[id] >= s.c.MinCount {
			s.ids = append(s.ids, id)
		} else {
			vp.Reach("filtered")
		}
	}
	s.c.Mem = vp.Choose("mem", vp.Param("mem", 2)) == 1
	s.c.UpdateLR = vp.Choose("update", vp.Param("update", 3)) + 1
	s.c.Iter = vp.Choose("iter", vp.Param("iter", 2)-vp.Param("from", 0)) + 1 + vp.Param("from", 0)
	s.c.Lr, s.c.MinLR = vp.Float("lr", 0, 2), vp.Float("minlr", 0, 2)
	return s
}

// train selects one position of one iteration only, and returns its number (of
// all positions offered), and the vectors before and after.
func (s setup) train() (sel int, next *lib.Next, w0, c0, w1, c1 [][]float64) {
	draws := lib.NewDraws(0, 1)
	draws.Given = func(int) float64 { return 10.5 }
	mk := func(iter int) model.Model {
		c := s.c
		c.Iter = iter
		return c.New()
	}
	k := 0
	vp.Hook("Subsampler.Trial", func(int) bool {
		k++
		return k-1 == sel
	})
	next = lib.NewNext()
	w0, c0 = draws.Initial(mk, s.text, s.dic, 1)
	total := len(s.ids) * s.c.Iter
	if total == 0 {
		vp.Skip()
	}
	sel = vp.Choose("sel", total)
	k = 0
	m := mk(s.c.Iter)
	vp.Assert(m.Train(lib.NewReader(s.text)) == nil, "training fails")
	w1, c1 = lib.Vectors(m, s.dic, 1)
	return
}

// trained reports whether the vectors are those of the step with the rate.
func (s setup) trained(pos int, lr float64, next *lib.Next, w0, c0, w1, c1 [][]float64) bool {
	w, c := lib.Copy(w0), lib.Copy(c0)
	s.step(pos, lr, next.Again(), w, c)
	return vp.And(lib.Close(w1, w), lib.Close(c1, c))
}

// One goroutine: the rate is that of the words processed before, or of one
// less, as the observer counts concurrently.
func One() {
	s := make_()
	sel, next, w0, c0, w1, c1 := s.train()
	it, pos := sel/len(s.ids)+1, sel%len(s.ids)
	late := pos - 1
	a, b := s.after(it, pos), 0.
	switch {
	case late >= 0:
		b = s.after(it, late)
	case it == 1:
		b = a
	default:
		b = s.after(it-1, len(s.ids)-1)
	}
	vp.Assert(vp.Or(s.trained(pos, a, next, w0, c0, w1, c1), s.trained(pos, b, next, w0, c0, w1, c1)),
		"the learning rate is not the one for the progress made")
	if pos >= s.c.UpdateLR {
		vp.Reach("decayed")
		vp.Assert(vp.And(a >= s.c.MinLR, vp.Or(a <= s.c.Lr, s.c.MinLR > s.c.Lr)), "the reference leaves its range")
	}
}

// Several goroutines: the rate is one of those of the updates so far; each
// iteration starts from the beginning.
func Several() {
	s := setup{kind: []string{"cbow-ns", "lexvec"}[vp.Choose("kind", vp.Param("kinds", 2))]}
	s.c = lib.Default(s.kind)
	s.c.Relation = lexvec.Collocation
	if s.kind == "lexvec" {
		s.c.Neg = 0
	}
	n := vp.Param("n", 3)
	words := []string{"a", "b", "c", "d", "e", "f"}[:n]
	for _, w := range words {
		s.text += w + " "
	}
	s.len, s.dic = n, n
	s.all, _, s.freq = lib.Index(words)
	s.c.Batch, s.c.Threads = 2, 2
	s.c.UpdateLR = vp.Choose("update", vp.Param("update", 2)) + 1
	s.c.Iter = vp.Param("iter", 1)
	s.c.Lr, s.c.MinLR = vp.Float("lr", 0, 2), vp.Float("minlr", 0, 2)
	draws := lib.NewDraws(0, 1)
	draws.Given = func(int) float64 { return 10.5 }
	mk := func(iter int) model.Model {
		c := s.c
		c.Iter = iter
		return c.New()
	}
	next := lib.NewNext()
	w0, c0 := draws.Initial(mk, s.text, s.dic, 1)
	sel, it := vp.Choose("sel", n), vp.Choose("it", s.c.Iter)+1
	var mu sync.Mutex
	k := 0
	vp.Hook("Subsampler.Trial", func(id int) bool {
		mu.Lock()
		defer mu.Unlock()
		k++
		return id == sel && (k-1)/n+1 == it
	})
	m := mk(s.c.Iter)
	vp.Assert(m.Train(lib.NewReader(s.text)) == nil, "training fails")
	w1, c1 := lib.Vectors(m, s.dic, 1)
	lo := sel / 2 * 2
	hi := lo + 2
	if hi > n {
		hi = n
	}
	s.ids = s.all[lo:hi]
	rates := []float64{s.c.Lr}
	if it > 1 {
		rates = nil
		for k := (n - 1) / s.c.UpdateLR * s.c.UpdateLR; k <= n; k++ {
			rates = append(rates, s.rate(k))
		}
	}
	for k := s.c.UpdateLR; k < n; k += s.c.UpdateLR {
		rates = append(rates, s.rate(k))
	}
	ok := false
	for _, r := range rates {
		ok = vp.Or(ok, s.trained(sel-lo, r, next, w0, c0, w1, c1))
	}
	vp.Assert(ok, "the learning rate is not that of an update in this iteration")
}
