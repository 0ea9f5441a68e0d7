package m12

import (
	"bytes"
	"math"

	"github.com/ynqa/wego/pkg/model"
	"github.com/ynqa/wego/pkg/model/modelutil/matrix"
	"github.com/ynqa/wego/pkg/model/modelutil/vector"
	"github.com/ynqa/wego/zzverif/lib"
	"github.com/ynqa/wego/zzverif/vp"
	"github.com/ynqa/wego/zzverif/vrand"
)

func hs(kind string) bool { return kind[len(kind)-2:] == "hs" }

func elements(m *matrix.Matrix) [][]float64 {
	r := make([][]float64, m.Row())
	for i := range r {
		r[i] = append([]float64(nil), m.Slice(i)...)
	}
	return r
}

func same(a, b [][]float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if len(a[i]) != len(b[i]) {
			return false
		}
		for j := range a[i] {
			if !vp.Near(a[i][j], b[i][j]) {
				return false
			}
		}
	}
	return true
}

// Export: the size of what is exported, and that exporting changes nothing.
func Export() {
	kind := lib.Kinds[vp.Choose("kind", len(lib.Kinds))]
	c := lib.Default(kind)
	c.Mem = vp.Choose("mem", 2) == 1
	c.Dim = vp.Choose("dim", vp.Param("dim", 3)) + 1
	c.Iter = vp.Choose("iter", 2)
	n := vp.Choose("n", vp.Param("n", 3)+1)
	c.MinCount = vp.Choose("min", 2) * 2
	c.Neg = vp.Choose("neg", 3)
	text, ws := lib.Text(n, "abcdefghijklmnopqrstuvwxyz")
	_, dic, _ := lib.Index(ws)
	lib.Fixed()
	m := c.New()
	vp.Assert(m.Train(lib.NewReader(text)) == nil, "training fails")
	types := []vector.Type{vector.Single, vector.Agg}
	first := map[vector.Type][][]float64{}
	for _, t := range types {
		x := m.WordVector(t)
		vp.Assert(x.Row() == len(dic) && x.Col() == c.Dim, "the exported matrix does not have a row for each word and the dimension as columns")
		first[t] = elements(x)
		for _, r := range first[t] {
			vp.Assert(len(r) == c.Dim, "a row does not have the dimension's length")
		}
	}
	for k := 0; k < 2; k++ {
		for _, t := range types {
			x := m.WordVector(t)
			vp.Assert(same(elements(x), first[t]), "exporting again gives other vectors")
			for i := 0; i < x.Row(); i++ {
				for j := range x.Slice(i) {
					x.Slice(i)[j] += 1 + float64(k)
				}
			}
		}
	}
	for _, t := range types {
		vp.Assert(same(elements(m.WordVector(t)), first[t]), "writing to an exported matrix changes the model")
	}
	if hs(kind) {
		vp.Assert(same(first[vector.Agg], first[vector.Single]), "there are no context vectors, but agg is not single")
	}
	if len(dic) > 1 {
		vp.Reach("words")
	}
}

// params are the exported parameters: the word vectors, then the context
// vectors if there are any.
func params(m model.Model, kind string) (xs []float64) {
	s, a := elements(m.WordVector(vector.Single)), elements(m.WordVector(vector.Agg))
	for i := range s {
		xs = append(xs, s[i]...)
	}
	for i := range s {
		for j := range s[i] {
			if !hs(kind) {
				xs = append(xs, a[i][j]-s[i][j])
			}
		}
	}
	return
}

// fresh trains for no iteration at all; the i-th random draw is draw(i).
func fresh(c lib.Model, text string, draw func(i int) float64) (xs []float64, draws int) {
	vrand.Draw = func() float64 {
		draws++
		return draw(draws - 1)
	}
	c.Iter = 0
	m := c.New()
	vp.Assert(m.Train(lib.NewReader(text)) == nil, "training fails")
	return params(m, c.Kind), draws
}

// origin finds out which draw each parameter is from.
func origin(c lib.Model, text string) (from []int, draws int) {
	x, draws := fresh(c, text, func(int) float64 { return 0.5 })
	for range x {
		from = append(from, -1)
	}
	for k := 0; k < draws; k++ {
		y, _ := fresh(c, text, func(i int) float64 {
			if i == k {
				return 0.75
			}
			return 0.5
		})
		n := 0
		for p := range x {
			if d := x[p] - y[p]; d > 1e-9 || d < -1e-9 { // (w+c)-w is rounded
				vp.Assert(from[p] < 0, "a parameter is from two draws")
				from[p] = k
				n++
			}
		}
		vp.Assert(n < 2, "two parameters are from the same draw")
	}
	for _, k := range from {
		vp.Assert(k >= 0, "a parameter does not come from a random draw")
	}
	return
}

// Init: every parameter comes from its own draw, whatever the draws are.
func Init() {
	c := lib.Default(lib.Kinds[vp.Choose("kind", len(lib.Kinds))])
	c.Mem = vp.Choose("mem", 2) == 1
	c.Dim = vp.Choose("dim", vp.Param("dim", 3)) + 1
	c.Neg = vp.Choose("neg", 2)
	words := vp.Choose("n", vp.Param("n", 3)) + 1
	text := "a b c d e f g h"[:2*words-1]
	from, draws := origin(c, text)
	want := words * c.Dim
	if !hs(c.Kind) {
		want *= 2
	}
	vp.Assert(len(from) == want, "the number of parameters is wrong")
	// and now for all values: changing one draw changes no other parameter
	vals := make([]float64, draws)
	for i := range vals {
		vals[i] = vp.Float("draw", 0, 1)
	}
	x, _ := fresh(c, text, func(i int) float64 { return vals[i] })
	other := vp.Float("other", 0, 1)
	k := vp.Choose("k", draws)
	y, _ := fresh(c, text, func(i int) float64 {
		if i == k {
			return other
		}
		return vals[i]
	})
	lim := 1 / float64(c.Dim)
	for p := range x {
		vp.Assert(vp.And(x[p] <= lim+1e-9, x[p] >= -lim-1e-9), "a parameter is not within 1/dim")
		if from[p] != k {
			vp.Assert(vp.Near(x[p], y[p]), "a parameter is from a draw that is another's")
		} else {
			vp.Assert(vp.Or(vp.Near(vals[k], other), x[p] != y[p]), "a parameter does not follow its draw")
		}
	}
}

// Trained: after training, the exported vectors are the word vectors, and the
// sums of word and context vectors, of the reference.
func Trained() {
	kind := lib.Kinds[vp.Choose("kind", len(lib.Kinds))]
	c := lib.Default(kind)
	c.Mem = true
	c.Dim = vp.Choose("dim", vp.Param("dim", 2)) + 1
	c.Iter, c.Lr, c.MinLR = 2, 0.5, 0
	if !hs(kind) && kind[0] != 'g' {
		c.Neg = vp.Choose("neg", 2)
	}
	n := vp.Choose("n", vp.Param("n", 3)) + 1
	text, ws := lib.Text(n, "abcdefghijklmnopqrstuvwxyz")
	ids, dic, freq := lib.Index(ws)
	next := lib.NewNext()
	next.Given = func(k, bound int) int { return k * 5 % 7 % bound }
	if kind[0] != 'g' && kind != "lexvec" {
		lib.HookSigmoid()
	}
	if kind[0] == 'g' {
		glove(c, text, ids, len(dic))
		return
	}
	draws := lib.NewDraws(0, 1)
	draws.Given = func(i int) float64 { return math.Mod(math.Sqrt(2)*float64(i*i+i+1), 1) + float64(i%3) }
	mk := func(iter int) model.Model {
		d := c
		d.Iter = iter
		return d.New()
	}
	word, ctx := draws.Initial(mk, text, len(dic), c.Dim)
	draws.Later = func() float64 { return 0 }
	m := mk(c.Iter)
	vp.Assert(m.Train(lib.NewReader(text)) == nil, "training fails")
	single, agg := elements(m.WordVector(vector.Single)), elements(m.WordVector(vector.Agg))
	ref := lib.W2V{Dim: c.Dim, Neg: c.Neg, Win: c.Window, Cbow: kind[0] == 'c'}
	ps := lib.Pairs(ids, c.Window)
	tree := (*lib.Tree)(nil)
	if hs(kind) {
		tree = lib.NewTree(ws, c.Dim)
	}
	for it := 0; it < c.Iter; it++ {
		for pos := range ids {
			switch {
			case hs(kind):
				ref.HsStep(ids, pos, c.Lr, next, word, tree)
			case kind == "lexvec":
				lib.LexvecStep(ids, pos, c.Window, c.Neg, c.Lr, next, word, ctx, func(a, b int) float64 {
					return lib.Association(c.Relation, a, b, ps, freq, len(ids), c.Smooth)
				})
			default:
				ref.NsStep(ids, pos, c.Lr, next, word, ctx)
			}
		}
	}
	for i := range single {
		sum := make([]float64, c.Dim)
		for j := range sum {
			sum[j] = word[i][j] + ctx[i][j]
		}
		vp.Assert(lib.Close([][]float64{single[i]}, [][]float64{word[i]}), "a row of type single is not the word's vector")
		vp.Assert(lib.Close([][]float64{agg[i]}, [][]float64{sum}), "a row of type agg is not the sum of the word's two vectors")
	}
	if len(dic) > 1 {
		vp.Reach("words")
	}
}

// glove is Trained for glove: the biases are not exported, so all get the same
// value, and the order of the pairs is not given.
func glove(c lib.Model, text string, ids []int, words int) {
	from, draws := origin(c, text)
	at := make([]float64, draws)
	for i := range at {
		at[i] = 0.25
	}
	for p, k := range from {
		at[k] = math.Mod(math.Sqrt(2)*float64(p*p+p+1), 1)
	}
	x, _ := fresh(c, text, func(i int) float64 { return 0.25 })
	bias := x[0]
	x, _ = fresh(c, text, func(i int) float64 { return at[i] })
	g := lib.Glove{Lr: c.Lr, Ada: c.Kind == "glove-adagrad"}
	for i := 0; i < 2*words; i++ {
		row := append(append([]float64(nil), x[i*c.Dim:(i+1)*c.Dim]...), bias)
		if i < words {
			g.Word = append(g.Word, row)
		} else {
			g.Ctx = append(g.Ctx, row)
		}
	}
	g.Init()
	k := 0
	vrand.Draw = func() float64 {
		k++
		return at[k-1]
	}
	m := c.New()
	vp.Assert(m.Train(lib.NewReader(text)) == nil, "training fails")
	single, agg := elements(m.WordVector(vector.Single)), elements(m.WordVector(vector.Agg))
	ps := lib.Pairs(ids, c.Window)
	orders := lib.Orders(len(ps))
	var try func(it int, g lib.Glove) bool
	try = func(it int, g lib.Glove) bool {
		if it == c.Iter {
			sum := lib.Cut(g.Word)
			for i := range sum {
				sum[i] = append([]float64(nil), sum[i]...)
				for j := range sum[i] {
					sum[i][j] += g.Ctx[i][j]
				}
			}
			return vp.And(lib.Close(single, lib.Cut(g.Word)), lib.Close(agg, sum))
		}
		for _, o := range orders {
			h := g.Clone()
			h.Step(ps, o, c.Xmax, c.Alpha)
			if try(it+1, h) {
				return true
			}
		}
		return false
	}
	vp.Assert(try(0, g), "the exported vectors are not the word vectors, and the sums of word and context vectors")
}

// Again: training a model once more, on another text, gives what a new model
// gives.
func Again() {
	c := lib.Default(lib.Kinds[vp.Choose("kind", len(lib.Kinds))])
	c.Mem, c.Low = vp.Choose("mem", 2) == 1, vp.Choose("low", 2) == 1
	c.Dim = 2
	c.MinCount = vp.Choose("min", 2) * 2
	one, _ := lib.Text(vp.Choose("first", vp.Param("n", 3)+1), "abA")
	n := vp.Param("n", 3)
	if c.Kind[0] == 'g' && n > 2 {
		n = 2 // glove trains several pairs in any order
	}
	two, ws := lib.Text(vp.Choose("second", n+1), "abAB")
	train := func(m model.Model, text string) {
		lib.Fixed()
		next := lib.NewNext()
		next.Given = func(k, bound int) int { return k * 5 % bound }
		vp.Assert(m.Train(lib.NewReader(text)) == nil, "training fails")
	}
	m, fresh := c.New(), c.New()
	train(m, one)
	old := elements(m.WordVector(vector.Agg))
	kept := m.WordVector(vector.Agg)
	train(m, two)
	train(fresh, two)
	_, dic, _ := lib.Index(lib.LowerAll(ws, c.Low))
	for _, t := range []vector.Type{vector.Single, vector.Agg} {
		x := m.WordVector(t)
		vp.Assert(x.Row() == len(dic) && x.Col() == c.Dim, "the exported matrix does not have a row for each word of the text trained last")
		vp.Assert(same(elements(x), elements(fresh.WordVector(t))), "training again gives other vectors than a new model")
	}
	vp.Assert(same(elements(kept), old), "training again changes a matrix exported earlier")
	var a, b bytes.Buffer
	vp.Assert(m.Save(&a, vector.Agg) == nil && fresh.Save(&b, vector.Agg) == nil, "saving fails")
	vp.Assert(a.String() == b.String(), "a model trained again saves something else than a new one")
}

// Large: more words than usual, given ones but for the last.
func Large() {
	kind := lib.Kinds[vp.Choose("kind", len(lib.Kinds))]
	c := lib.Default(kind)
	c.Mem = vp.Choose("mem", 2) == 1
	c.Dim = []int{1, 5, 33}[vp.Choose("dim", 3)]
	c.MinCount = vp.Choose("min", 2) * 2
	n := vp.Param("n", 40)
	text := ""
	many := lib.Many(n)
	for i := range many {
		text += many[i] + " " + many[i*i%n] + " "
	}
	text += vp.String("last", 1, "AB")
	_, dic, _ := lib.Index(lib.Words(text))
	lib.Fixed()
	m := c.New()
	vp.Assert(m.Train(lib.NewReader(text)) == nil, "training fails")
	var first [][][]float64
	types := []vector.Type{vector.Single, vector.Agg}
	for _, t := range types {
		x := m.WordVector(t)
		vp.Assert(x.Row() == len(dic) && x.Col() == c.Dim, "the exported matrix does not have a row for each word and the dimension as columns")
		first = append(first, elements(x))
		for i := 0; i < x.Row(); i++ {
			for j := range x.Slice(i) {
				x.Slice(i)[j] += float64(i + 1)
			}
		}
	}
	for i, t := range types {
		vp.Assert(same(elements(m.WordVector(t)), first[i]), "writing to an exported matrix changes the model")
	}
	vp.Assert(same(first[0], first[1]) == hs(kind), "agg is single though there are context vectors, or is not though there are none")
}
