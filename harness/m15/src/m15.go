package m15

import (
	"bytes"
	"math"

	"github.com/ynqa/wego/pkg/model"
	"github.com/ynqa/wego/pkg/model/modelutil/matrix"
	"github.com/ynqa/wego/pkg/model/modelutil/vector"
	"github.com/ynqa/wego/zzverif/lib"
	"github.com/ynqa/wego/zzverif/vp"
	"github.com/ynqa/wego/zzverif/vrand"
)

// all that a model has to show
type shown struct {
	single, agg [][]float64
	saved       [2]string
}

var types = []vector.Type{vector.Single, vector.Agg}

func show(m model.Model) (s shown) {
	s.single, s.agg = elements(m.WordVector(vector.Single)), elements(m.WordVector(vector.Agg))
	for i, t := range types {
		var b bytes.Buffer
		vp.Assert(m.Save(&b, t) == nil, "saving fails")
		s.saved[i] = b.String()
	}
	return
}

func (s shown) is(o shown, what string) {
	vp.Assert(same(s.single, o.single) && same(s.agg, o.agg), what+" the vectors")
	vp.Assert(s.saved == o.saved, what+" what is saved")
}

// train with given random numbers and choices.
func train(c lib.Model, text string) model.Model {
	lib.Fixed()
	next := lib.NewNext()
	next.Given = func(k, bound int) int { return k * 5 % bound }
	m := c.New()
	vp.Assert(m.Train(lib.NewReader(text)) == nil, "training fails")
	return m
}

func config(which string) lib.Model {
	c := lib.Default(lib.Kinds[vp.Choose(which, len(lib.Kinds))])
	c.Dim, c.Lr = vp.Choose("dim", 2)+1, 0.5
	if vp.Choose("other", 2) == 1 { // what else is not the default
		c.Mem, c.Low, c.MinCount, c.Neg, c.Depth, c.Smooth, c.Window, c.Alpha, c.Xmax, c.Subsample = true, true, 2, 2, 1, 1, 2, 1, 2, 0.3
	}
	return c
}

// After: a model trained after another one, of any kind, has the vectors that
// its own text and options give; the other one keeps its own.
func After() {
	one := config("first")
	a := []string{"a", "a b", "a b b b", "a b c a b c d", "a b b"}[vp.Choose("text", 5)]
	m := train(one, a)
	was := show(m)
	kind := lib.Kinds[vp.Choose("second", len(lib.Kinds))]
	b, ws := lib.Text(vp.Choose("n2", vp.Param("n", 3))+1, "abcdefghijklmnopqrstuvwxyz")
	reference(kind, b, ws, vp.Choose("mem", 2) == 1)
	show(m).is(was, "training another model changes")
	if len(was.single) > 1 {
		vp.Reach("words")
	}
}

// Between: what is done with one model between another one's creation,
// training, export and saving does not matter.
func Between() {
	one, two := config("first"), config("second")
	a, _ := lib.Text(vp.Choose("n1", 2)+1, "abA")
	b, ids := lib.Text(vp.Choose("n2", 2)+1, "abA")
	alone := show(train(one, a))
	at := vp.Choose("at", 3)
	lib.Fixed()
	next := lib.NewNext()
	next.Given = func(k, bound int) int { return k * 5 % bound }
	m := one.New()
	var o model.Model
	if at == 0 {
		o = train(two, b)
		lib.Fixed()
		next = lib.NewNext()
		next.Given = func(k, bound int) int { return k * 5 % bound }
	} else {
		o = two.New()
	}
	vp.Assert(m.Train(lib.NewReader(a)) == nil, "training fails")
	show(m).is(alone, "another model changes")
	if at == 1 {
		vp.Assert(o.Train(lib.NewReader(b)) == nil, "training fails")
		show(o)
	}
	if at == 2 {
		m2 := two.New()
		vp.Assert(m2.Train(lib.NewReader(b)) == nil, "training fails")
		for _, t := range types {
			x := m2.WordVector(t)
			for i := 0; i < x.Row(); i++ {
				for j := range x.Slice(i) {
					x.Slice(i)[j] += 3
				}
			}
		}
	}
	show(m).is(alone, "another model changes")
	if len(ids) > 1 {
		vp.Reach("both")
	}
}

// Again: a model that is trained again, after a training that succeeds or
// fails, has the vectors that a new one has.
func Again() {
	c := config("kind")
	a, _ := lib.Text(vp.Choose("n1", vp.Param("first", 2))+1, "ab")
	n := vp.Choose("n2", vp.Param("n", 2)) + 1
	b, _ := lib.Text(n, "abA")
	c.Iter = vp.Choose("iter", 2) + 1
	if at := vp.Choose("rate", 3); at > 0 {
		c.UpdateLR = n - 1 + at // at the end of an iteration or later: the observer may lag before
	}
	alone := show(train(c, b))
	given := func() {
		lib.Fixed()
		next := lib.NewNext()
		next.Given = func(k, bound int) int { return k * 5 % bound }
	}
	given()
	m := c.New()
	if vp.Choose("fails", 2) == 1 {
		r := lib.NewReader(a + " b")
		r.FailRead = vp.Choose("at", 3)
		vp.Assert((m.Train(r) != nil) == r.Failed, "training does not fail when the reader does")
	} else {
		vp.Assert(m.Train(lib.NewReader(a)) == nil, "training fails")
		if vp.Choose("shown", 2) == 1 {
			show(m)
		}
	}
	given()
	vp.Assert(m.Train(lib.NewReader(b)) == nil, "training fails")
	show(m).is(alone, "an earlier training of the same model changes")
	if n > 1 {
		vp.Reach("words")
	}
}

// Together: two models trained at the same time, in any interleaving, have
// the vectors that each has alone.
func Together() {
	mk := func(kind int) lib.Model {
		c := lib.Default(lib.Kinds[kind%len(lib.Kinds)])
		c.Lr, c.Mem = 0.5, true
		return c
	}
	k := vp.Choose("first", len(lib.Kinds))
	one, two := mk(k), mk(k+vp.Choose("second", vp.Param("others", 2)))
	two.Dim = 2
	a, b := "a b", "c d"
	vrand.Draw = func() float64 { return 0.75 }
	next := lib.NewNext()
	next.Given = func(k, bound int) int { return bound - 1 }
	run := func(c lib.Model, text string) model.Model {
		m := c.New()
		vp.Assert(m.Train(lib.NewReader(text)) == nil, "training fails")
		return m
	}
	wa, wb := show(run(one, a)), show(run(two, b))
	got := make(chan shown)
	go func() { got <- show(run(two, b)) }()
	ga := show(run(one, a))
	gb := <-got
	ga.is(wa, "a model trained at the same time changes")
	gb.is(wb, "a model trained at the same time changes")
	if one.Kind != two.Kind {
		vp.Reach("both")
	}
}

func elements(m *matrix.Matrix) [][]float64 {
	r := make([][]float64, m.Row())
	for i := range r {
		r[i] = append([]float64(nil), m.Slice(i)...)
	}
	return r
}

func same(a, b [][]float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if len(a[i]) != len(b[i]) {
			return false
		}
		for j := range a[i] {
			if !vp.Near(a[i][j], b[i][j]) {
				return false
			}
		}
	}
	return true
}

func hs(kind string) bool { return kind[len(kind)-2:] == "hs" }

func params(m model.Model, kind string) (xs []float64) {
	s, a := elements(m.WordVector(vector.Single)), elements(m.WordVector(vector.Agg))
	for i := range s {
		xs = append(xs, s[i]...)
	}
	for i := range s {
		for j := range s[i] {
			if !hs(kind) {
				xs = append(xs, a[i][j]-s[i][j])
			}
		}
	}
	return
}

func fresh(c lib.Model, text string, draw func(i int) float64) (xs []float64, draws int) {
	vrand.Draw = func() float64 {
		draws++
		return draw(draws - 1)
	}
	c.Iter = 0
	m := c.New()
	vp.Assert(m.Train(lib.NewReader(text)) == nil, "training fails")
	return params(m, c.Kind), draws
}

func origin(c lib.Model, text string) (from []int, draws int) {
	x, draws := fresh(c, text, func(int) float64 { return 0.5 })
	for range x {
		from = append(from, -1)
	}
	for k := 0; k < draws; k++ {
		y, _ := fresh(c, text, func(i int) float64 {
			if i == k {
				return 0.75
			}
			return 0.5
		})
		n := 0
		for p := range x {
			if d := x[p] - y[p]; d > 1e-9 || d < -1e-9 { // (w+c)-w is rounded
				vp.Assert(from[p] < 0, "a parameter is from two draws")
				from[p] = k
				n++
			}
		}
		vp.Assert(n < 2, "two parameters are from the same draw")
	}
	for _, k := range from {
		vp.Assert(k >= 0, "a parameter does not come from a random draw")
	}
	return
}

// reference: the vectors are those of the reference model.
func reference(kind, text string, ws []string, mem bool) {
	c := lib.Default(kind)
	c.Mem = mem
	c.Dim = 2
	c.Iter, c.Lr, c.MinLR = 2, 0.5, 0
	if !hs(kind) && kind[0] != 'g' {
		c.Neg = 1
	}
	ids, dic, freq := lib.Index(ws)
	next := lib.NewNext()
	next.Given = func(k, bound int) int { return k * 5 % 7 % bound }
	if kind[0] != 'g' && kind != "lexvec" {
		lib.HookSigmoid()
	}
	if kind[0] == 'g' {
		glove(c, text, ids, len(dic))
		return
	}
	draws := lib.NewDraws(0, 1)
	draws.Given = func(i int) float64 { return math.Mod(math.Sqrt(2)*float64(i*i+i+1), 1) + float64(i%3) }
	mk := func(iter int) model.Model {
		d := c
		d.Iter = iter
		return d.New()
	}
	kept := 1 // words that occur less often are not selected
	if vp.Choose("subsample", 2) == 1 {
		c.Subsample, kept = 0.3, 2
	}
	word, ctx := draws.Initial(mk, text, len(dic), c.Dim)
	if draws.Later = func() float64 { return 0 }; kept > 1 {
		draws.Later = func() float64 { return 0.5 }
	}
	m := mk(c.Iter)
	vp.Assert(m.Train(lib.NewReader(text)) == nil, "training fails")
	single, agg := elements(m.WordVector(vector.Single)), elements(m.WordVector(vector.Agg))
	ref := lib.W2V{Dim: c.Dim, Neg: c.Neg, Win: c.Window, Cbow: kind[0] == 'c'}
	ps := lib.Pairs(ids, c.Window)
	tree := (*lib.Tree)(nil)
	if hs(kind) {
		tree = lib.NewTree(ws, c.Dim)
	}
	for it := 0; it < c.Iter; it++ {
		for pos, id := range ids {
			if freq[id] < kept {
				continue
			}
			switch {
			case hs(kind):
				ref.HsStep(ids, pos, c.Lr, next, word, tree)
			case kind == "lexvec":
				lib.LexvecStep(ids, pos, c.Window, c.Neg, c.Lr, next, word, ctx, func(a, b int) float64 {
					return lib.Association(c.Relation, a, b, ps, freq, len(ids), c.Smooth)
				})
			default:
				ref.NsStep(ids, pos, c.Lr, next, word, ctx)
			}
		}
	}
	for i := range single {
		sum := make([]float64, c.Dim)
		for j := range sum {
			sum[j] = word[i][j] + ctx[i][j]
		}
		vp.Assert(lib.Close([][]float64{single[i]}, [][]float64{word[i]}), "a model trained after another one does not have the vectors of its own text and options")
		vp.Assert(lib.Close([][]float64{agg[i]}, [][]float64{sum}), "a model trained after another one does not have the vectors of its own text and options")
	}
}

func glove(c lib.Model, text string, ids []int, words int) {
	from, draws := origin(c, text)
	at := make([]float64, draws)
	for i := range at {
		at[i] = 0.25
	}
	for p, k := range from {
		at[k] = math.Mod(math.Sqrt(2)*float64(p*p+p+1), 1)
	}
	x, _ := fresh(c, text, func(i int) float64 { return 0.25 })
	bias := x[0]
	x, _ = fresh(c, text, func(i int) float64 { return at[i] })
	g := lib.Glove{Lr: c.Lr, Ada: c.Kind == "glove-adagrad"}
	for i := 0; i < 2*words; i++ {
		row := append(append([]float64(nil), x[i*c.Dim:(i+1)*c.Dim]...), bias)
		if i < words {
			g.Word = append(g.Word, row)
		} else {
			g.Ctx = append(g.Ctx, row)
		}
	}
	g.Init()
	k := 0
	vrand.Draw = func() float64 {
		k++
		return at[k-1]
	}
	m := c.New()
	vp.Assert(m.Train(lib.NewReader(text)) == nil, "training fails")
	single, agg := elements(m.WordVector(vector.Single)), elements(m.WordVector(vector.Agg))
	ps := lib.Pairs(ids, c.Window)
	orders := lib.Orders(len(ps))
	var try func(it int, g lib.Glove) bool
	try = func(it int, g lib.Glove) bool {
		if it == c.Iter {
			sum := lib.Cut(g.Word)
			for i := range sum {
				sum[i] = append([]float64(nil), sum[i]...)
				for j := range sum[i] {
					sum[i][j] += g.Ctx[i][j]
				}
			}
			return vp.And(lib.Close(single, lib.Cut(g.Word)), lib.Close(agg, sum))
		}
		for _, o := range orders {
			h := g.Clone()
			h.Step(ps, o, c.Xmax, c.Alpha)
			if try(it+1, h) {
				return true
			}
		}
		return false
	}
	vp.Assert(try(0, g), "a model trained after another one does not have the vectors of its own text and options")
}
