package m06

import (
	co "github.com/ynqa/wego/pkg/corpus/cooccurrence"
	"github.com/ynqa/wego/pkg/model"
	"github.com/ynqa/wego/pkg/model/glove"
	"github.com/ynqa/wego/pkg/model/modelutil/vector"
	"github.com/ynqa/wego/zzverif/lib"
	"github.com/ynqa/wego/zzverif/vp"
	"github.com/ynqa/wego/zzverif/vrand"
)

// run trains glove and compares with the reference; value supplies the i-th
// initial value.
func run(ada bool, value func(i int) float64, lr float64) { runBy(ada, false, value, lr) }

func runBy(ada, prox bool, value func(i int) float64, lr float64) {
	max, dim, iter, win := vp.Param("n", 3), vp.Param("dim", 2), vp.Param("iter", 1), vp.Param("win", 1)
	n := max
	if vp.Choose("short", 2) == 1 {
		n = 2
	}
	text, ws := lib.Text(n, "abcdefghijklmnopqrstuvwxyz")
	runText(text, ws, 0, dim, iter, win, ada, prox, value, lr)
}

// runText trains on the text, without the words that occur less than min times.
func runText(text string, ws []string, min, dim, iter, win int, ada, prox bool, value func(i int) float64, lr float64) {
	ids, dic, freq := lib.Index(ws)
	alpha := []float64{0.75, 0, 0.5, 1, 2}[vp.Choose("alpha", 5)]
	xmax := vp.Choose("xmax", 3) + 1
	typ := glove.Stochastic
	if ada {
		typ = glove.AdaGrad
	}
	mk := func(iter int) model.Model {
		opts := []glove.ModelOption{glove.Dim(dim), glove.Window(win), glove.Iter(iter), glove.Goroutines(1), glove.Initlr(lr),
			glove.Alpha(alpha), glove.Xmax(xmax), glove.Solver(typ), glove.MinCount(min)}
		m, err := glove.New(opts...)
		if prox {
			o := glove.DefaultOptions()
			for _, f := range opts {
				f(&o)
			}
			o.CountType = co.Proximity
			m, err = glove.NewForOptions(o)
		}
		vp.Assert(err == nil, "model cannot be created")
		return m
	}
	v := len(dic)
	// probe: which draws initialise which element? All draws are different, so
	// that the exported vectors tell.
	k := 0
	vrand.Draw = func() float64 {
		k++
		return float64(k) / 1024
	}
	probe := mk(0)
	vp.Assert(probe.Train(lib.NewReader(text)) == nil, "training for 0 iterations fails")
	vp.Assert(k == 2*v*(dim+1), "the number of random draws is not the number of parameters")
	used := make([]bool, k)
	drawOf := func(x float64) int {
		for i := 0; i < k; i++ {
			if vp.Near(x*float64(dim), float64(i+1)/1024) {
				vp.Assert(!used[i], "two parameters come from the same draw")
				used[i] = true
				return i
			}
		}
		vp.Fail("an initial value is not a draw divided by the dimension")
		return 0
	}
	pw, pc := lib.Vectors(probe, v, dim)
	ww, cc := make([][]int, v), make([][]int, v)
	for i := 0; i < v; i++ {
		for j := 0; j < dim; j++ {
			ww[i] = append(ww[i], drawOf(pw[i][j]))
		}
		for j := 0; j < dim; j++ {
			cc[i] = append(cc[i], drawOf(pc[i][j]))
		}
	}
	// the biases are not exported: if the draws are made row by row, each row's
	// last draw is its bias, otherwise all biases get the same value
	rows := true
	for i := 0; i < v; i++ {
		for j := 0; j < dim; j++ {
			if ww[i][j] != i*(dim+1)+j || cc[i][j] != (v+i)*(dim+1)+j {
				rows = false
			}
		}
	}
	vals := make([]float64, k)
	bias := -1
	for i := range vals {
		switch {
		case used[i] || rows || bias < 0:
			vals[i] = value(i)
			if !used[i] {
				bias = i
			}
		default:
			vals[i] = vals[bias]
		}
	}
	k = 0
	vrand.Draw = func() float64 {
		x := vals[k]
		k++
		return x
	}
	m := mk(iter)
	vp.Assert(m.Train(lib.NewReader(text)) == nil, "training fails")
	gotW, gotC := lib.Vectors(m, v, dim)
	var ps []lib.Pair
	for _, p := range lib.PairsBy(ids, win, prox) {
		if freq[p.A] >= min && freq[p.B] >= min {
			ps = append(ps, p)
		}
	}
	if len(ps) > 1 {
		vp.Reach("several")
	}
	var any []bool
	for _, o := range lib.Orders(len(ps)) {
		ref := &lib.Glove{Lr: lr, Ada: ada}
		for i := 0; i < v; i++ {
			row := func(idx []int, r int) []float64 {
				var xs []float64
				for _, d := range idx {
					xs = append(xs, vals[d]/float64(dim))
				}
				b := bias
				if rows {
					b = r*(dim+1) + dim
				}
				return append(xs, vals[b]/float64(dim))
			}
			ref.Word = append(ref.Word, row(ww[i], i))
			ref.Ctx = append(ref.Ctx, row(cc[i], v+i))
		}
		ref.Run(ps, o, iter, xmax, alpha)
		any = append(any, vp.And(lib.Close(gotW, lib.Cut(ref.Word)), lib.Close(gotC, lib.Cut(ref.Ctx))))
	}
	vp.Assert(vp.Or(any...), "vectors differ from the update rule, in whichever order the pairs are trained")
	_ = vector.Single
}

func symbolic(int) float64 { return vp.Float("init", -16, 16) }

func given(i int) float64 { return float64((i*37)%101)/101 - 0.3 }

func Sgd()     { run(false, symbolic, vp.Float("lr", 0, 1)) }
func SgdMany() { run(false, given, 0.05) }
func Ada()     { run(true, symbolic, 0.5) }
func Prox() {
	runBy(vp.Choose("ada", 2) == 1, true, given, 0.125)
}

// Far: one pair of words, some distance apart, between words that are too rare.
func Far() {
	gap := []int{1, 2, 9, 10, 11, 17}[vp.Choose("gap", 6)]
	rare := lib.Many(3*gap + 3)
	text := func(n int) (t string) {
		for _, w := range rare[:n] {
			t += w + " "
		}
		rare = rare[n:]
		return
	}
	t := "A " + text(gap-1) + "B " + text(gap+2) + "A " + text(gap+1) + "B"
	ada, prox := vp.Choose("ada", 2) == 1, vp.Choose("prox", 2) == 1
	runText(t, lib.Words(t), 2, 1, vp.Param("iter", 2), gap, ada, prox, given, 0.125)
}

func AdaMany() { run(true, given, 0.5) }

// Threads: two goroutines train two pairs of words that have no word in
// common, so that the result is the same whichever way they take turns.
func Threads() {
	ada, mem := vp.Choose("ada", 2) == 1, vp.Choose("mem", 2) == 1
	dim, iter := vp.Param("dim", 2), vp.Param("iter", 1)
	// x, y and z are too rare
	text := "a b x c d y a b z c d"
	ids, dic, freq := lib.Index(lib.Words(text))
	typ := glove.Stochastic
	if ada {
		typ = glove.AdaGrad
	}
	mk := func(iter int) model.Model {
		opts := []glove.ModelOption{glove.Dim(dim), glove.Window(1), glove.Iter(iter), glove.Goroutines(2), glove.Initlr(0.25),
			glove.Solver(typ), glove.MinCount(2)}
		if mem {
			opts = append(opts, glove.DocInMemory())
		}
		m, err := glove.New(opts...)
		vp.Assert(err == nil, "model cannot be created")
		return m
	}
	const init = 0.5 // so that it does not matter which draw is which parameter's
	vrand.Draw = func() float64 { return init }
	m := mk(iter)
	vp.Assert(m.Train(lib.NewReader(text)) == nil, "training fails")
	gotW, gotC := lib.Vectors(m, len(dic), dim)
	ref := &lib.Glove{Lr: 0.25, Ada: ada}
	for range dic {
		w, c := make([]float64, dim+1), make([]float64, dim+1)
		for j := range w {
			w[j], c[j] = init/float64(dim), init/float64(dim)
		}
		ref.Word, ref.Ctx = append(ref.Word, w), append(ref.Ctx, c)
	}
	var ps []lib.Pair
	for _, p := range lib.Pairs(ids, 1) {
		if freq[p.A] >= 2 && freq[p.B] >= 2 {
			ps = append(ps, p)
		}
	}
	vp.Assert(len(ps) == 2, "not two pairs")
	ref.Run(ps, []int{0, 1}, iter, glove.DefaultOptions().Xmax, glove.DefaultOptions().Alpha)
	vp.Assert(lib.Close(gotW, lib.Cut(ref.Word)), "word vectors differ from the update rule when two goroutines train")
	vp.Assert(lib.Close(gotC, lib.Cut(ref.Ctx)), "context vectors differ from the update rule when two goroutines train")
}
