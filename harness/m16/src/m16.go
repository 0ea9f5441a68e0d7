package m16

import (
	"bytes"

	"github.com/ynqa/wego/pkg/model"
	"github.com/ynqa/wego/pkg/model/modelutil/matrix"
	"github.com/ynqa/wego/pkg/model/modelutil/vector"
	"github.com/ynqa/wego/zzverif/lib"
	"github.com/ynqa/wego/zzverif/vp"
)

func same(a, b *matrix.Matrix) bool {
	if a.Row() != b.Row() || a.Col() != b.Col() {
		return false
	}
	ok := true
	for i := 0; i < a.Row(); i++ {
		x, y := a.Slice(i), b.Slice(i)
		if len(x) != len(y) {
			return false
		}
		for j := range x {
			ok = vp.And(ok, vp.Near(x[j], y[j]))
		}
	}
	return ok
}

// agree trains both, with the same random draws and choices, and compares.
func agree(c lib.Model, text string, choose func(bound int) int) (rows int) {
	var made []int
	run := func(mem bool) model.Model {
		d := c
		d.Mem = mem
		lib.Fixed()
		m := d.New()
		vp.Assert(m.Train(lib.NewReader(text)) == nil, "training fails")
		return m
	}
	vp.Hook("NextRandom", func(bound int) int {
		made = append(made, choose(bound))
		return made[len(made)-1]
	})
	a := run(true)
	used := 0
	vp.Hook("NextRandom", func(bound int) int {
		vp.Assert(used < len(made), "the file-backed corpus needs more random choices")
		used++
		vp.Assert(made[used-1] < bound, "the file-backed corpus has other random choices")
		return made[used-1]
	})
	b := run(false)
	vp.Assert(used == len(made), "the file-backed corpus needs fewer random choices")
	for _, t := range []vector.Type{vector.Single, vector.Agg} {
		x, y := a.WordVector(t), b.WordVector(t)
		vp.Assert(same(x, y), "the in-memory and the file-backed corpus train different vectors")
		var p, q bytes.Buffer
		vp.Assert(a.Save(&p, t) == nil && b.Save(&q, t) == nil, "saving fails")
		vp.Assert(p.String() == q.String(), "models of the in-memory and the file-backed corpus save something else")
		rows = x.Row()
	}
	return
}

func given() func(bound int) int {
	k := 0
	return func(bound int) int {
		k++
		return k * 5 % 7 % bound
	}
}

// Texts: every short text, with filters, window and letter case.
func Texts() {
	c := lib.Default(lib.Kinds[vp.Choose("kind", len(lib.Kinds))])
	c.Dim, c.Lr, c.Iter = 2, 0.5, vp.Choose("iter", 3)+1
	c.Low, c.Window = vp.Choose("low", 2) == 1, vp.Choose("window", 2)+1
	switch vp.Choose("filter", 4) {
	case 1:
		c.MinCount = 2
	case 2:
		c.MaxCount = 1
	case 3:
		c.MinCount, c.MaxCount = 2, 2
	}
	n := vp.Choose("n", vp.Param("n", 3)+1)
	c.Batch = n + vp.Choose("batch", 3)
	if c.Batch == 0 {
		c.Batch = 1
	}
	if n > 0 && vp.Choose("rate", 2) == 1 {
		c.UpdateLR = n // at the end of an iteration: the observer may lag at other times
	}
	text, ws := lib.Text(n, "abA")
	ids, _, _ := lib.Index(lib.LowerAll(ws, c.Low))
	if c.Kind[0] == 'g' && len(lib.Pairs(ids, c.Window)) > 1 {
		vp.Skip() // glove trains several pairs in any order
	}
	if agree(c, text, given()) > 1 {
		vp.Reach("words")
	}
}

// Choices: any random choices.
func Choices() {
	kinds := []string{"cbow-ns", "skipgram-ns", "cbow-hs", "skipgram-hs", "lexvec"}
	c := lib.Default(kinds[vp.Choose("kind", len(kinds))])
	c.Dim, c.Lr, c.Window, c.Neg = 2, 0.5, 2, vp.Choose("neg", 2)
	c.Subsample = []float64{0, 0.25}[vp.Choose("subsample", 2)]
	text, _ := lib.Text(vp.Choose("n", vp.Param("n", 2))+1, "abc")
	if agree(c, text, func(bound int) int { return vp.Choose("next", bound) }) > 1 {
		vp.Reach("words")
	}
}

// Large: more words than usual, given ones but for one, anywhere.
func Large() {
	kinds := []string{"cbow-ns", "skipgram-ns", "cbow-hs", "skipgram-hs", "lexvec"}
	c := lib.Default(kinds[vp.Choose("kind", len(kinds))])
	c.Dim, c.Lr, c.Window, c.Iter, c.Low = 3, 0.5, 3, 2, vp.Choose("low", 2) == 1
	c.MinCount, c.MaxCount = vp.Choose("min", 2)*2, []int{-1, 5}[vp.Choose("max", 2)]
	c.Subsample = []float64{0, 0.01}[vp.Choose("subsample", 2)]
	n := vp.Param("n", 40)
	c.Batch = n + 1
	text := ""
	many := lib.Many(n)
	at := []int{0, n / 2, n - 1}[vp.Choose("at", 3)]
	for i := 0; i < n; i++ {
		if i == at {
			text += vp.String("word", 1, "AaB") + "\n"
		} else {
			text += many[i*i%n%17] + " "
		}
	}
	if vp.Choose("end", 2) == 1 {
		text += many[0]
	}
	if agree(c, text, given()) > 1 {
		vp.Reach("words")
	}
}
