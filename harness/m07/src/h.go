package m07

import (
	"strings"

	"github.com/ynqa/wego/pkg/model"
	"github.com/ynqa/wego/pkg/model/lexvec"
	"github.com/ynqa/wego/zzverif/lib"
	"github.com/ynqa/wego/zzverif/vp"
)

var relations = []string{lexvec.PPMI, lexvec.PMI, lexvec.Collocation, lexvec.LogCollocation}
var smooths = []float64{0.75, 0, 0.5, 1}

// Values: one position of any text is trained; how its word's vector moves
// tells the association values.
func Values() {
	n, win, neg := vp.Param("n", 4), vp.Choose("win", vp.Param("win", 2))+1, vp.Param("neg", 1)
	text, ws := lib.Text(n, "abcdefghijklmnopqrstuvwxyz")
	values(text, ws, win, neg, 0.5, lib.NewNext())
}

// Large: a longer text of many words.
func Large() {
	n, m := vp.Param("n", 60), vp.Param("words", 23)
	many := lib.Many(m)
	var ws []string
	for i := 0; i < n; i++ {
		ws = append(ws, many[i*(i+3)/2%m])
	}
	ws[n-1] = vp.String("last", 1, "AB") // an arbitrary word at the end
	next := lib.NewNext()
	next.Given = func(k, bound int) int { return k * 7 % 5 % bound }
	if vp.Choose("far", 2) == 1 {
		next.Given = func(k, bound int) int { return (bound - 1 - k*3%bound + bound) % bound }
	}
	values(strings.Join(ws, " "), ws, []int{1, 3, 9}[vp.Choose("window", 3)], vp.Param("neg", 1), 0.03125, next)
}

// Long: a corpus of many words of which all but a few are filtered out.
func Long() {
	n := vp.Param("n", 70000)
	ws := make([]string, 0, n+3)
	ws = append(ws, "a", vp.String("word", 1, "ab"), "b")
	for len(ws) < cap(ws) {
		ws = append(ws, "filler")
	}
	next := lib.NewNext()
	next.Given = func(k, bound int) int { return k % bound }
	values(strings.Join(ws, " "), ws, 1, 1, 0.03125, next)
}

func values(text string, ws []string, win, neg int, lr float64, next *lib.Next) {
	n := len(ws)
	ids, dic, freq := lib.Index(ws)
	vp.Assume(win == 1 || len(dic) != win)
	rel, smooth := relations[vp.Choose("relation", 4)], smooths[vp.Choose("smooth", vp.Param("smooth", 4))]
	min := vp.Choose("min", vp.Param("min", 2)) + 1
	mem := vp.Choose("mem", vp.Param("mem", 1)) == 1
	mk := func(iter int) model.Model {
		o := lexvec.DefaultOptions()
		o.Dim, o.Window, o.Iter, o.Goroutines, o.Initlr, o.MinLR, o.UpdateLRBatch = 1, win, iter, 1, lr, 0, 1000
		o.BatchSize, o.MinCount, o.MaxCount, o.NegativeSampleSize, o.SubsampleThreshold = 1000, min, 1000, neg, 1e-6
		o.RelationType, o.Smooth, o.DocInMemory = rel, smooth, mem
		m, err := lexvec.NewForOptions(o)
		vp.Assert(err == nil, "model cannot be created")
		return m
	}
	draws := lib.NewDraws(0, 2)
	draws.Given = func(i int) float64 { return 0.8 + float64(i%7)/10 }
	word, ctx := draws.Initial(mk, text, len(dic), 1)
	// the document without the rare words
	var doc []int
	for _, id := range ids {
		if freq[id] >= min && freq[id] <= 1000 {
			doc = append(doc, id)
		}
	}
	if len(doc) == 0 {
		return
	}
	pos := vp.Choose("pos", len(doc))
	k := 0
	draws.Later = func() float64 {
		i := k
		k++
		if i == pos {
			return 0
		}
		return 0.9999999
	}
	m := mk(1)
	vp.Assert(m.Train(lib.NewReader(text)) == nil, "training fails")
	gotW, gotC := lib.Vectors(m, len(dic), 1)
	ps := lib.Pairs(ids, win)
	value := func(a, b int) float64 {
		f := lib.Association(rel, a, b, ps, freq, n, smooth)
		if f == 0 {
			vp.Reach("zero")
		} else {
			vp.Reach("value")
		}
		return f
	}
	lib.LexvecStep(doc, pos, win, neg, lr, next, word, ctx, value)
	vp.Assert(lib.Close(gotW, word) && lib.Close(gotC, ctx), "the vectors do not move as the association values prescribe")
}
