package k03

import (
	"github.com/ynqa/wego/pkg/model"
	"github.com/ynqa/wego/pkg/model/glove"
	"github.com/ynqa/wego/pkg/model/lexvec"
	"github.com/ynqa/wego/pkg/model/modelutil/vector"
	"github.com/ynqa/wego/pkg/model/word2vec"
	"github.com/ynqa/wego/zzverif/lib"
	"github.com/ynqa/wego/zzverif/vp"
)

// choice is an option of each model, and the fields it is to change.
type choice struct {
	w  word2vec.ModelOption
	g  glove.ModelOption
	l  lexvec.ModelOption
	of func(dim, iter, min, max *int, mem, low *bool)
}

func choices() []choice {
	return []choice{
		{word2vec.Dim(2), glove.Dim(2), lexvec.Dim(2), func(dim, iter, min, max *int, mem, low *bool) { *dim = 2 }},
		{word2vec.Dim(3), glove.Dim(3), lexvec.Dim(3), func(dim, iter, min, max *int, mem, low *bool) { *dim = 3 }},
		{word2vec.Iter(2), glove.Iter(2), lexvec.Iter(2), func(dim, iter, min, max *int, mem, low *bool) { *iter = 2 }},
		{word2vec.Iter(0), glove.Iter(0), lexvec.Iter(0), func(dim, iter, min, max *int, mem, low *bool) { *iter = 0 }},
		{word2vec.MinCount(0), glove.MinCount(0), lexvec.MinCount(0), func(dim, iter, min, max *int, mem, low *bool) { *min = 0 }},
		{word2vec.MaxCount(1), glove.MaxCount(1), lexvec.MaxCount(1), func(dim, iter, min, max *int, mem, low *bool) { *max = 1 }},
		{word2vec.DocInMemory(), glove.DocInMemory(), lexvec.DocInMemory(), func(dim, iter, min, max *int, mem, low *bool) { *mem = true }},
		{word2vec.ToLower(), glove.ToLower(), lexvec.ToLower(), func(dim, iter, min, max *int, mem, low *bool) { *low = true }},
	}
}

// trained with given random numbers and choices.
func trained(text string, m model.Model, err error) (xs [][]float64) {
	vp.Assert(err == nil, "a model cannot be made")
	lib.Fixed()
	next := lib.NewNext()
	next.Given = func(k, bound int) int { return k * 5 % bound }
	vp.Assert(m.Train(lib.NewReader(text)) == nil, "training fails")
	x := m.WordVector(vector.Agg)
	for i := 0; i < x.Row(); i++ {
		xs = append(xs, append([]float64(nil), x.Slice(i)...))
	}
	return
}

func is(a, b [][]float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if len(a[i]) != len(b[i]) {
			return false
		}
		for j := range a[i] {
			if !vp.Near(a[i][j], b[i][j]) {
				return false
			}
		}
	}
	return true
}

// New: the model is the one that NewForOptions makes of the default options,
// changed by the given options one after the other; an earlier model's options
// do not matter.
func New() {
	cs := choices()
	kind := vp.Choose("model", 3)
	mk := func(list []choice) (m model.Model, err error) {
		switch kind {
		case 0:
			fs := []word2vec.ModelOption{word2vec.Goroutines(1)}
			for _, c := range list {
				fs = append(fs, c.w)
			}
			return word2vec.New(fs...)
		case 1:
			fs := []glove.ModelOption{glove.Goroutines(1), glove.Window(1)}
			for _, c := range list {
				fs = append(fs, c.g)
			}
			return glove.New(fs...)
		}
		fs := []lexvec.ModelOption{lexvec.Goroutines(1)}
		for _, c := range list {
			fs = append(fs, c.l)
		}
		return lexvec.New(fs...)
	}
	var list []choice
	for i := vp.Choose("n", 4); i > 0; i-- {
		list = append(list, cs[vp.Choose("option", len(cs))])
	}
	if vp.Choose("before", 2) == 1 {
		_, err := mk([]choice{cs[1], cs[3], cs[5], cs[6], cs[7]})
		vp.Assert(err == nil, "a model cannot be made")
	}
	text := "b B a"
	if kind == 1 {
		text = "b B" // glove trains several pairs in any order
	}
	m, err := mk(list)
	got := trained(text, m, err)
	switch kind {
	case 0:
		o := word2vec.DefaultOptions()
		o.Goroutines = 1
		for _, c := range list {
			c.of(&o.Dim, &o.Iter, &o.MinCount, &o.MaxCount, &o.DocInMemory, &o.ToLower)
		}
		m, err = word2vec.NewForOptions(o)
	case 1:
		o := glove.DefaultOptions()
		o.Goroutines, o.Window = 1, 1
		for _, c := range list {
			c.of(&o.Dim, &o.Iter, &o.MinCount, &o.MaxCount, &o.DocInMemory, &o.ToLower)
		}
		m, err = glove.NewForOptions(o)
	default:
		o := lexvec.DefaultOptions()
		o.Goroutines = 1
		for _, c := range list {
			c.of(&o.Dim, &o.Iter, &o.MinCount, &o.MaxCount, &o.DocInMemory, &o.ToLower)
		}
		m, err = lexvec.NewForOptions(o)
	}
	vp.Assert(is(got, trained(text, m, err)), "a model made with options is not the one that these options describe")
	if len(list) > 1 {
		vp.Reach("several")
	}
}
