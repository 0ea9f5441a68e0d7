package m14

import (
	"bytes"
	"strings"

	"github.com/ynqa/wego/pkg/model/modelutil/vector"
	"github.com/ynqa/wego/zzverif/lib"
	"github.com/ynqa/wego/zzverif/vp"
)

// finish trains and saves, and checks that what is saved has a line per word.
func finish(c lib.Model, text string, dic []string) {
	m := c.New()
	var err error
	p := vp.Panics(func() { err = m.Train(lib.NewReader(text)) })
	vp.Assert(!p, "training panics")
	vp.Assert(err == nil, "training fails")
	for _, t := range []vector.Type{vector.Single, vector.Agg} {
		var b bytes.Buffer
		p = vp.Panics(func() { err = m.Save(&b, t) })
		vp.Assert(!p && err == nil, "saving fails")
		vp.Assert(b.Len() == 0 || strings.HasSuffix(b.String(), "\n"), "the last line is not ended")
		lines := strings.Split(b.String(), "\n")
		lines = lines[:len(lines)-1]
		vp.Assert(len(lines) == len(dic), "what is saved does not have exactly one line per word")
		for i, w := range dic {
			fs := strings.Fields(lines[i])
			vp.Assert(len(fs) == c.Dim+1, "a saved line does not have a word and the dimension's numbers")
			vp.Assert(fs[0] == w, "a saved line is not that of its word")
		}
	}
	if len(dic) > 1 {
		vp.Reach("words")
	}
	if len(dic) == 0 {
		vp.Reach("empty")
	}
}

func base(kinds []string) lib.Model {
	c := lib.Default(kinds[vp.Choose("kind", len(kinds))])
	c.Mem = vp.Choose("mem", 2) == 1
	lib.Fixed()
	return c
}

func of(name string, xs ...int) int { return xs[vp.Choose(name, len(xs))] }

// Sizes: every short text with sizes that do not divide evenly.
func Sizes() {
	c := base(lib.Kinds)
	n := vp.Choose("n", vp.Param("n", 3)+1)
	c.Threads = of("threads", 1, 2, 5)
	c.Iter = of("iter", 1, 2)
	c.Window = of("window", 1, 3)
	if !c.Mem {
		c.Batch = of("batch", 1, 2)
	}
	text, ws := lib.Text(n, "abcdefghijklmnopqrstuvwxyz")
	_, dic, _ := lib.Index(ws)
	finish(c, text, dic)
}

// Options: the other hyperparameters.
func Options() {
	c := base(lib.Kinds)
	n := vp.Choose("n", vp.Param("n", 2)+1)
	c.Window = of("window", 1, 20)
	c.Dim = of("dim", 1, 4)
	if c.Kind[0] != 'g' {
		c.UpdateLR = of("update", 1, 3)
		c.MinLR = []float64{0, 0.5}[vp.Choose("minlr", 2)]
		c.Subsample = []float64{0, 1e-3, 1, 10}[vp.Choose("subsample", 4)]
		if c.Kind[len(c.Kind)-2:] == "hs" {
			c.Depth = of("depth", 0, 1, 2, 100)
		} else {
			c.Neg = of("neg", 0, 1, 5)
		}
	}
	text, ws := lib.Text(n, "abcdefghijklmnopqrstuvwxyz")
	_, dic, _ := lib.Index(ws)
	finish(c, text, dic)
}

// Filters: any minimum and maximum counts.
func Filters() {
	c := base(lib.Kinds)
	n := vp.Choose("n", vp.Param("n", 3)+1)
	c.Threads = of("threads", 1, 2)
	c.Low = vp.Choose("low", 2) == 1
	c.MinCount = vp.AnyInt("min")
	c.MaxCount = vp.AnyInt("max")
	text, ws := lib.Text(n, "aA")
	ws = lib.LowerAll(ws, c.Low)
	_, dic, _ := lib.Index(ws)
	finish(c, text, dic)
}

// Loud: with progress messages.
func Loud() {
	c := base(lib.Kinds)
	n := vp.Choose("n", vp.Param("n", 3)+1)
	c.Loud = true
	c.LogBatch = of("log", 1, 2, 100)
	if c.Kind == "lexvec" {
		c.Batch = of("batch", 1, 2, 100)
	}
	text, ws := lib.Text(n, "abcdefghijklmnopqrstuvwxyz")
	_, dic, _ := lib.Index(ws)
	vp.CaptureStdout(func() { finish(c, text, dic) })
}

// Measures: the association measures of lexvec and the counting of glove.
func Measures() {
	c := base([]string{"lexvec", "glove-sgd", "glove-adagrad"})
	if c.Kind == "lexvec" {
		c.Relation = []string{"ppmi", "pmi", "co", "logco"}[vp.Choose("relation", 4)]
		c.Smooth = []float64{0, 0.75, 1}[vp.Choose("smooth", 3)]
	} else {
		c.Count = []string{"inc", "prox"}[vp.Choose("count", 2)]
		c.Alpha = []float64{0, 0.75}[vp.Choose("alpha", 2)]
		c.Xmax = of("xmax", 1, 100)
	}
	c.Window = of("window", 1, 2, 7)
	text, ws := lib.Text(vp.Choose("n", vp.Param("n", 3)+1), "abcdefghijklmnopqrstuvwxyz")
	_, dic, _ := lib.Index(ws)
	finish(c, text, dic)
}
