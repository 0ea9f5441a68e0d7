package m13

import (
	"strings"

	co "github.com/ynqa/wego/pkg/corpus/cooccurrence"
	"github.com/ynqa/wego/pkg/model"
	"github.com/ynqa/wego/pkg/model/glove"
	"github.com/ynqa/wego/pkg/model/lexvec"
	"github.com/ynqa/wego/pkg/model/modelutil/vector"
	"github.com/ynqa/wego/pkg/model/word2vec"
	"github.com/ynqa/wego/zzverif/lib"
	"github.com/ynqa/wego/zzverif/vp"
)

const text = "a b c a b"

// option is an option string of any content: of a length around those of the
// documented values.
func option(name string, max int) string {
	return vp.String(name, vp.Choose(name+" length", max+1), "")
}

// near is a documented value, or an edit of it: one arbitrary byte inserted or
// replaced anywhere, one left out, another case, blanks around it.
func near(name string, values ...string) string {
	v := values[vp.Choose(name, len(values))]
	switch vp.Choose(name+" edit", 7) {
	case 1:
		at := vp.Choose(name+" at", len(v)+1)
		return v[:at] + vp.String(name+" byte", 1, bytes) + v[at:]
	case 2:
		at := vp.Choose(name+" at", len(v))
		return v[:at] + vp.String(name+" byte", 1, bytes) + v[at+1:]
	case 3:
		at := vp.Choose(name+" at", len(v))
		return v[:at] + v[at+1:]
	case 4:
		return strings.ToUpper(v)
	case 5:
		return " " + v + "\n"
	case 6:
		return v + v
	}
	return v
}

const bytes = " \t\n-_.,:;0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"

// Near: strings that resemble documented values.
func Near() {
	switch vp.Choose("option", 5) {
	case 0:
		word2vecOf(near("type", "cbow", "skipgram"), "ns")
	case 1:
		word2vecOf("cbow", near("optimizer", "ns", "hs"))
	case 2:
		gloveOf(near("solver", "sgd", "adagrad"), co.Increment)
	case 3:
		gloveOf("sgd", near("count", "inc", "prox"))
	case 4:
		lexvecOf(near("relation", "ppmi", "pmi", "co", "logco"))
	}
}

func is(s string, values ...string) bool {
	for _, v := range values {
		if s == v {
			vp.Reach(v)
			return true
		}
	}
	vp.Reach("invalid")
	return false
}

// check trains a model of which valid tells whether its options are all
// documented values.
func check(m model.Model, valid bool) {
	trained := 0
	vp.Hooks["Subsampler.Trial"] = func(int) bool {
		trained++
		return true
	}
	vp.Hooks["NextRandom"] = func(n int) int { return 0 }
	lib.Fixed()
	var err error
	p := vp.Panics(func() { err = m.Train(lib.NewReader(text)) })
	vp.Assert(!p, "training panics")
	vp.Assert((err == nil) == valid, "a documented value is rejected, or an unknown one is not")
	if !valid {
		vp.Assert(trained == 0, "a model with an unknown type is trained")
	} else {
		vp.Assert(m.WordVector(vector.Single).Row() == 3, "a model with documented types has not been trained")
	}
}

func word2vecOf(typ, opt string) {
	o := word2vec.DefaultOptions()
	o.ModelType, o.OptimizerType = typ, opt
	o.Dim, o.Goroutines, o.Iter, o.Window, o.MinCount, o.Verbose = 1, 1, 1, 1, 0, false
	o.SubsampleThreshold, o.DocInMemory = 0, vp.Choose("mem", 2) == 1
	m, err := word2vec.NewForOptions(o)
	vp.Assert(err == nil, "model cannot be created")
	check(m, is(typ, "cbow", "skipgram") && is(opt, "ns", "hs"))
}

func Model() {
	word2vecOf(option("type", vp.Param("type", 9)), []string{"ns", "hs"}[vp.Choose("optimizer", 2)])
}

func Optimizer() {
	word2vecOf([]string{"cbow", "skipgram"}[vp.Choose("type", 2)], option("optimizer", vp.Param("optimizer", 3)))
}

func gloveOf(solver, count string) {
	o := glove.DefaultOptions()
	o.SolverType, o.CountType = solver, count
	o.Dim, o.Goroutines, o.Iter, o.Window, o.MinCount, o.Verbose = 1, 1, 1, 1, 0, false
	o.DocInMemory = vp.Choose("mem", 2) == 1
	m, err := glove.NewForOptions(o)
	vp.Assert(err == nil, "model cannot be created")
	check(m, is(solver, "sgd", "adagrad") && is(count, "inc", "prox"))
}

func Solver() {
	gloveOf(option("solver", vp.Param("solver", 8)), []string{co.Increment, co.Proximity}[vp.Choose("count", 2)])
}

func Count() {
	gloveOf([]string{"sgd", "adagrad"}[vp.Choose("solver", 2)], option("count", vp.Param("count", 5)))
}

func Relation() { lexvecOf(option("relation", vp.Param("relation", 6))) }

func lexvecOf(rel string) {
	o := lexvec.DefaultOptions()
	o.RelationType = rel
	o.Dim, o.Goroutines, o.Iter, o.Window, o.MinCount, o.Verbose = 1, 1, 1, 1, 0, false
	o.SubsampleThreshold, o.DocInMemory = 0, vp.Choose("mem", 2) == 1
	m, err := lexvec.NewForOptions(o)
	vp.Assert(err == nil, "model cannot be created")
	check(m, is(rel, "ppmi", "pmi", "co", "logco"))
}

// Vector: saving with an unknown vector type is an error, and nothing is written.
func Vector() { vectorOf(option("any", vp.Param("vector", 6))) }

// VectorNear: strings that resemble documented vector types.
func VectorNear() { vectorOf(near("vector", "single", "agg")) }

func vectorOf(typ string) {
	c := lib.Default(lib.Kinds[vp.Choose("kind", len(lib.Kinds))])
	vp.Hooks["Subsampler.Trial"] = func(int) bool { return true }
	vp.Hooks["NextRandom"] = func(n int) int { return 0 }
	lib.Fixed()
	m := c.New()
	vp.Assert(m.Train(lib.NewReader([]string{"a", "a b"}[vp.Choose("text", 2)])) == nil, "training fails")
	var b strings.Builder
	var err error
	p := vp.Panics(func() { err = m.Save(&b, typ) })
	vp.Assert(!p, "saving panics")
	if is(typ, "single", "agg") {
		vp.Assert(err == nil, "a documented vector type is rejected")
	} else {
		vp.Assert(err != nil, "an unknown vector type is not rejected")
		vp.Assert(b.Len() == 0, "something is saved for an unknown vector type")
	}
}
