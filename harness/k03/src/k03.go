package k03

import (
	"github.com/ynqa/wego/pkg/model/glove"
	"github.com/ynqa/wego/pkg/model/lexvec"
	"github.com/ynqa/wego/pkg/model/word2vec"
	"github.com/ynqa/wego/zzverif/vp"
)

func anyWord2vec() word2vec.Options {
	var o word2vec.Options
	o.BatchSize = vp.AnyInt("prior")
	o.Dim = vp.AnyInt("prior")
	o.DocInMemory = vp.Bool("prior")
	o.Goroutines = vp.AnyInt("prior")
	o.Initlr = vp.AnyFloat("prior")
	o.Iter = vp.AnyInt("prior")
	o.LogBatch = vp.AnyInt("prior")
	o.MaxCount = vp.AnyInt("prior")
	o.MaxDepth = vp.AnyInt("prior")
	o.MinCount = vp.AnyInt("prior")
	o.MinLR = vp.AnyFloat("prior")
	o.ModelType = vp.String("prior", 1, "")
	o.NegativeSampleSize = vp.AnyInt("prior")
	o.OptimizerType = vp.String("prior", 1, "")
	o.SubsampleThreshold = vp.AnyFloat("prior")
	o.ToLower = vp.Bool("prior")
	o.UpdateLRBatch = vp.AnyInt("prior")
	o.Verbose = vp.Bool("prior")
	o.Window = vp.AnyInt("prior")
	return o
}

// Word2vec: one option, applied to any options.
func Word2vec() {
	o := anyWord2vec()
	want := o
	name := ""
	var fn word2vec.ModelOption
	switch vp.Choose("option", 19) {
	case 0:
		v := vp.AnyInt("value")
		name, want.BatchSize, fn = "BatchSize", v, word2vec.BatchSize(v)
	case 1:
		v := vp.AnyInt("value")
		name, want.Dim, fn = "Dim", v, word2vec.Dim(v)
	case 2:
		name, want.DocInMemory, fn = "DocInMemory", true, word2vec.DocInMemory()
	case 3:
		v := vp.AnyInt("value")
		name, want.Goroutines, fn = "Goroutines", v, word2vec.Goroutines(v)
	case 4:
		v := vp.AnyFloat("value")
		name, want.Initlr, fn = "Initlr", v, word2vec.Initlr(v)
	case 5:
		v := vp.AnyInt("value")
		name, want.Iter, fn = "Iter", v, word2vec.Iter(v)
	case 6:
		v := vp.AnyInt("value")
		name, want.LogBatch, fn = "LogBatch", v, word2vec.LogBatch(v)
	case 7:
		v := vp.AnyInt("value")
		name, want.MaxCount, fn = "MaxCount", v, word2vec.MaxCount(v)
	case 8:
		v := vp.AnyInt("value")
		name, want.MaxDepth, fn = "MaxDepth", v, word2vec.MaxDepth(v)
	case 9:
		v := vp.AnyInt("value")
		name, want.MinCount, fn = "MinCount", v, word2vec.MinCount(v)
	case 10:
		v := vp.AnyFloat("value")
		name, want.MinLR, fn = "MinLR", v, word2vec.MinLR(v)
	case 11:
		v := vp.String("value", vp.Choose("len", 3), "")
		name, want.ModelType, fn = "Model", v, word2vec.Model(v)
	case 12:
		v := vp.AnyInt("value")
		name, want.NegativeSampleSize, fn = "NegativeSampleSize", v, word2vec.NegativeSampleSize(v)
	case 13:
		v := vp.String("value", vp.Choose("len", 3), "")
		name, want.OptimizerType, fn = "Optimizer", v, word2vec.Optimizer(v)
	case 14:
		v := vp.AnyFloat("value")
		name, want.SubsampleThreshold, fn = "SubsampleThreshold", v, word2vec.SubsampleThreshold(v)
	case 15:
		name, want.ToLower, fn = "ToLower", true, word2vec.ToLower()
	case 16:
		v := vp.AnyInt("value")
		name, want.UpdateLRBatch, fn = "UpdateLRBatch", v, word2vec.UpdateLRBatch(v)
	case 17:
		name, want.Verbose, fn = "Verbose", true, word2vec.Verbose()
	case 18:
		v := vp.AnyInt("value")
		name, want.Window, fn = "Window", v, word2vec.Window(v)
	}
	fn(&o)
	vp.Assert(vp.Same(o, want), "word2vec."+name+" does not set exactly its own option")
	fn(&o)
	vp.Assert(vp.Same(o, want), "word2vec."+name+" has another effect when it is applied again")
}

func anyGlove() glove.Options {
	var o glove.Options
	o.Alpha = vp.AnyFloat("prior")
	o.BatchSize = vp.AnyInt("prior")
	o.CountType = vp.String("prior", 1, "")
	o.Dim = vp.AnyInt("prior")
	o.DocInMemory = vp.Bool("prior")
	o.Goroutines = vp.AnyInt("prior")
	o.Initlr = vp.AnyFloat("prior")
	o.Iter = vp.AnyInt("prior")
	o.LogBatch = vp.AnyInt("prior")
	o.MaxCount = vp.AnyInt("prior")
	o.MinCount = vp.AnyInt("prior")
	o.SolverType = vp.String("prior", 1, "")
	o.SubsampleThreshold = vp.AnyFloat("prior")
	o.ToLower = vp.Bool("prior")
	o.Verbose = vp.Bool("prior")
	o.Window = vp.AnyInt("prior")
	o.Xmax = vp.AnyInt("prior")
	return o
}

// Glove: one option, applied to any options.
func Glove() {
	o := anyGlove()
	want := o
	name := ""
	var fn glove.ModelOption
	switch vp.Choose("option", 15) {
	case 0:
		v := vp.AnyFloat("value")
		name, want.Alpha, fn = "Alpha", v, glove.Alpha(v)
	case 1:
		v := vp.AnyInt("value")
		name, want.BatchSize, fn = "BatchSize", v, glove.BatchSize(v)
	case 2:
		v := vp.AnyInt("value")
		name, want.Dim, fn = "Dim", v, glove.Dim(v)
	case 3:
		name, want.DocInMemory, fn = "DocInMemory", true, glove.DocInMemory()
	case 4:
		v := vp.AnyInt("value")
		name, want.Goroutines, fn = "Goroutines", v, glove.Goroutines(v)
	case 5:
		v := vp.AnyFloat("value")
		name, want.Initlr, fn = "Initlr", v, glove.Initlr(v)
	case 6:
		v := vp.AnyInt("value")
		name, want.Iter, fn = "Iter", v, glove.Iter(v)
	case 7:
		v := vp.AnyInt("value")
		name, want.MaxCount, fn = "MaxCount", v, glove.MaxCount(v)
	case 8:
		v := vp.AnyInt("value")
		name, want.MinCount, fn = "MinCount", v, glove.MinCount(v)
	case 9:
		v := vp.String("value", vp.Choose("len", 3), "")
		name, want.SolverType, fn = "Solver", v, glove.Solver(v)
	case 10:
		v := vp.AnyFloat("value")
		name, want.SubsampleThreshold, fn = "SubsampleThreshold", v, glove.SubsampleThreshold(v)
	case 11:
		name, want.ToLower, fn = "ToLower", true, glove.ToLower()
	case 12:
		name, want.Verbose, fn = "Verbose", true, glove.Verbose()
	case 13:
		v := vp.AnyInt("value")
		name, want.Window, fn = "Window", v, glove.Window(v)
	case 14:
		v := vp.AnyInt("value")
		name, want.Xmax, fn = "Xmax", v, glove.Xmax(v)
	}
	fn(&o)
	vp.Assert(vp.Same(o, want), "glove."+name+" does not set exactly its own option")
	fn(&o)
	vp.Assert(vp.Same(o, want), "glove."+name+" has another effect when it is applied again")
}

func anyLexvec() lexvec.Options {
	var o lexvec.Options
	o.BatchSize = vp.AnyInt("prior")
	o.Dim = vp.AnyInt("prior")
	o.DocInMemory = vp.Bool("prior")
	o.Goroutines = vp.AnyInt("prior")
	o.Initlr = vp.AnyFloat("prior")
	o.Iter = vp.AnyInt("prior")
	o.LogBatch = vp.AnyInt("prior")
	o.MaxCount = vp.AnyInt("prior")
	o.MinCount = vp.AnyInt("prior")
	o.MinLR = vp.AnyFloat("prior")
	o.NegativeSampleSize = vp.AnyInt("prior")
	o.RelationType = vp.String("prior", 1, "")
	o.Smooth = vp.AnyFloat("prior")
	o.SubsampleThreshold = vp.AnyFloat("prior")
	o.ToLower = vp.Bool("prior")
	o.UpdateLRBatch = vp.AnyInt("prior")
	o.Verbose = vp.Bool("prior")
	o.Window = vp.AnyInt("prior")
	return o
}

// Lexvec: one option, applied to any options.
func Lexvec() {
	o := anyLexvec()
	want := o
	name := ""
	var fn lexvec.ModelOption
	switch vp.Choose("option", 18) {
	case 0:
		v := vp.AnyInt("value")
		name, want.BatchSize, fn = "BatchSize", v, lexvec.BatchSize(v)
	case 1:
		v := vp.AnyInt("value")
		name, want.Dim, fn = "Dim", v, lexvec.Dim(v)
	case 2:
		name, want.DocInMemory, fn = "DocInMemory", true, lexvec.DocInMemory()
	case 3:
		v := vp.AnyInt("value")
		name, want.Goroutines, fn = "Goroutines", v, lexvec.Goroutines(v)
	case 4:
		v := vp.AnyFloat("value")
		name, want.Initlr, fn = "Initlr", v, lexvec.Initlr(v)
	case 5:
		v := vp.AnyInt("value")
		name, want.Iter, fn = "Iter", v, lexvec.Iter(v)
	case 6:
		v := vp.AnyInt("value")
		name, want.LogBatch, fn = "LogBatch", v, lexvec.LogBatch(v)
	case 7:
		v := vp.AnyInt("value")
		name, want.MaxCount, fn = "MaxCount", v, lexvec.MaxCount(v)
	case 8:
		v := vp.AnyInt("value")
		name, want.MinCount, fn = "MinCount", v, lexvec.MinCount(v)
	case 9:
		v := vp.AnyFloat("value")
		name, want.MinLR, fn = "MinLR", v, lexvec.MinLR(v)
	case 10:
		v := vp.AnyInt("value")
		name, want.NegativeSampleSize, fn = "NegativeSampleSize", v, lexvec.NegativeSampleSize(v)
	case 11:
		v := vp.String("value", vp.Choose("len", 3), "")
		name, want.RelationType, fn = "Relation", v, lexvec.Relation(v)
	case 12:
		v := vp.AnyFloat("value")
		name, want.Smooth, fn = "Smooth", v, lexvec.Smooth(v)
	case 13:
		v := vp.AnyFloat("value")
		name, want.SubsampleThreshold, fn = "SubsampleThreshold", v, lexvec.SubsampleThreshold(v)
	case 14:
		name, want.ToLower, fn = "ToLower", true, lexvec.ToLower()
	case 15:
		v := vp.AnyInt("value")
		name, want.UpdateLRBatch, fn = "UpdateLRBatch", v, lexvec.UpdateLRBatch(v)
	case 16:
		name, want.Verbose, fn = "Verbose", true, lexvec.Verbose()
	case 17:
		v := vp.AnyInt("value")
		name, want.Window, fn = "Window", v, lexvec.Window(v)
	}
	fn(&o)
	vp.Assert(vp.Same(o, want), "lexvec."+name+" does not set exactly its own option")
	fn(&o)
	vp.Assert(vp.Same(o, want), "lexvec."+name+" has another effect when it is applied again")
}
