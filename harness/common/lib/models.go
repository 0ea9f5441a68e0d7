package lib

import (
	co "github.com/ynqa/wego/pkg/corpus/cooccurrence"
	"github.com/ynqa/wego/pkg/model"
	"github.com/ynqa/wego/pkg/model/glove"
	"github.com/ynqa/wego/pkg/model/lexvec"
	"github.com/ynqa/wego/pkg/model/word2vec"
	"github.com/ynqa/wego/zzverif/vp"
	"github.com/ynqa/wego/zzverif/vrand"
)

// Kinds are all combinations of a model and its variant.
var Kinds = []string{"cbow-ns", "cbow-hs", "skipgram-ns", "skipgram-hs", "glove-sgd", "glove-adagrad", "lexvec"}

// Model is a model with its hyperparameters.
type Model struct {
	Kind                                                string
	Mem, Low, Loud                                      bool
	Dim, Window, Iter, Threads, Batch, Neg              int
	MinCount, MaxCount, UpdateLR, Depth, LogBatch, Xmax int
	Lr, MinLR, Subsample, Smooth, Alpha                 float64
	Relation                                            string
	Count                                               string
}

// Default is a small, valid configuration.
func Default(kind string) Model {
	return Model{Kind: kind, Dim: 1, Window: 1, Iter: 1, Threads: 1, Batch: 100, Neg: 1, MinCount: 0, MaxCount: -1, UpdateLR: 1000, LogBatch: 1000,
		Depth: 0, Xmax: 10, Lr: 0.025, MinLR: 0.0001, Subsample: 0, Smooth: 0.75, Alpha: 0.75, Relation: lexvec.PPMI, Count: co.Increment}
}

// New creates it.
func (c Model) New() model.Model {
	var m model.Model
	var err error
	switch c.Kind {
	case "glove-sgd", "glove-adagrad":
		o := glove.DefaultOptions()
		o.BatchSize, o.Dim, o.DocInMemory, o.Goroutines, o.Initlr, o.Iter, o.LogBatch = c.Batch, c.Dim, c.Mem, c.Threads, c.Lr, c.Iter, c.LogBatch
		o.MaxCount, o.MinCount, o.SubsampleThreshold, o.ToLower, o.Verbose, o.Window = c.MaxCount, c.MinCount, c.Subsample, c.Low, c.Loud, c.Window
		o.Alpha, o.Xmax, o.CountType = c.Alpha, c.Xmax, c.Count
		o.SolverType = glove.Stochastic
		if c.Kind == "glove-adagrad" {
			o.SolverType = glove.AdaGrad
		}
		m, err = glove.NewForOptions(o)
	case "lexvec":
		o := lexvec.DefaultOptions()
		o.BatchSize, o.Dim, o.DocInMemory, o.Goroutines, o.Initlr, o.Iter, o.LogBatch = c.Batch, c.Dim, c.Mem, c.Threads, c.Lr, c.Iter, c.LogBatch
		o.MaxCount, o.MinCount, o.SubsampleThreshold, o.ToLower, o.Verbose, o.Window = c.MaxCount, c.MinCount, c.Subsample, c.Low, c.Loud, c.Window
		o.MinLR, o.UpdateLRBatch, o.NegativeSampleSize, o.Smooth, o.RelationType = c.MinLR, c.UpdateLR, c.Neg, c.Smooth, c.Relation
		m, err = lexvec.NewForOptions(o)
	default:
		o := word2vec.DefaultOptions()
		o.BatchSize, o.Dim, o.DocInMemory, o.Goroutines, o.Initlr, o.Iter, o.LogBatch = c.Batch, c.Dim, c.Mem, c.Threads, c.Lr, c.Iter, c.LogBatch
		o.MaxCount, o.MinCount, o.SubsampleThreshold, o.ToLower, o.Verbose, o.Window = c.MaxCount, c.MinCount, c.Subsample, c.Low, c.Loud, c.Window
		o.MinLR, o.UpdateLRBatch, o.NegativeSampleSize, o.MaxDepth = c.MinLR, c.UpdateLR, c.Neg, c.Depth
		o.ModelType, o.OptimizerType = word2vec.Cbow, word2vec.NegativeSampling
		if c.Kind[0] == 's' {
			o.ModelType = word2vec.SkipGram
		}
		if c.Kind[len(c.Kind)-2:] == "hs" {
			o.OptimizerType = word2vec.HierarchicalSoftmax
		}
		m, err = word2vec.NewForOptions(o)
	}
	vp.Assert(err == nil, "model cannot be created")
	return m
}

// Fixed makes all random draws given numbers.
func Fixed() {
	k := 0
	vrand.Draw = func() float64 {
		k++
		return float64(k*37%101) / 101
	}
}
