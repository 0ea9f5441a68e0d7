package k02

import (
	"github.com/spf13/cobra"

	"github.com/ynqa/wego/pkg/corpus"
	"github.com/ynqa/wego/pkg/corpus/filter"
	"github.com/ynqa/wego/pkg/model/glove"
	"github.com/ynqa/wego/pkg/model/lexvec"
	"github.com/ynqa/wego/pkg/model/word2vec"
	"github.com/ynqa/wego/zzverif/vp"
)

// Word2vec: the command line sets one option.
func Word2vec() {
	cmd := &cobra.Command{Use: "word2vec"}
	var o word2vec.Options
	word2vec.LoadForCmd(cmd, &o)
	want := word2vec.DefaultOptions()
	vp.Assert(vp.Same(o, want), "word2vec: without flags the options are not the defaults")
	k := vp.Choose("flag", 19)
	var args []string
	name := ""
	switch k {
	case 0:
		name = "batch"
		s, v := number()
		want.BatchSize = v
		args = arg(name, "", s)
	case 1:
		name = "dim"
		s, v := number()
		want.Dim = v
		args = arg(name, "d", s)
	case 2:
		name = "in-memory"
		s, v := boolean()
		want.DocInMemory = v
		args = arg(name, "", s)
	case 3:
		name = "goroutines"
		s, v := number()
		want.Goroutines = v
		args = arg(name, "", s)
	case 4:
		name = "initlr"
		s, v := decimal()
		want.Initlr = v
		args = arg(name, "", s)
	case 5:
		name = "iter"
		s, v := number()
		want.Iter = v
		args = arg(name, "", s)
	case 6:
		name = "log-batch"
		s, v := number()
		want.LogBatch = v
		args = arg(name, "", s)
	case 7:
		name = "max-count"
		s, v := number()
		want.MaxCount = v
		args = arg(name, "", s)
	case 8:
		name = "max-depth"
		s, v := number()
		want.MaxDepth = v
		args = arg(name, "", s)
	case 9:
		name = "min-count"
		s, v := number()
		want.MinCount = v
		args = arg(name, "", s)
	case 10:
		name = "min-lr"
		s, v := decimal()
		want.MinLR = v
		args = arg(name, "", s)
	case 11:
		name = "model"
		s, v := word()
		want.ModelType = v
		args = arg(name, "", s)
	case 12:
		name = "sample"
		s, v := number()
		want.NegativeSampleSize = v
		args = arg(name, "", s)
	case 13:
		name = "optimizer"
		s, v := word()
		want.OptimizerType = v
		args = arg(name, "", s)
	case 14:
		name = "threshold"
		s, v := decimal()
		want.SubsampleThreshold = v
		args = arg(name, "", s)
	case 15:
		name = "to-lower"
		s, v := boolean()
		want.ToLower = v
		args = arg(name, "", s)
	case 16:
		name = "update-lr-batch"
		s, v := number()
		want.UpdateLRBatch = v
		args = arg(name, "", s)
	case 17:
		name = "verbose"
		s, v := boolean()
		want.Verbose = v
		args = arg(name, "", s)
	case 18:
		name = "window"
		s, v := number()
		want.Window = v
		args = arg(name, "w", s)
	}
	vp.Assert(cmd.ParseFlags(args) == nil, "word2vec: flag "+name+" is not accepted")
	vp.Assert(vp.Same(o, want), "word2vec: flag "+name+" does not set exactly its own option")
}

// Glove: the command line sets one option.
func Glove() {
	cmd := &cobra.Command{Use: "glove"}
	var o glove.Options
	glove.LoadForCmd(cmd, &o)
	want := glove.DefaultOptions()
	vp.Assert(vp.Same(o, want), "glove: without flags the options are not the defaults")
	k := vp.Choose("flag", 17)
	var args []string
	name := ""
	switch k {
	case 0:
		name = "alpha"
		s, v := decimal()
		want.Alpha = v
		args = arg(name, "", s)
	case 1:
		name = "batch"
		s, v := number()
		want.BatchSize = v
		args = arg(name, "", s)
	case 2:
		name = "cnt"
		s, v := word()
		want.CountType = v
		args = arg(name, "", s)
	case 3:
		name = "dim"
		s, v := number()
		want.Dim = v
		args = arg(name, "d", s)
	case 4:
		name = "in-memory"
		s, v := boolean()
		want.DocInMemory = v
		args = arg(name, "", s)
	case 5:
		name = "goroutines"
		s, v := number()
		want.Goroutines = v
		args = arg(name, "", s)
	case 6:
		name = "initlr"
		s, v := decimal()
		want.Initlr = v
		args = arg(name, "", s)
	case 7:
		name = "iter"
		s, v := number()
		want.Iter = v
		args = arg(name, "", s)
	case 8:
		name = "log-batch"
		s, v := number()
		want.LogBatch = v
		args = arg(name, "", s)
	case 9:
		name = "max-count"
		s, v := number()
		want.MaxCount = v
		args = arg(name, "", s)
	case 10:
		name = "min-count"
		s, v := number()
		want.MinCount = v
		args = arg(name, "", s)
	case 11:
		name = "solver"
		s, v := word()
		want.SolverType = v
		args = arg(name, "", s)
	case 12:
		name = "threshold"
		s, v := decimal()
		want.SubsampleThreshold = v
		args = arg(name, "", s)
	case 13:
		name = "to-lower"
		s, v := boolean()
		want.ToLower = v
		args = arg(name, "", s)
	case 14:
		name = "verbose"
		s, v := boolean()
		want.Verbose = v
		args = arg(name, "", s)
	case 15:
		name = "window"
		s, v := number()
		want.Window = v
		args = arg(name, "w", s)
	case 16:
		name = "xmax"
		s, v := number()
		want.Xmax = v
		args = arg(name, "", s)
	}
	vp.Assert(cmd.ParseFlags(args) == nil, "glove: flag "+name+" is not accepted")
	vp.Assert(vp.Same(o, want), "glove: flag "+name+" does not set exactly its own option")
}

// Lexvec: the command line sets one option.
func Lexvec() {
	cmd := &cobra.Command{Use: "lexvec"}
	var o lexvec.Options
	lexvec.LoadForCmd(cmd, &o)
	want := lexvec.DefaultOptions()
	vp.Assert(vp.Same(o, want), "lexvec: without flags the options are not the defaults")
	k := vp.Choose("flag", 18)
	var args []string
	name := ""
	switch k {
	case 0:
		name = "batch"
		s, v := number()
		want.BatchSize = v
		args = arg(name, "", s)
	case 1:
		name = "dim"
		s, v := number()
		want.Dim = v
		args = arg(name, "d", s)
	case 2:
		name = "in-memory"
		s, v := boolean()
		want.DocInMemory = v
		args = arg(name, "", s)
	case 3:
		name = "goroutines"
		s, v := number()
		want.Goroutines = v
		args = arg(name, "", s)
	case 4:
		name = "initlr"
		s, v := decimal()
		want.Initlr = v
		args = arg(name, "", s)
	case 5:
		name = "iter"
		s, v := number()
		want.Iter = v
		args = arg(name, "", s)
	case 6:
		name = "log-batch"
		s, v := number()
		want.LogBatch = v
		args = arg(name, "", s)
	case 7:
		name = "max-count"
		s, v := number()
		want.MaxCount = v
		args = arg(name, "", s)
	case 8:
		name = "min-count"
		s, v := number()
		want.MinCount = v
		args = arg(name, "", s)
	case 9:
		name = "min-lr"
		s, v := decimal()
		want.MinLR = v
		args = arg(name, "", s)
	case 10:
		name = "sample"
		s, v := number()
		want.NegativeSampleSize = v
		args = arg(name, "", s)
	case 11:
		name = "rel"
		s, v := word()
		want.RelationType = v
		args = arg(name, "", s)
	case 12:
		name = "smooth"
		s, v := decimal()
		want.Smooth = v
		args = arg(name, "", s)
	case 13:
		name = "threshold"
		s, v := decimal()
		want.SubsampleThreshold = v
		args = arg(name, "", s)
	case 14:
		name = "to-lower"
		s, v := boolean()
		want.ToLower = v
		args = arg(name, "", s)
	case 15:
		name = "update-lr-batch"
		s, v := number()
		want.UpdateLRBatch = v
		args = arg(name, "", s)
	case 16:
		name = "verbose"
		s, v := boolean()
		want.Verbose = v
		args = arg(name, "", s)
	case 17:
		name = "window"
		s, v := number()
		want.Window = v
		args = arg(name, "w", s)
	}
	vp.Assert(cmd.ParseFlags(args) == nil, "lexvec: flag "+name+" is not accepted")
	vp.Assert(vp.Same(o, want), "lexvec: flag "+name+" does not set exactly its own option")
}

// arg is one of the ways to pass a flag.
func arg(name, short, value string) []string {
	if short != "" && vp.Choose("short", 2) == 1 {
		return []string{"-" + short, value}
	}
	return []string{"--" + name + "=" + value}
}

func number() (string, int) {
	neg := vp.Choose("negative", 2) == 1
	n := vp.Choose("digits", vp.Param("digits", 2)) + 1
	s := vp.String("digit", n, "0123456789")
	vp.Assume(n == 1 || s[0] != '0')
	v := 0
	for i := 0; i < n; i++ {
		v = v*10 + int(s[i]-'0')
	}
	if neg {
		return "-" + s, -v
	}
	return s, v
}

func boolean() (string, bool) {
	if vp.Choose("bool", 2) == 1 {
		return "true", true
	}
	return "false", false
}

func decimal() (string, float64) {
	k := vp.Choose("decimal", 6)
	return []string{"0", "0.5", "1e-4", "0.025", "100", "-2.25"}[k], []float64{0, 0.5, 1e-4, 0.025, 100, -2.25}[k]
}

func word() (string, string) {
	s := vp.String("word", vp.Choose("len", 3)+1, "abcdefghijklmnopqrstuvwxyz-0123456789")
	return s, s
}

// Shared: the flags that the corpus packages define for their own options.
func Shared() {
	cmd := &cobra.Command{Use: "corpus"}
	var o corpus.Options
	var f filter.Options
	corpus.LoadForCmd(cmd, &o)
	filter.LoadForCmd(cmd, &f)
	want, wantf := corpus.DefaultOptions(), *filter.DefaultOption()
	vp.Assert(vp.Same(o, want) && vp.Same(f, wantf), "corpus: without flags the options are not the defaults")
	var args []string
	name := ""
	switch vp.Choose("flag", 4) {
	case 0:
		name = "in-memory"
		s, v := boolean()
		want.DocInMemory = v
		args = arg(name, "", s)
	case 1:
		name = "lower"
		s, v := boolean()
		want.ToLower = v
		args = arg(name, "", s)
	case 2:
		name = "max-count"
		s, v := number()
		wantf.MaxCount = v
		args = arg(name, "", s)
	case 3:
		name = "min-count"
		s, v := number()
		wantf.MinCount = v
		args = arg(name, "", s)
	}
	vp.Assert(cmd.ParseFlags(args) == nil, "corpus: flag "+name+" is not accepted")
	vp.Assert(vp.Same(o, want) && vp.Same(f, wantf), "corpus: flag "+name+" does not set exactly its own option")
	again, againf := corpus.DefaultOptions(), *filter.DefaultOption()
	vp.Assert(!again.DocInMemory && !again.ToLower && againf.MaxCount <= 0, "corpus: the defaults change")
}
