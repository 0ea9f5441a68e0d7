package k01

import (
	"bytes"
	"os"
	"strings"

	"github.com/spf13/cobra"

	gc "github.com/ynqa/wego/cmd/model/glove"
	lc "github.com/ynqa/wego/cmd/model/lexvec"
	wc "github.com/ynqa/wego/cmd/model/word2vec"
	"github.com/ynqa/wego/pkg/model"
	"github.com/ynqa/wego/pkg/model/glove"
	"github.com/ynqa/wego/pkg/model/lexvec"
	"github.com/ynqa/wego/pkg/model/modelutil/vector"
	"github.com/ynqa/wego/pkg/model/word2vec"
	"github.com/ynqa/wego/zzverif/lib"
	"github.com/ynqa/wego/zzverif/vp"
)

var kinds = []string{"word2vec", "glove", "lexvec"}

func command(kind string) *cobra.Command {
	switch kind {
	case "word2vec":
		return wc.New()
	case "glove":
		return gc.New()
	}
	return lc.New()
}

// run executes the command.
func run(kind string, args ...string) (err error) {
	cmd := command(kind)
	cmd.SilenceUsage, cmd.SilenceErrors = true, true
	cmd.SetArgs(args)
	p := false
	vp.CaptureStdout(func() { p = vp.Panics(func() { err = cmd.Execute() }) })
	vp.Assert(!p, "the command panics")
	return
}

func write(path, text string) {
	vp.Assert(os.WriteFile(path, []byte(text), 0644) == nil, "cannot write a file")
}

func read(path string) string {
	b, err := os.ReadFile(path)
	vp.Assert(err == nil, "a file is gone")
	return string(b)
}

func snapshot(dir string) (names []string, data []string) {
	for _, f := range vp.Files(dir) {
		names = append(names, f)
		if strings.HasSuffix(f, "/") {
			data = append(data, "")
		} else {
			data = append(data, read(dir+"/"+f))
		}
	}
	return
}

func equal(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// bystanders are files with names like those of temporary files and backups.
func bystanders(dir string) {
	for _, n := range []string{"out", "out.txt.tmp", "out.tmp", "out.txt~", "out.txt.bak", "out.txt.part", "out.txt.lock", "tmp", ".out.txt", "in.txt.tmp", "in"} {
		write(dir+"/"+n, "of "+n)
	}
}

// reset gives the random numbers of a run, the same in each run.
func reset() {
	lib.Fixed()
	k := 0
	vp.Hook("NextRandom", func(n int) int {
		k += 7
		return k % n
	})
}

// Guard: the output exists or the input does not.
func Guard() {
	dir := vp.TempDir()
	in, out := dir+"/in.txt", dir+"/out.txt"
	write(in, "a b c a b\n")
	bystanders(dir)
	switch vp.Choose("case", 11) {
	case 0: // an output file
		write(out, "precious")
	case 1: // a directory
		vp.Assert(os.MkdirAll(out, 0755) == nil, "cannot make a directory")
	case 2: // no input
		in = dir + "/missing.txt"
	case 3: // no input, and the output in a directory to be made
		in, out = dir+"/missing/in.txt", dir+"/new/out.txt"
	case 4: // an output file, and no input
		write(out, "precious")
		in = dir + "/missing.txt"
	case 5: // the input is the output
		out = in
	case 6: // an empty output file
		write(out, "")
	case 7: // an output in a deeper directory
		vp.Assert(os.MkdirAll(dir+"/sub", 0755) == nil, "cannot make a directory")
		out = dir + "/sub/out.txt"
		write(out, "precious")
	case 8: // an output that may not be written or read
		write(out, "precious")
		vp.Assert(os.Chmod(out, []os.FileMode{0444, 0, 0755}[vp.Choose("mode", 3)]) == nil, "cannot change a file's mode")
	case 9: // no input where it is said to be, but a file of its name elsewhere
		vp.Assert(os.MkdirAll(dir+"/sub", 0755) == nil, "cannot make a directory")
		in, out = dir+"/sub/in.txt", dir+"/new.txt"
	case 10: // the output by another spelling of its path
		vp.Assert(os.MkdirAll(dir+"/sub", 0755) == nil, "cannot make a directory")
		write(out, "precious")
		out = []string{dir + "/sub/../out.txt", dir + "/./out.txt", dir + "//out.txt"}[vp.Choose("path", 3)]
	}
	names, data := snapshot(dir)
	reset()
	args := []string{"-i", in, "-o", out, "--min-count", "0", "--iter", "1"}
	if vp.Choose("long", 2) == 1 {
		args = []string{"--input", in, "--output=" + out}
	}
	err := run(kinds[vp.Choose("kind", 3)], args...)
	vp.Assert(err != nil, "the command does not report that the output exists or the input does not")
	n2, d2 := snapshot(dir)
	vp.Assert(equal(names, n2), "files are created or removed")
	vp.Assert(equal(data, d2), "a file is changed")
}

// Train: otherwise the output holds the vectors of the model trained on the
// input with the options of the flags.
func Train() {
	dir := vp.TempDir()
	in, out := dir+"/in.txt", []string{dir + "/out.txt", dir + "/new/sub/out.txt"}[vp.Choose("where", 2)]
	kind := kinds[vp.Choose("kind", 3)]
	n := vp.Param("n", 3)
	if kind == "glove" {
		n = 2 // one pair of words: the order of training does not matter
	}
	text, _ := lib.Text(n, "abAB")
	write(in, text)
	write(dir+"/other.txt", "other")
	bystanders(dir)
	args := []string{"-i", in, "-o", out, "--min-count", "0", "--iter", "2", "-d", "2", "-w", "1", "--goroutines", "1", "--threshold", "0"}
	typ := vector.Single
	switch vp.Choose("type", 3) {
	case 1:
		typ = vector.Agg
		args = append(args, "--vec-type", "agg")
	case 2:
		args = append(args, "--vec-type", "single")
	}
	lower, mem := vp.Choose("lower", 2) == 1, vp.Choose("mem", 2) == 1
	if lower {
		args = append(args, "--to-lower")
	}
	if mem {
		args = append(args, "--in-memory")
	}
	var m model.Model
	var err error
	v := vp.Choose("variant", 2)
	switch kind {
	case "word2vec":
		o := word2vec.DefaultOptions()
		o.MinCount, o.Iter, o.Dim, o.Window, o.Goroutines, o.ToLower, o.DocInMemory, o.SubsampleThreshold = 0, 2, 2, 1, 1, lower, mem, 0
		if v == 1 {
			o.ModelType, o.OptimizerType = word2vec.SkipGram, word2vec.HierarchicalSoftmax
			args = append(args, "--model", "skipgram", "--optimizer", "hs")
		}
		m, err = word2vec.NewForOptions(o)
	case "glove":
		o := glove.DefaultOptions()
		o.MinCount, o.Iter, o.Dim, o.Window, o.Goroutines, o.ToLower, o.DocInMemory, o.SubsampleThreshold = 0, 2, 2, 1, 1, lower, mem, 0
		if v == 1 {
			o.SolverType, o.Xmax = glove.AdaGrad, 3
			args = append(args, "--solver", "adagrad", "--xmax", "3")
		}
		m, err = glove.NewForOptions(o)
	default:
		o := lexvec.DefaultOptions()
		o.MinCount, o.Iter, o.Dim, o.Window, o.Goroutines, o.ToLower, o.DocInMemory, o.SubsampleThreshold = 0, 2, 2, 1, 1, lower, mem, 0
		if v == 1 {
			o.RelationType, o.Smooth = lexvec.Collocation, 0.5
			args = append(args, "--rel", "co", "--smooth", "0.5")
		}
		m, err = lexvec.NewForOptions(o)
	}
	vp.Assert(err == nil, "a model cannot be created")
	names, data := snapshot(dir)
	reset()
	vp.Assert(m.Train(strings.NewReader(text)) == nil, "training fails")
	var want bytes.Buffer
	vp.Assert(m.Save(&want, typ) == nil, "saving fails")
	reset()
	vp.Assert(run(kind, args...) == nil, "the command fails")
	vp.Assert(read(out) == want.String(), "the output does not hold the vectors of a model trained with these options")
	n2, d2 := snapshot(dir)
	old := 0
	for i, n := range n2 {
		known := false
		for j, o := range names {
			if o == n {
				known = true
				old++
				vp.Assert(data[j] == d2[i], "another file is changed")
			}
		}
		vp.Assert(known || strings.HasPrefix(out, dir+"/"+n), "another file is created")
	}
	vp.Assert(old == len(names), "a file is removed")
}

// Full: the output cannot take the vectors.
func Full() {
	dir := vp.TempDir()
	in := dir + "/in.txt"
	write(in, "a b c\n")
	reset()
	write(dir+"/file", "x")
	err := run(kinds[vp.Choose("kind", 3)], "-i", in, "-o", dir+"/file/out.txt", "--min-count", "0", "--iter", "1")
	vp.Assert(err != nil, "an output that cannot be created is not reported")
	vp.Assert(read(dir+"/file") == "x", "a file is changed")
}

// Relative: paths relative to the directory the command is run in.
func Relative() {
	sub := vp.Choose("sub", 3)
	in, out := "in.txt", []string{"out.txt", "new/out.txt", "have/out.txt"}[sub]
	write("other.txt", "precious")
	missing, exists := vp.Choose("missing", 2) == 1, vp.Choose("exists", 2) == 1
	vp.Assert(os.MkdirAll("have", 0755) == nil, "cannot make a directory")
	if exists && sub == 1 {
		vp.Assert(os.MkdirAll("new", 0755) == nil, "cannot make a directory")
	}
	// files of the same names elsewhere do not count
	if missing {
		if vp.Choose("near", 2) == 1 {
			write("have/in.txt", "a b c\n")
		}
	} else {
		write(in, "a b c a b\n")
	}
	if exists {
		write(out, "precious")
	} else if sub != 2 {
		write("have/out.txt", "precious")
	} else {
		write("out.txt", "precious")
	}
	names, data := snapshot(".")
	reset()
	err := run(kinds[vp.Choose("kind", 3)], "-i", in, "-o", out, "--min-count", "0", "--iter", "1", "-d", "2", "--goroutines", "1")
	n2, d2 := snapshot(".")
	if missing || exists {
		vp.Assert(err != nil, "the command does not report that the output exists or the input does not")
		vp.Assert(equal(names, n2) && equal(data, d2), "a file is created, removed or changed")
		return
	}
	vp.Assert(err == nil, "the command fails")
	vp.Assert(strings.HasPrefix(read(out), "a "), "the output does not hold vectors")
	old := 0
	for i, n := range n2 {
		for j, o := range names {
			if o == n {
				old++
				vp.Assert(data[j] == d2[i], "another file is changed")
			}
		}
	}
	vp.Assert(old == len(names), "a file is removed")
	vp.Reach("trained")
}
