package p01

import (
	"os"
	"strconv"
	"strings"

	"github.com/spf13/cobra"

	gc "github.com/ynqa/wego/cmd/model/glove"
	lc "github.com/ynqa/wego/cmd/model/lexvec"
	wc "github.com/ynqa/wego/cmd/model/word2vec"
	"github.com/ynqa/wego/cmd/query"
	"github.com/ynqa/wego/cmd/query/console"
	"github.com/ynqa/wego/zzverif/lib"
	"github.com/ynqa/wego/zzverif/vp"
)

func run(cmd *cobra.Command, args ...string) (out string, err error) {
	cmd.SilenceUsage, cmd.SilenceErrors = true, true
	cmd.SetArgs(args)
	p := false
	out = vp.CaptureStdout(func() { p = vp.Panics(func() { err = cmd.Execute() }) })
	vp.Assert(!p, "a command panics")
	return
}

func command() *cobra.Command {
	switch vp.Choose("command", 3) {
	case 0:
		return wc.New()
	case 1:
		return gc.New()
	}
	return lc.New()
}

func write(path, text string) {
	vp.Assert(os.WriteFile(path, []byte(text), 0644) == nil, "cannot write a file")
}

// rows are the words and similarities of a table.
func rows(out string) (words []string, sims []float64) {
	for _, l := range strings.Split(out, "\n") {
		fs := strings.Fields(strings.ReplaceAll(l, "|", " "))
		if len(fs) == 3 && fs[0][0] >= '0' && fs[0][0] <= '9' {
			rank, err := strconv.Atoi(fs[0])
			vp.Assert(err == nil && rank == len(words)+1, "the ranks are not 1, 2, 3, ...")
			sim, err := strconv.ParseFloat(fs[2], 64)
			vp.Assert(err == nil, "a similarity is not a number")
			words, sims = append(words, fs[1]), append(sims, sim)
		}
	}
	return
}

// answered checks what is shown for a word with the given rank.
func answered(out string, err error, word string, k int, dic []string) {
	known := false
	for _, d := range dic {
		known = known || d == word
	}
	ws, sims := rows(out)
	if !known {
		vp.Assert(err != nil && len(ws) == 0, "a word that is not in the text is answered")
		vp.Reach("unknown")
		return
	}
	vp.Assert(err == nil, "a word of the text is not answered")
	vp.Assert(len(ws) <= k && len(ws) < len(dic), "more neighbours than asked for, or than there are")
	for i, w := range ws {
		in := false
		for _, d := range dic {
			in = in || d == w
		}
		vp.Assert(in && w != word, "a neighbour is not another word of the text")
		for _, v := range ws[:i] {
			vp.Assert(v != w, "a neighbour is shown twice")
		}
		vp.Assert(sims[i] >= 0 && sims[i] <= 1.0000001 && (i == 0 || sims[i] <= sims[i-1]), "neighbours are not in order of similarity")
	}
	if len(ws) > 0 {
		vp.Reach("neighbours")
	}
}

// Query: a command trains on a text, the query command reads what it wrote.
func Query() {
	dir := vp.TempDir()
	in, out := dir+"/in.txt", dir+"/new/out.txt"
	lib.Fixed()
	k := 0
	vp.Hook("NextRandom", func(n int) int {
		k += 7
		return k % n
	})
	text, ws := lib.Text(vp.Choose("n", vp.Param("n", 3)+1), "abA")
	write(in, text)
	low := vp.Choose("low", 2) == 1
	args := []string{"-i", in, "-o", out, "--min-count", []string{"0", "2"}[vp.Choose("min", 2)], "--iter", "2", "-d", "2", "-w", "1", "--goroutines", "1"}
	if low {
		args = append(args, "--to-lower")
	}
	if vp.Choose("mem", 2) == 1 {
		args = append(args, "--in-memory")
	}
	if vp.Choose("agg", 2) == 1 {
		args = append(args, "--vec-type", "agg")
	}
	_, err := run(command(), args...)
	vp.Assert(err == nil, "training fails")
	_, dic, _ := lib.Index(lib.LowerAll(ws, low))
	word := vp.String("word", 1, "abAB")
	rank := vp.Choose("rank", 3) + 1
	o, err := run(query.New(), "-i", out, "-r", strconv.Itoa(rank), word)
	answered(o, err, word, rank, dic)
}

// Large: a text of many words; the numbers of the vectors are as trained.
func Large() {
	dir := vp.TempDir()
	in, out := dir+"/in.txt", dir+"/out.txt"
	lib.Fixed()
	k := 0
	vp.Hook("NextRandom", func(n int) int {
		k += 7
		return k % n
	})
	n := vp.Param("n", 40)
	many := lib.Many(n)
	text := ""
	for i := range many {
		text += many[i*i%n] + " " + many[i] + "\n"
	}
	text += vp.String("last", 1, "AB")
	write(in, text)
	_, dic, _ := lib.Index(lib.Words(text))
	args := []string{"-i", in, "-o", out, "-d", "5"}
	if vp.Choose("mem", 2) == 1 {
		args = append(args, "--in-memory")
	}
	_, err := run(command(), args...)
	vp.Assert(err == nil, "training fails")
	word := []string{many[0], many[n-1], "A", "a.", "B"}[vp.Choose("word", 5)]
	rank := []int{1, 10, n, 100}[vp.Choose("rank", 4)]
	o, err := run(query.New(), "-i", out, "-r", strconv.Itoa(rank), word)
	answered(o, err, word, rank, dic)
}

// Console: the console reads the file as well; each line is answered.
func Console() {
	dir := vp.TempDir()
	in, out := dir+"/in.txt", dir+"/out.txt"
	lib.Fixed()
	k := 0
	vp.Hook("NextRandom", func(n int) int {
		k += 7
		return k % n
	})
	text, ws := lib.Text(vp.Choose("n", vp.Param("n", 3)+1), "abA")
	write(in, text)
	_, err := run(command(), "-i", in, "-o", out, "--min-count", "0", "-d", "2", "--goroutines", "1")
	vp.Assert(err == nil, "training fails")
	_, dic, _ := lib.Index(ws)
	a, b := []string{"a", "b", "A", "z"}[vp.Choose("one", 4)], []string{"", "a", "A", "z"}[vp.Choose("two", 4)]
	line := a
	if b != "" {
		line += []string{" + ", " - "}[vp.Choose("op", 2)] + b
	}
	vp.SetStdin(line, "exit")
	o, err := run(console.New(), "-i", out, "-r", "2")
	shown, sims := rows(o)
	if len(dic) == 0 {
		vp.Assert(err != nil && len(shown) == 0, "a console without words is opened")
		return
	}
	vp.Assert(err == nil, "the console fails on what was trained")
	in2 := func(w string, l []string) bool {
		for _, x := range l {
			if x == w {
				return true
			}
		}
		return false
	}
	if !in2(a, dic) || b != "" && !in2(b, dic) {
		vp.Assert(len(shown) == 0 && len(strings.ReplaceAll(o, ">> ", "")) > 0, "a word that is not in the text is answered")
		vp.Reach("unknown")
		return
	}
	vp.Assert(len(shown) <= 2, "more neighbours than asked for")
	for i, w := range shown {
		vp.Assert(in2(w, dic) && w != a && w != b, "a neighbour is not another word of the text")
		vp.Assert(!in2(w, shown[:i]), "a neighbour is shown twice")
		vp.Assert(sims[i] >= 0 && sims[i] <= 1.0000001 && (i == 0 || sims[i] <= sims[i-1]), "neighbours are not in order of similarity")
	}
	if len(shown) > 0 {
		vp.Reach("neighbours")
	}
}

var common = []string{"--batch=1", "--batch=2", "--dim=1", "--dim=11", "--goroutines=2", "--in-memory", "--initlr=0.5", "--iter=1", "--iter=3", "--log-batch=1",
	"--max-count=2", "--min-count=2", "--min-count=9", "--threshold=0.5", "--to-lower", "--verbose", "--window=1", "--window=9", "--vec-type=agg", "--vec-type=single"}

var special = [][]string{
	{"--max-depth=1", "--max-depth=9", "--min-lr=0.1", "--model=cbow", "--model=skipgram", "--sample=1", "--sample=9", "--optimizer=ns", "--optimizer=hs", "--update-lr-batch=1"},
	{"--alpha=0.5", "--alpha=2", "--cnt=inc", "--cnt=prox", "--solver=sgd", "--solver=adagrad", "--xmax=1", "--xmax=5"},
	{"--min-lr=0.1", "--sample=1", "--sample=9", "--rel=ppmi", "--rel=pmi", "--rel=co", "--rel=logco", "--smooth=0.5", "--smooth=1", "--update-lr-batch=1"},
}

// Options: whichever two options a text is trained with, what is saved can be
// queried.
func Options() {
	dir := vp.TempDir()
	in, out := dir+"/in.txt", dir+"/out.txt"
	lib.Fixed()
	k := 0
	vp.Hook("NextRandom", func(n int) int {
		k += 7
		return k % n
	})
	write(in, "a b A c b\na d")
	which := vp.Choose("command", 3)
	options := append(append([]string{}, common...), special[which]...)
	one := vp.Choose("one", len(options))
	args := []string{"-i", in, "-o", out, "--min-count=0", "--goroutines=1", options[one]}
	if two := vp.Choose("two", one+1); two < one {
		args = append(args, options[two])
	}
	low := false
	for _, a := range args {
		low = low || a == "--to-lower"
	}
	_, err := run([]*cobra.Command{wc.New(), gc.New(), lc.New()}[which], args...)
	vp.Assert(err == nil, "training fails")
	_, dic, _ := lib.Index(lib.LowerAll([]string{"a", "b", "A", "c", "b", "a", "d"}, low))
	for _, word := range []string{"a", "A", "d"} {
		o, err := run(query.New(), "-i", out, word)
		answered(o, err, word, 10, dic)
	}
}
