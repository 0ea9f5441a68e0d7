package k04

import (
	"os"
	"strconv"
	"strings"

	"github.com/spf13/cobra"

	"github.com/ynqa/wego/cmd/query"
	"github.com/ynqa/wego/cmd/query/console"
	"github.com/ynqa/wego/pkg/embedding"
	"github.com/ynqa/wego/pkg/search"
	"github.com/ynqa/wego/zzverif/lib"
	"github.com/ynqa/wego/zzverif/vp"
)

func run(cmd *cobra.Command, args ...string) (out string, err error) {
	cmd.SilenceUsage, cmd.SilenceErrors = true, true
	cmd.SetArgs(args)
	p := false
	out = vp.CaptureStdout(func() { p = vp.Panics(func() { err = cmd.Execute() }) })
	vp.Assert(!p, "the command panics")
	return
}

func write(path, text string) {
	vp.Assert(os.WriteFile(path, []byte(text), 0644) == nil, "cannot write a file")
}

// table is what is shown for the word's k nearest neighbours.
func table(text, word string, k int) (out string, ok bool) {
	embs, err := embedding.Load(strings.NewReader(text))
	if err != nil {
		return "", false
	}
	s, err := search.New(embs...)
	if err != nil {
		return "", false
	}
	found := false
	for _, e := range embs {
		found = found || e.Word == word
	}
	if !found {
		return "", false
	}
	nb, err := s.SearchInternal(word, k)
	vp.Assert(err == nil, "the reference search fails")
	if k >= 0 {
		vp.Assert(len(nb) <= k, "more neighbours than asked for")
	}
	out = vp.CaptureStdout(func() { nb.Describe() })
	// a row for each neighbour
	var rows [][]string
	for _, l := range strings.Split(out, "\n") {
		fs := strings.Fields(strings.ReplaceAll(l, "|", " "))
		if len(fs) == 3 && fs[0][0] >= '0' && fs[0][0] <= '9' {
			rows = append(rows, fs)
		}
	}
	vp.Assert(len(rows) == len(nb), "the table does not have one row for each neighbour")
	for i, r := range rows {
		rank, err1 := strconv.Atoi(r[0])
		sim, err2 := strconv.ParseFloat(r[2], 64)
		d := sim - nb[i].Similarity
		vp.Assert(err1 == nil && err2 == nil && rank == i+1 && r[1] == nb[i].Word && d < 1e-5 && d > -1e-5, "a row is not the neighbour's rank, word and similarity")
	}
	return out, true
}

const good = "a 1 0.5\nb 0.6 0.8\nc -3 4\nd 0.25 0.5\n"

// Query: one word out of the file or not, any number of neighbours.
func Query() {
	dir := vp.TempDir()
	file := dir + "/v.txt"
	texts := []string{good, "", "a 1 2\nb x 3\n", "a 1 2\nb 3\n", "a 1 2\n\nb 3 4\n", "a 1\na 2\nb 3\n", "a\n", "A 1 2\na 2 1\nb 1 1\n"}
	text := texts[vp.Choose("file", len(texts))]
	write(file, text)
	word := vp.String("word", vp.Choose("len", 2)+1, "abcz")
	args := []string{"-i", file}
	k := 10
	switch vp.Choose("rank", 5) {
	case 1:
		k = 2
		args = append(args, "-r", "2")
	case 2:
		k = 1
		args = append(args, "--rank", "1")
	case 3:
		k = 0
		args = append(args, "-r", "0")
	case 4:
		k = 3
		args = append(args, "--rank=3")
	}
	if vp.Choose("last", 2) == 1 {
		args = append([]string{word}, args...)
	} else {
		args = append(args, word)
	}
	out, err := run(query.New(), args...)
	want, ok := table(text, word, k)
	if !ok {
		vp.Reach("error")
		vp.Assert(err != nil, "the failure is not reported")
		vp.Assert(out == "", "something is shown in spite of an error")
		return
	}
	vp.Reach("answer")
	vp.Assert(err == nil, "a stored word is not answered")
	vp.Assert(out == want, "not the table of the word's nearest neighbours is shown")
	b, err := os.ReadFile(file)
	vp.Assert(err == nil && string(b) == text, "the file is changed")
	vp.Assert(len(vp.Files(dir)) == 1, "files are created")
}

// Args: another number of arguments than one, or no file.
func Args() {
	dir := vp.TempDir()
	file := dir + "/v.txt"
	write(file, good)
	n := vp.Choose("args", 4)
	args := []string{"-i", file}
	missing := vp.Choose("missing", 2) == 1
	if missing {
		args = []string{"--input", dir + "/w.txt"}
	}
	for i := 0; i < n; i++ {
		args = append(args, "a")
	}
	out, err := run(query.New(), args...)
	if n == 1 && !missing {
		vp.Assert(err == nil && out != "", "a stored word is not answered")
		return
	}
	vp.Assert(err != nil, "a wrong number of words or a missing file is not reported")
	vp.Assert(out == "", "something is shown in spite of an error")
}

// Console: the console command answers from the file, or fails.
func Console() {
	dir := vp.TempDir()
	file := dir + "/v.txt"
	texts := []string{good, "", "a 1 2\nb x 3\n", "a 1 2\nb 3\n", "\x00"}
	text := texts[vp.Choose("file", len(texts))]
	args := []string{"-i", file, "-r", "2"}
	if text == "\x00" {
		args = []string{"-i", dir + "/w.txt"}
	} else {
		write(file, text)
	}
	word := []string{"a", "b", "c"}[vp.Choose("word", 3)]
	vp.SetStdin(word, "exit")
	out, err := run(console.New(), args...)
	out = strings.ReplaceAll(out, ">> ", "")
	if text != good {
		vp.Assert(err != nil, "a missing, malformed or empty file is not reported")
		vp.Assert(out == "", "something is shown in spite of an error")
		return
	}
	want, _ := table(text, word, 2)
	vp.Assert(err == nil, "the console fails")
	vp.Assert(out == want, "not the table of the word's nearest neighbours is shown")
}

// Spelling: only the word exactly as stored is answered.
func Spelling() {
	dir := vp.TempDir()
	file := dir + "/v.txt"
	ws := []string{"apple", "Apple", "APPLE", "appl", "apples", "apple.", "\u00e9", "\u00c9", "e\u0301", "1", "-", "--", "a,b", "\ufeffapple", "+", "exit"}
	one, two := vp.Choose("one", len(ws)), vp.Choose("two", len(ws))
	if one == two {
		vp.Skip()
	}
	text := ws[one] + " 1 2\n" + ws[two] + " 2 1\nzzz 1 1\n"
	write(file, text)
	word := append(ws, " apple", "apple ", "", "*", "app")[vp.Choose("word", len(ws)+5)]
	out, err := run(query.New(), "-i", file, "-r", "2", "--", word)
	want, ok := table(text, word, 2)
	if !ok {
		vp.Reach("error")
		vp.Assert(err != nil && out == "", "a word that is not stored is answered")
		return
	}
	vp.Reach("answer")
	vp.Assert(err == nil && out == want, "not the table of the word's nearest neighbours is shown")
}

// Big: more words than usual, and numbers of neighbours around and above it.
func Big() {
	dir := vp.TempDir()
	file := dir + "/v.txt"
	n := vp.Param("n", 130)
	text := ""
	for i, w := range lib.Many(n) {
		text += w + " " + strconv.Itoa(1+i*7%23) + " " + strconv.Itoa(i*i%31) + ".5\n"
	}
	text += vp.String("word", 1, "AB") + " 3 4\n"
	write(file, text)
	k := []int{0, 1, 9, 10, 11, 16, 50, 64, 99, 100, 101, 128, n - 1, n, n + 1, 1000, 1 << 40}[vp.Choose("rank", 17)]
	out, err := run(query.New(), "-i", file, "A", "-r", strconv.Itoa(k))
	want, ok := table(text, "A", k)
	vp.Assert((err == nil) == ok, "a stored word is not answered, or an unknown one is")
	vp.Assert(out == want, "not the table of the word's nearest neighbours is shown")
	if ok {
		vp.Reach("answer")
	}
}
