package v01

import (
	"bytes"
	"errors"
	"io"
	"strconv"
	"strings"

	"github.com/ynqa/wego/pkg/corpus"
	"github.com/ynqa/wego/pkg/corpus/fs"
	"github.com/ynqa/wego/pkg/corpus/memory"
	"github.com/ynqa/wego/pkg/model"
	"github.com/ynqa/wego/pkg/model/modelutil/vector"
	"github.com/ynqa/wego/pkg/util/verbose"
	"github.com/ynqa/wego/zzverif/lib"
	"github.com/ynqa/wego/zzverif/vp"
)

// totals are the numbers in the finished lines (those that end a phase) that
// begin with the given words, such as "read 3 words".
func totals(out, verb, noun string) (ns []int) {
	for _, l := range strings.Split(out, "\n") {
		if i := strings.LastIndex(strings.TrimRight(l, "\r"), "\r"); i >= 0 {
			l = l[i+1:]
		}
		fs := strings.Fields(l)
		if len(fs) >= 3 && fs[0] == verb && fs[2] == noun {
			n, err := strconv.Atoi(fs[1])
			vp.Assert(err == nil, "a progress line has no number")
			ns = append(ns, n)
		}
	}
	return
}

func open(mem bool, r io.ReadSeeker, low bool, min int) corpus.Corpus {
	if mem {
		return memory.New(r, low, -1, min)
	}
	return fs.New(r, low, -1, min)
}

// Load: a corpus loaded with progress lines is the one loaded without.
func Load() {
	text, ws := lib.Text(vp.Choose("n", vp.Param("n", 3)+1), "abA")
	mem, low := vp.Choose("mem", 2) == 1, vp.Choose("low", 2) == 1
	min := vp.Choose("min", 2) * 2
	every := vp.Choose("every", 3) + 1
	var with *corpus.WithCooccurrence
	switch vp.Choose("with", 3) {
	case 1:
		with = &corpus.WithCooccurrence{CountType: "inc", Window: vp.Choose("window", 3)}
	case 2:
		with = &corpus.WithCooccurrence{CountType: "prox", Window: 2}
	}
	a, b := open(mem, lib.NewReader(text), low, min), open(mem, lib.NewReader(text), low, min)
	vp.Assert(a.Load(with, verbose.New(false), every) == nil, "loading fails")
	var err error
	p := false
	out := vp.CaptureStdout(func() { p = vp.Panics(func() { err = b.Load(with, verbose.New(true), every) }) })
	vp.Assert(!p, "loading verbosely panics")
	vp.Assert(err == nil, "loading verbosely fails")
	da, db := a.Dictionary(), b.Dictionary()
	vp.Assert(a.Len() == b.Len() && da.Len() == db.Len(), "verbose mode changes the number of words")
	for i := 0; i < da.Len(); i++ {
		w, _ := da.Word(i)
		v, _ := db.Word(i)
		vp.Assert(w == v && da.IDFreq(i) == db.IDFreq(i), "verbose mode changes a word or its frequency")
	}
	pairs := 0
	if with != nil {
		ma, mb := a.Cooccurrence().EncodedMatrix(), b.Cooccurrence().EncodedMatrix()
		vp.Assert(len(ma) == len(mb), "verbose mode changes the co-occurring pairs")
		for k, v := range ma {
			u, ok := mb[k]
			vp.Assert(ok && u == v, "verbose mode changes a co-occurrence value")
		}
		for i := range ws {
			if k := a.Len() - 1 - i; k < with.Window {
				pairs += k
			} else {
				pairs += with.Window
			}
		}
	}
	xa, xb := a.IndexedDoc(), b.IndexedDoc()
	if !mem {
		xa, xb = words(a), words(b)
	}
	vp.Assert(len(xa) == len(xb), "verbose mode changes the words to train on")
	for i := range xa {
		vp.Assert(xa[i] == xb[i], "verbose mode changes the words to train on")
	}
	read := totals(out, "read", "words")
	vp.Assert(len(read) == 1 && read[0] == a.Len(), "the number of words read is not reported")
	tuples := totals(out, "read", "tuples")
	if with == nil {
		vp.Assert(len(tuples) == 0, "pairs are reported that were not read")
		return
	}
	vp.Assert(len(tuples) == 1 && tuples[0] == pairs, "the number of pairs read is not reported")
	if pairs > 1 {
		vp.Reach("pairs")
	}
}

func words(c corpus.Corpus) (all []int) {
	ch, res := make(chan []int, 8), make(chan error, 1)
	go func() { res <- c.BatchWords(ch, 2) }()
	for b := range ch {
		all = append(all, b...)
	}
	vp.Assert(<-res == nil, "reading the words again fails")
	return
}

func train(c lib.Model, r io.ReadSeeker) (m model.Model, err error) {
	lib.Fixed()
	next := lib.NewNext()
	next.Given = func(k, bound int) int { return k * 5 % bound }
	m = c.New()
	return m, m.Train(r)
}

// both trains and saves quietly and verbosely, and compares.
func both(c lib.Model, text string, words int) (out string) {
	quiet, err := train(c, lib.NewReader(text))
	vp.Assert(err == nil, "training fails")
	var a, b bytes.Buffer
	vp.Assert(quiet.Save(&a, vector.Agg) == nil, "saving fails")
	c.Loud = true
	var loud model.Model
	p := false
	out = vp.CaptureStdout(func() { p = vp.Panics(func() { loud, err = train(c, lib.NewReader(text)) }) })
	vp.Assert(!p, "training verbosely panics")
	vp.Assert(err == nil, "training verbosely fails")
	for _, t := range []vector.Type{vector.Single, vector.Agg} {
		x, y := quiet.WordVector(t), loud.WordVector(t)
		vp.Assert(x.Row() == y.Row() && x.Col() == y.Col(), "verbose mode changes the number of vectors")
		for i := 0; i < x.Row(); i++ {
			for j := range x.Slice(i) {
				vp.Assert(vp.Near(x.Slice(i)[j], y.Slice(i)[j]), "verbose mode changes a vector")
			}
		}
	}
	saved := vp.CaptureStdout(func() { err = loud.Save(&b, vector.Agg) })
	vp.Assert(err == nil, "saving verbosely fails")
	vp.Assert(a.String() == b.String(), "verbose mode changes what is saved")
	end := totals(saved, "saved", "words")
	vp.Assert(len(end) == 1 && end[0] == words, "the number of words saved is not reported")
	return
}

// Train: the same vectors, and the same bytes saved.
func Train() {
	c := lib.Default(lib.Kinds[vp.Choose("kind", len(lib.Kinds))])
	c.Mem, c.Low = vp.Choose("mem", 2) == 1, vp.Choose("low", 2) == 1
	c.MinCount = vp.Choose("min", 2) * 2
	c.Iter = 2
	c.Lr = 0.5
	c.LogBatch = vp.Choose("every", 3) + 1
	c.Subsample = []float64{0, 0.5}[vp.Choose("subsample", 2)]
	n := vp.Choose("n", vp.Param("n", 3)+1)
	if n > 0 && vp.Choose("rate", 2) == 1 {
		c.UpdateLR = n // at the end of an iteration: the observer may lag at other times
	}
	text, ws := lib.Text(n, "abA")
	ids, _, freq := lib.Index(lib.LowerAll(ws, c.Low))
	if c.Kind[0] == 'g' && len(lib.Pairs(ids, c.Window)) > 1 {
		vp.Skip() // glove trains several pairs in any order
	}
	out := both(c, text, len(freq))
	read := totals(out, "read", "words")
	vp.Assert(len(read) == 1 && read[0] == n, "the number of words read is not reported")
	if c.Kind[0] != 'g' { // glove does not wait for its last line
		want := 0
		for _, id := range ids {
			if freq[id] >= c.MinCount {
				want++
			}
		}
		trained := totals(out, "trained", "words")
		vp.Assert(len(trained) == c.Iter, "there is no line for each iteration")
		for _, t := range trained {
			vp.Assert(t == want, "the number of words trained is not reported")
		}
		if want > 1 {
			vp.Reach("trained")
		}
	}
}

type broken struct {
	*lib.Reader
	at, n int
	once  bool
}

var errBroken = errors.New("broken")

func (b *broken) Read(p []byte) (int, error) {
	if b.n++; b.n == b.at+1 || b.n > b.at && !b.once {
		return 0, errBroken
	}
	if len(p) > 2 {
		p = p[:2]
	}
	return b.Reader.Read(p)
}

// Fails: a failure is reported in verbose mode if and only if it is without.
func Fails() {
	c := lib.Default(lib.Kinds[vp.Choose("kind", len(lib.Kinds))])
	c.Mem = vp.Choose("mem", 2) == 1
	c.LogBatch = 1
	at := vp.Choose("at", vp.Param("at", 12))
	once := vp.Choose("once", 2) == 1
	_, err := train(c, &broken{Reader: lib.NewReader("ab a b c"), at: at, once: once})
	c.Loud = true
	var loud error
	p := false
	vp.CaptureStdout(func() {
		p = vp.Panics(func() { _, loud = train(c, &broken{Reader: lib.NewReader("ab a b c"), at: at, once: once}) })
	})
	vp.Assert(!p, "training verbosely panics")
	vp.Assert((err == nil) == (loud == nil), "verbose mode changes whether training fails")
	if err != nil {
		vp.Reach("fails")
	} else {
		vp.Reach("succeeds")
	}
}

// Long: texts of many words; the pairs have no word in common, so that the
// order in which glove trains them does not matter.
func Long() {
	c := lib.Default(lib.Kinds[vp.Choose("kind", len(lib.Kinds))])
	c.Mem = vp.Choose("mem", 2) == 1
	c.Iter, c.Lr, c.Batch, c.MaxCount = 2, 0.5, 10000, []int{-1, 2}[vp.Choose("max", 2)]
	if c.Kind[0] == 'g' {
		c.MaxCount = 2
	}
	n := vp.Param("n", 35)
	many := lib.Many(2 * n)
	text := ""
	for i := 0; i < n; i++ {
		text += many[2*i] + " " + many[2*i+1] + " Z Z\n"
	}
	text += vp.String("last", 1, "AZ")
	c.LogBatch = []int{1, 2, 7, n, 2 * n, 4*n + 1, 4*n + 2, 10000}[vp.Choose("every", 8)]
	ids, dic, freq := lib.Index(lib.Words(text))
	want := 0
	for _, id := range ids {
		if c.MaxCount < 0 || freq[id] <= c.MaxCount {
			want++
		}
	}
	c.UpdateLR = want
	out := both(c, text, len(dic))
	read := totals(out, "read", "words")
	vp.Assert(len(read) == 1 && read[0] == len(ids), "the number of words read is not reported")
	if c.Kind[0] != 'g' {
		trained := totals(out, "trained", "words")
		vp.Assert(len(trained) == 2 && trained[0] == want && trained[1] == want, "the number of words trained is not reported")
	}
}
