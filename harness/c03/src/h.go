package c03

import (
	"strings"

	"github.com/ynqa/wego/pkg/corpus"
	"github.com/ynqa/wego/pkg/corpus/cpsutil"
	"github.com/ynqa/wego/pkg/corpus/dictionary"
	"github.com/ynqa/wego/pkg/corpus/filter"
	"github.com/ynqa/wego/pkg/corpus/fs"
	"github.com/ynqa/wego/pkg/corpus/memory"
	"github.com/ynqa/wego/pkg/model/glove"
	"github.com/ynqa/wego/zzverif/lib"
	"github.com/ynqa/wego/zzverif/vp"
	"github.com/ynqa/wego/zzverif/vrand"
)

const letters = "abcdefghijklmnopqrstuvwxyz"

// kept is the id sequence of the words that pass the filters.
func kept(ws []string, max, min int) []int {
	ids, _, freq := lib.Index(ws)
	var res []int
	for _, id := range ids {
		if freq[id] < min || max > 0 && freq[id] > max {
			vp.Reach("dropped")
			continue
		}
		vp.Reach("kept")
		res = append(res, id)
	}
	return res
}

func sameIDs(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func Memory() {
	n := vp.Choose("len", vp.Param("n", 5)+1)
	text, ws := lib.Text(n, letters)
	max, min := vp.AnyInt("max"), vp.AnyInt("min")
	c := memory.New(lib.NewReader(text), false, max, min)
	vp.Assert(c.Load(nil, lib.Quiet(), 100) == nil, "loading fails")
	want := kept(ws, max, min)
	vp.Assert(sameIDs(c.IndexedDoc(), want), "sequence is not the document without the filtered words")
	vp.Assert(sameIDs(c.IndexedDoc(), want), "sequence differs when it is asked for again")
}

// batches receives all batches (and keeps them) from a channel of the given capacity.
func batches(c corpus.Corpus, room, size int) [][]int {
	ch := make(chan []int, room)
	res := make(chan error, 1)
	go func() { res <- c.BatchWords(ch, size) }()
	var bs [][]int
	for b := range ch {
		bs = append(bs, b)
	}
	vp.Assert(<-res == nil, "batching fails")
	return bs
}

func Batches() {
	n := vp.Choose("len", vp.Param("n", 4)+1)
	text, ws := lib.Text(n, letters)
	max, min := vp.AnyInt("max"), vp.AnyInt("min")
	size := vp.Fix(vp.Int("batch", 1, n+2))
	room := vp.Choose("room", vp.Param("room", 3))
	c := fs.New(lib.NewReader(text), false, max, min)
	vp.Assert(c.Load(nil, lib.Quiet(), 100) == nil, "loading fails")
	want := kept(ws, max, min)
	for round := 0; round < 2; round++ {
		bs := batches(c, room, size)
		var got []int
		for i, b := range bs {
			vp.Assert(len(b) <= size, "a batch exceeds the batch size")
			if len(b) == size {
				vp.Reach("full")
			}
			got = append(got, b...)
			for j := range b {
				b[j] = -1 - i
			}
		}
		vp.Assert(sameIDs(got, want), "batches do not concatenate to the document without the filtered words")
		for i, b := range bs {
			for j := range b {
				vp.Assert(b[j] == -1-i, "two batches share storage")
			}
		}
	}
}

// Glove: a word's row changes exactly when the word is in a trained pair.
func Glove() {
	n := vp.Param("n", 4)
	text, ws := lib.Text(n, letters)
	max, min := vp.Int("max", -1, n+1), vp.Int("min", -1, n+1)
	ids, dic, freq := lib.Index(ws)
	k := 0
	// initial values in (0,1), all different: no update is a no-op
	vrand.Draw = func() float64 {
		k++
		return float64(k) / 64
	}
	opts := []glove.ModelOption{glove.Dim(1), glove.Window(1), glove.Iter(1), glove.Goroutines(1), glove.Initlr(0.125),
		glove.Solver(glove.Stochastic), glove.MaxCount(max), glove.MinCount(min)}
	if vp.Choose("mem", 2) == 1 {
		opts = append(opts, glove.DocInMemory())
	}
	mod, err := glove.New(opts...)
	vp.Assert(err == nil, "model cannot be created")
	vp.Assert(mod.Train(lib.NewReader(text)) == nil, "training fails")
	out := func(id int) bool { return freq[id] < min || max > 0 && freq[id] > max }
	trained := make([]bool, len(dic))
	for i := 0; i+1 < len(ids); i++ {
		if out(ids[i]) || out(ids[i+1]) {
			vp.Reach("dropped")
			continue
		}
		trained[ids[i]], trained[ids[i+1]] = true, true
	}
	m := mod.WordVector("single")
	for i := range dic {
		init := float64(2*i+1) / 64
		vp.Assert((m.Slice(i)[0] == init) == !trained[i], "the vectors that change are not those of words in pairs that pass the filters")
	}
}

// Late: batches of a long document, any minimum and maximum count.
func Late() {
	n, size := vp.Param("n", 2000), vp.Param("size", 999)
	ws := lib.Many(n)
	for i := n / 2; i < n; i += 3 {
		ws[i] = ws[i-1]
	}
	text := ""
	var b strings.Builder
	for _, w := range ws {
		b.WriteString(w)
		b.WriteByte(' ')
	}
	text = b.String()
	max, min := vp.AnyInt("max"), vp.AnyInt("min")
	twice := map[string]bool{}
	for i := 1; i < n; i++ {
		if ws[i] == ws[i-1] {
			twice[ws[i]] = true
		}
	}
	ids := map[string]int{}
	var want []int
	one, two := !(1 < min || max > 0 && 1 > max), !(2 < min || max > 0 && 2 > max)
	for _, w := range ws {
		if _, ok := ids[w]; !ok {
			ids[w] = len(ids)
		}
		if twice[w] && two || !twice[w] && one {
			want = append(want, ids[w])
		}
	}
	if len(want) > 0 {
		vp.Reach("kept")
	}
	if vp.Choose("mem", 2) == 1 {
		c := memory.New(lib.NewReader(text), false, max, min)
		vp.Assert(c.Load(nil, lib.Quiet(), 100) == nil, "loading fails")
		vp.Assert(sameIDs(c.IndexedDoc(), want), "sequence is not the document without the filtered words")
		return
	}
	c := fs.New(lib.NewReader(text), false, max, min)
	vp.Assert(c.Load(nil, lib.Quiet(), 100) == nil, "loading fails")
	bs := batches(c, 4, size)
	var got []int
	for _, b := range bs {
		vp.Assert(len(b) <= size, "a batch exceeds the batch size")
		got = append(got, b...)
	}
	vp.Assert(sameIDs(got, want), "batches do not concatenate to the document without the filtered words")
}

// Filter: the filter functions of both packages on a word that occurs any
// number of times up to n.
func Filter() {
	n := vp.Param("n", 5)
	times := vp.Choose("times", n+1)
	other := vp.Choose("other", n+1)
	dic := dictionary.New()
	for i := 0; i < times || i < other; i++ {
		if i < times {
			dic.Add("w")
		}
		if i < other {
			dic.Add("v")
		}
	}
	max, min := vp.AnyInt("max"), vp.AnyInt("min")
	for id := 0; id < dic.Len(); id++ {
		f := times
		if w, _ := dic.Word(id); w == "v" {
			f = other
		}
		tooMany, tooFew := max > 0 && f > max, f < min
		vp.Assert(cpsutil.MaxCount(max)(id, dic) == tooMany && filter.MaxCount(max)(id, dic) == tooMany, "MaxCount is not an upper limit")
		vp.Assert(cpsutil.MinCount(min)(id, dic) == tooFew && filter.MinCount(min)(id, dic) == tooFew, "MinCount is not a lower limit")
		for _, fs := range []cpsutil.Filters{{cpsutil.MaxCount(max), cpsutil.MinCount(min)}, {cpsutil.MinCount(min), cpsutil.MaxCount(max)}} {
			vp.Assert(fs.Any(id, dic) == (tooMany || tooFew), "Any is not true if and only if one of the filters is")
		}
		vp.Assert(cpsutil.Filters{cpsutil.MinCount(min)}.Any(id, dic) == tooFew, "Any is not its only filter")
		vp.Assert(!cpsutil.Filters{}.Any(id, dic), "Any of no filters is true")
	}
	if max > 0 && min > max {
		vp.Reach("crossed")
	}
}

// Odd: words a program may take for something else are counted and kept like
// any other.
func Odd() {
	ws := []string{"\ufeff", "\x00", "</s>", "<unk>", "-", "#", "1", "'", ",", "\u200b", "\xff", "\ufffd", "The", "\u00c9", "\u0130", strings.Repeat("ab", 700), strings.Repeat("c", 6000)}
	k := vp.Choose("word", len(ws))
	doc := []string{ws[k], vp.String("other", 1, "aA"), ws[(k+1)%len(ws)], vp.String("other", 1, "aA"), ws[k]}
	low := vp.Choose("low", 2) == 1
	text := strings.Join(doc, " ")
	max, min := vp.AnyInt("max"), vp.AnyInt("min")
	if low {
		for i := range doc {
			doc[i] = strings.ToLower(doc[i])
		}
	}
	want := kept(doc, max, min)
	if vp.Choose("mem", 2) == 1 {
		c := memory.New(lib.NewReader(text), low, max, min)
		vp.Assert(c.Load(nil, lib.Quiet(), 100) == nil, "loading fails")
		vp.Assert(sameIDs(c.IndexedDoc(), want), "sequence is not the document without the filtered words")
		return
	}
	c := fs.New(lib.NewReader(text), low, max, min)
	vp.Assert(c.Load(nil, lib.Quiet(), 100) == nil, "loading fails")
	var got []int
	for _, b := range batches(c, 1, 3) {
		got = append(got, b...)
	}
	vp.Assert(sameIDs(got, want), "batches do not concatenate to the document without the filtered words")
}
