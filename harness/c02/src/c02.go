package c02

import (
	"io"
	"strings"

	"github.com/ynqa/wego/pkg/corpus"
	"github.com/ynqa/wego/pkg/corpus/fs"
	"github.com/ynqa/wego/pkg/corpus/memory"
	"github.com/ynqa/wego/pkg/util/verbose"
	"github.com/ynqa/wego/zzverif/lib"
	"github.com/ynqa/wego/zzverif/vp"
)

func open(mem bool, r io.ReadSeeker, low bool) corpus.Corpus {
	if mem {
		return memory.New(r, low, -1, 0)
	}
	return fs.New(r, low, -1, 0)
}

func check(c corpus.Corpus, want []string) {
	_, dic, freq := lib.Index(want)
	d := c.Dictionary()
	vp.Assert(c.Len() == len(want), "corpus length is not the number of words")
	vp.Assert(d.Len() == len(dic), "dictionary does not have one entry per distinct word")
	for i, w := range dic {
		got, ok := d.Word(i)
		vp.Assert(ok && got == w, "words are not in order of first occurrence")
		id, ok := d.ID(w)
		vp.Assert(ok && id == i, "word has another id")
		vp.Assert(d.IDFreq(i) == freq[i] && d.WordFreq(w) == freq[i], "number of occurrences is wrong")
	}
	if len(dic) >= 2 {
		vp.Reach("two")
	}
	if len(want) > len(dic) {
		vp.Reach("repeat")
	}
}

func load(c corpus.Corpus, with *corpus.WithCooccurrence) {
	loud := vp.Choose("verbose", 2) == 1
	var err error
	if loud {
		vp.CaptureStdout(func() { err = c.Load(with, verbose.New(true), 2) })
	} else {
		err = c.Load(with, lib.Quiet(), 2)
	}
	vp.Assert(err == nil, "loading fails")
}

// Texts: every short text.
func Texts() {
	n := vp.Choose("len", vp.Param("n", 5)+1)
	text := vp.String("text", n, " \nabA")
	low, mem := vp.Choose("low", 2) == 1, vp.Choose("mem", 2) == 1
	c := open(mem, lib.NewReader(text), low)
	load(c, nil)
	want := lib.LowerAll(lib.Words(text), low)
	check(c, want)
	if low {
		vp.Reach("lower")
	}
}

// Chunks: the split into reads and the initial position do not matter.
func Chunks() {
	n := vp.Param("n", 4)
	text := vp.String("text", n, " ab")
	mem := vp.Choose("mem", 2) == 1
	r := lib.NewReader(text)
	r.Chunks = []int{vp.Choose("chunk", 3), vp.Choose("chunk", 3), vp.Choose("chunk", 2)}
	r.Eof = vp.Choose("eof", 2) == 1
	r.Pos = vp.Choose("pos", n+1)
	c := open(mem, r, false)
	vp.Assert(c.Load(nil, lib.Quiet(), 100) == nil, "loading fails")
	check(c, lib.Words(text))
}

// Unicode: other white space, letters beyond ASCII and invalid UTF-8.
func Unicode() {
	pieces := []string{"a", "\u00e9", "\u00c9", "\u2003", "\u00a0", "\u0130", "\xff", "\x85"}
	text := ""
	for i := 0; i < vp.Param("n", 3); i++ {
		text += pieces[vp.Choose("piece", len(pieces))]
	}
	low, mem := vp.Choose("low", 2) == 1, vp.Choose("mem", 2) == 1
	c := open(mem, lib.NewReader(text), low)
	vp.Assert(c.Load(nil, lib.Quiet(), 100) == nil, "loading fails")
	want := strings.Fields(text)
	if low {
		for i, w := range want {
			want[i] = strings.ToLower(w)
		}
	}
	check(c, want)
}

// Case: words whose lower-case form is unlike that of most languages' letters.
func Case() {
	pieces := []string{"I", "\u0130", "\u212a", "\u1e9e", "\u03a3", "SS", "\u01c5", "\u00df", "\u2160", "\ufb01", "\U00010400", "i", "k", "\ufffd", "\xc3", "E\u0301"}
	text := pieces[vp.Choose("piece", len(pieces))] + vp.String("sep", 1, " a") + pieces[vp.Choose("piece", len(pieces))]
	mem := vp.Choose("mem", 2) == 1
	with := &corpus.WithCooccurrence{CountType: "inc", Window: 1}
	c := open(mem, lib.NewReader(text), true)
	vp.Assert(c.Load(with, lib.Quiet(), 100) == nil, "loading fails")
	want := strings.Fields(text)
	for i, w := range want {
		want[i] = strings.ToLower(w)
	}
	check(c, want)
	// the words read once more are those of the dictionary
	ids, _, _ := lib.Index(want)
	var doc []int
	if mem {
		doc = c.IndexedDoc()
	} else {
		ch, res := make(chan []int, 4), make(chan error, 1)
		go func() { res <- c.BatchWords(ch, 2) }()
		for b := range ch {
			doc = append(doc, b...)
		}
		vp.Assert(<-res == nil, "batching fails")
	}
	vp.Assert(len(doc) == len(ids), "the document has another length")
	for i := range ids {
		vp.Assert(doc[i] == ids[i], "the document's ids are not those of its words")
	}
	vp.Assert(len(c.Cooccurrence().EncodedMatrix()) == len(ids)-1, "the number of co-occurring pairs is wrong")
}

// Long: words of up to 64 KB - 1, and texts longer than a reader's buffer.
func Long() {
	size := vp.Param("size", 6000)
	long := strings.Repeat("x", size-1) + vp.String("end", 1, "xy")
	text := "a " + long + " b " + strings.Repeat("c", size) + " a"
	mem := vp.Choose("mem", 2) == 1
	r := lib.NewReader(text)
	c := open(mem, r, false)
	vp.Assert(c.Load(nil, lib.Quiet(), 100) == nil, "loading fails")
	check(c, lib.Words(text))
}

// Late: arbitrary words after a great many others.
func Late() {
	n := vp.Param("n", 70000)
	many := lib.Many(n)
	w, v := vp.String("w", 1, "abA"), vp.String("w", 1, "abA")
	var b strings.Builder
	for i, m := range many {
		b.WriteString(m)
		b.WriteByte(" \n"[i%50/49])
	}
	low := vp.Choose("low", 2) == 1
	c := open(vp.Choose("mem", 2) == 1, lib.NewReader(b.String()+w+" "+many[n-1]+" "+v), low)
	vp.Assert(c.Load(nil, lib.Quiet(), 1000) == nil, "loading fails")
	last, dic, freq := lib.Index(lib.LowerAll([]string{w, v}, low))
	d := c.Dictionary()
	vp.Assert(c.Len() == n+3, "corpus length is not the number of words")
	vp.Assert(d.Len() == n+len(dic), "dictionary does not have one entry per distinct word")
	for i, x := range dic {
		got, ok := d.Word(n + i)
		vp.Assert(ok && got == x && d.IDFreq(n+i) == freq[i], "words are not in order of first occurrence")
	}
	for i := 0; i < n; i += 1 + i/50 {
		got, ok := d.Word(i)
		vp.Assert(ok && got == many[i] && d.IDFreq(i) == 1, "words are not in order of first occurrence")
	}
	vp.Assert(d.IDFreq(n-1) == 2, "number of occurrences is wrong")
	if fs, ok := c.(*fs.Corpus); ok {
		_ = fs
		return
	}
	doc := c.IndexedDoc()
	vp.Assert(len(doc) == n+3 && doc[n-1] == n-1 && doc[n] == n+last[0] && doc[n+1] == n-1 && doc[n+2] == n+last[1], "the document's ids are not those of its words")
}

// Odd: words a program may take for something else.
func Odd() {
	ws := []string{"\ufeff", "\x00", "</s>", "<unk>", "-", "#", "//", "1", "-0", "'", "\"a\"", "a.", ",", "\u200b", "a\u00ad", "\u2028b", strings.Repeat("ab", 700), "nil"}
	w := []string{ws[vp.Choose("word", len(ws))], ws[vp.Choose("word", len(ws))], vp.String("last", 1, "ab-")}
	sep := vp.String("sep", 1, " \n\t\v\f\r")
	text := strings.Join(w, sep)
	want := strings.Fields(text)
	mem := vp.Choose("mem", 2) == 1
	c := open(mem, lib.NewReader(text), vp.Choose("low", 2) == 1)
	with := &corpus.WithCooccurrence{CountType: "inc", Window: 1}
	vp.Assert(c.Load(with, lib.Quiet(), 100) == nil, "loading fails")
	check(c, want)
	vp.Assert(len(c.Cooccurrence().EncodedMatrix()) > 0, "no co-occurring pairs")
}
