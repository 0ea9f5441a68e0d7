package c01

import (
	"github.com/ynqa/wego/pkg/corpus/dictionary"
	"github.com/ynqa/wego/zzverif/lib"
	"github.com/ynqa/wego/zzverif/vp"
)

// words returns n arbitrary words of 0..maxlen arbitrary bytes.
func words(n, maxlen int) []string {
	ws := make([]string, n)
	for i := range ws {
		ws[i] = vp.String("w", vp.Choose("len", maxlen+1), "")
	}
	return ws
}

func check(d *dictionary.Dictionary, ws []string, probe string) {
	var order []string
	var freq []int
	find := func(w string) int {
		for i, o := range order {
			if o == w {
				return i
			}
		}
		return -1
	}
	for _, w := range ws {
		if k := find(w); k >= 0 {
			freq[k]++
		} else {
			order = append(order, w)
			freq = append(freq, 1)
		}
	}
	vp.Assert(d.Len() == len(order), "number of entries is not the number of distinct words")
	for i, w := range order {
		id, ok := d.ID(w)
		vp.Assert(ok, "added word is not found")
		vp.Assert(id == i, "ids are not in order of first occurrence")
		got, ok := d.Word(i)
		vp.Assert(ok, "id has no word")
		vp.Assert(got == w, "id maps to another word")
		vp.Assert(d.WordFreq(w) == freq[i], "frequency by word is not the number of additions")
		vp.Assert(d.IDFreq(i) == freq[i], "frequency by id is not the number of additions")
	}
	// any id outside 0..n-1
	out := vp.AnyInt("outside")
	vp.Assume(vp.Or(out < 0, out >= len(order)))
	_, ok := d.Word(out)
	vp.Assert(!ok, "id outside the dictionary has a word")
	vp.Assert(d.IDFreq(out) == 0, "id outside the dictionary has a frequency")
	// any word, added or not
	k := find(probe)
	id, ok := d.ID(probe)
	if k < 0 {
		vp.Assert(!ok, "unknown word is found")
		vp.Assert(d.WordFreq(probe) == 0, "unknown word has a frequency")
		vp.Reach("unknown")
	} else {
		vp.Assert(vp.And(ok, id == k), "known word is not found under its id")
	}
	if len(order) < len(ws) {
		vp.Reach("repeated")
	}
}

// Add: n arbitrary words are added, grouped into calls in an arbitrary way.
func Add() {
	n := vp.Param("n", 4)
	ws := words(n, vp.Param("len", 1))
	probe := vp.String("probe", vp.Choose("plen", vp.Param("len", 1)+1), "")
	d := dictionary.New()
	split := vp.Int("split", 0, n)
	d.Add(ws[:split]...)
	for _, w := range ws[split:] {
		d.Add(w)
	}
	check(d, ws, probe)
}

// Interleaved: the dictionary is exact after every single addition, and
// looking things up in between does not change it.
func Interleaved() {
	n := vp.Param("n", 3)
	ws := words(n, 1)
	d := dictionary.New()
	probe := vp.String("probe", 1, "")
	for i, w := range ws {
		d.WordFreq(probe)
		d.ID(probe)
		d.Word(i)
		d.Add(w)
		_, ok := d.ID(w)
		vp.Assert(ok, "word is not found right after being added")
	}
	check(d, ws, probe)
}

// Large: arbitrary words after a great many others.
func Large() {
	n := vp.Param("n", 70000)
	many := lib.Many(n)
	d := dictionary.New()
	d.Add(many...)
	w, v := vp.String("w", 1, ""), vp.String("w", 1, "")
	d.Add(w)
	d.Add(v, many[n-1], many[300])
	same := vp.Fix(vp.IteInt(w == v, 1, 0))
	vp.Assert(d.Len() == n+2-same, "number of entries is not the number of distinct words")
	id, ok := d.ID(w)
	vp.Assert(ok && id == n, "ids are not in order of first occurrence")
	id, ok = d.ID(v)
	vp.Assert(ok && id == n+1-same, "ids are not in order of first occurrence")
	vp.Assert(d.WordFreq(w) == 1+same && d.IDFreq(n) == 1+same, "frequency is not the number of additions")
	got, ok := d.Word(n + 1 - same)
	vp.Assert(ok && got == v, "id maps to another word")
	for i := 0; i < n; i++ {
		f := 1
		if i == n-1 || i == 300 {
			f = 2
		}
		got, ok := d.Word(i)
		vp.Assert(ok && got == many[i], "id maps to another word")
		if i > 1000 && i%1001 != 0 && f == 1 {
			continue
		}
		id, ok := d.ID(many[i])
		vp.Assert(ok && id == i, "ids are not in order of first occurrence")
		vp.Assert(d.WordFreq(many[i]) == f && d.IDFreq(i) == f, "frequency is not the number of additions")
	}
	_, ok = d.Word(n + 2 - same)
	vp.Assert(!ok, "id outside the dictionary has a word")
}

// Often: one word a great many times.
func Often() {
	n := vp.Param("n", 70000)
	w, v := vp.String("w", 1, ""), vp.String("w", 1, "")
	d := dictionary.New()
	ws := make([]string, n)
	for i := range ws {
		ws[i] = w
	}
	d.Add(v)
	d.Add(ws...)
	if w == v {
		vp.Assert(d.Len() == 1 && d.WordFreq(w) == n+1 && d.IDFreq(0) == n+1, "frequency is not the number of additions")
	} else {
		vp.Assert(d.Len() == 2 && d.WordFreq(w) == n && d.IDFreq(1) == n && d.WordFreq(v) == 1, "frequency is not the number of additions")
	}
}
