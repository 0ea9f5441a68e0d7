package e02

import (
	"bytes"
	"errors"
	"strings"

	"github.com/ynqa/wego/pkg/corpus/dictionary"
	"github.com/ynqa/wego/pkg/model/modelutil/matrix"
	"github.com/ynqa/wego/pkg/model/modelutil/vector"
	"github.com/ynqa/wego/pkg/util/verbose"
	"github.com/ynqa/wego/zzverif/lib"
	"github.com/ynqa/wego/zzverif/vp"
)

// writer accepts a number of bytes and then fails in one of several ways.
type writer struct {
	got    []byte
	space  int  // -1: no limit
	silent bool // reports fewer bytes without an error
	all    bool // accepts nothing of the write that does not fit
	once   bool // accepts everything after the failure
	full   bool // accepts everything, but returns an error
	failed bool
}

var errFull = errors.New("full")

func (w *writer) Write(p []byte) (int, error) {
	if w.space < 0 || w.once && w.failed || len(w.got)+len(p) <= w.space {
		w.got = append(w.got, p...)
		return len(p), nil
	}
	w.failed = true
	if w.full {
		w.got = append(w.got, p...)
		return len(p), errFull
	}
	n := w.space - len(w.got)
	if w.all {
		n = 0
	}
	w.space = len(w.got) + n
	w.got = append(w.got, p[:n]...)
	if w.silent {
		return n, nil
	}
	return n, errFull
}

func saves(save func(w *writer) error, total int) {
	good := &writer{space: -1}
	vp.Assert(save(good) == nil, "saving to a writer that accepts everything fails")
	size := len(good.got)
	vp.Assert(total < 0 || size == total, "size of the output differs")
	// any number of bytes accepted
	k := vp.Int("space", 0, size)
	bad := &writer{space: vp.Fix(k)}
	switch vp.Choose("failure", 7) {
	case 1:
		bad.silent = true
	case 2:
		bad.all = true
	case 3:
		bad.once = true
	case 4:
		bad.once, bad.all = true, true
	case 5:
		bad.full = true
	case 6:
		bad.full, bad.once = true, true
	}
	err := save(bad)
	if bad.failed {
		vp.Reach("failed")
		vp.Assert(err != nil, "a failed write is not reported")
	} else {
		vp.Assert(len(bad.got) == size, "not everything was written, but no write failed")
		vp.Assert(err == nil, "saving fails although every byte was accepted")
		vp.Assert(bytes.Equal(bad.got, good.got), "two savings of the same vectors differ")
		vp.Reach("saved")
	}
}

func make2(n, dim int) (*dictionary.Dictionary, *matrix.Matrix) {
	dic := dictionary.New()
	for i := 0; i < n; i++ {
		dic.Add(strings.Repeat(string([]byte{byte('a' + i)}), i+1))
	}
	return dic, matrix.New(n, dim, func(row int, vec []float64) {
		for j := range vec {
			vec[j] = float64(row*7+j%10)/8 - 1
		}
	})
}

func one(dic *dictionary.Dictionary, mat *matrix.Matrix) func(w *writer) error {
	loud := vp.Choose("verbose", 2) == 1
	return func(w *writer) (err error) {
		if loud {
			vp.CaptureStdout(func() { err = vector.Save(w, dic, mat, verbose.New(true), 1) })
			return
		}
		return vector.Save(w, dic, mat, verbose.New(false), 1)
	}
}

// Small: output of up to 2 lines, failure after any byte.
func Small() {
	dic, mat := make2(vp.Choose("n", vp.Param("n", 2)+1), vp.Choose("dim", 2)+1)
	saves(one(dic, mat), -1)
}

// Large: output larger than any usual buffer; the writer fails after one of
// some numbers of bytes.
func Large() {
	dic, mat := make2(3, vp.Param("dim", 1000))
	save := one(dic, mat)
	good := &writer{space: -1}
	vp.Assert(save(good) == nil, "saving to a writer that accepts everything fails")
	size := len(good.got)
	at := []int{0, 1, 4095, 4096, 4097, 8192, 20000, size - 4096, size - 1, size}[vp.Choose("at", 10)]
	bad := &writer{space: at}
	switch vp.Choose("failure", 7) {
	case 1:
		bad.silent = true
	case 2:
		bad.all = true
	case 3:
		bad.once = true
	case 4:
		bad.once, bad.all = true, true
	case 5:
		bad.full = true
	case 6:
		bad.full, bad.once = true, true
	}
	err := save(bad)
	vp.Assert(bad.failed || at >= size, "writes are lost")
	vp.Assert(!bad.failed || at < size, "more is written than there is")
	vp.Assert((err != nil) == bad.failed, "saving does not report exactly the failed writes")
	if bad.failed {
		vp.Reach("failed")
	}
}

// Rows: the matrix has another number of rows than the dictionary has words.
func Rows() {
	dic, _ := make2(vp.Choose("words", 4), 1)
	_, mat := make2(vp.Choose("rows", 4), 1)
	w := &writer{space: -1}
	p := false
	var err error
	p = vp.Panics(func() { err = vector.Save(w, dic, mat, verbose.New(false), 1) })
	vp.Assert(!p, "saving panics")
	if dic.Len() != mat.Row() {
		vp.Reach("differ")
		vp.Assert(err != nil, "another number of rows is not reported")
	} else {
		vp.Assert(err == nil, "saving fails")
	}
}

// Models: every model reports the failure.
func Models() {
	c := lib.Default(lib.Kinds[vp.Choose("kind", len(lib.Kinds))])
	typ := []string{vector.Single, vector.Agg}[vp.Choose("type", 2)]
	lib.Fixed()
	m := c.New()
	vp.Assert(m.Train(strings.NewReader("a b")) == nil, "training fails")
	saves(func(w *writer) error { return m.Save(w, typ) }, -1)
}
