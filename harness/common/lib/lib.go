// Package lib holds what several harnesses share: reader stand-ins and the
// reference tokenizer.
package lib

import (
	"errors"
	"io"

	"github.com/ynqa/wego/pkg/util/verbose"
	"github.com/ynqa/wego/zzverif/vp"
)

// ErrBroken is what a failing Reader reports.
var ErrBroken = errors.New("reader is broken")

// Reader reads Data in pieces, from any initial position, and can fail.
type Reader struct {
	Data   string
	Pos    int
	Chunks []int // sizes of the first reads (0: as much as asked for)
	Eof    bool  // report io.EOF together with the last bytes
	// FailRead and FailSeek number the calls (from 0) that fail; -1: none.
	FailRead, FailSeek int
	reads, seeks       int
	Failed             bool
}

func NewReader(data string) *Reader {
	return &Reader{Data: data, FailRead: -1, FailSeek: -1}
}

func (r *Reader) Read(p []byte) (int, error) {
	n := r.reads
	r.reads++
	if n == r.FailRead {
		r.Failed = true
		return 0, ErrBroken
	}
	if r.Pos >= len(r.Data) {
		return 0, io.EOF
	}
	if len(p) == 0 {
		return 0, nil
	}
	k := len(r.Data) - r.Pos
	if n < len(r.Chunks) && r.Chunks[n] > 0 && r.Chunks[n] < k {
		k = r.Chunks[n]
	}
	if k > len(p) {
		k = len(p)
	}
	copy(p[:k], r.Data[r.Pos:r.Pos+k])
	r.Pos += k
	if r.Eof && r.Pos == len(r.Data) {
		return k, io.EOF
	}
	return k, nil
}

func (r *Reader) Seek(off int64, whence int) (int64, error) {
	n := r.seeks
	r.seeks++
	if n == r.FailSeek {
		r.Failed = true
		return int64(vp.Int("seek", 0, 1<<20)), ErrBroken // the position means nothing
	}
	switch whence {
	case io.SeekStart:
		r.Pos = int(off)
	case io.SeekCurrent:
		r.Pos += int(off)
	case io.SeekEnd:
		r.Pos = len(r.Data) + int(off)
	}
	if r.Pos < 0 {
		r.Pos = 0
		return 0, errors.New("negative position")
	}
	return int64(r.Pos), nil
}

// Words splits s at spaces and newlines.
func Words(s string) []string {
	var ws []string
	start := -1
	for i := 0; i < len(s); i++ {
		if s[i] == ' ' || s[i] == '\n' || s[i] == '\t' || s[i] == '\r' {
			if start >= 0 {
				ws = append(ws, s[start:i])
				start = -1
			}
		} else if start < 0 {
			start = i
		}
	}
	if start >= 0 {
		ws = append(ws, s[start:])
	}
	return ws
}

// Lower maps A-Z to a-z.
func Lower(s string) string {
	b := []byte(s)
	for i, c := range b {
		b[i] = byte(vp.IteInt(vp.And(c >= 'A', c <= 'Z'), int(c)+32, int(c)))
	}
	return string(b)
}

// LowerAll is Lower for each word if low is set.
func LowerAll(ws []string, low bool) []string {
	if !low {
		return ws
	}
	res := make([]string, len(ws))
	for i, w := range ws {
		res[i] = Lower(w)
	}
	return res
}

// Index numbers the words by first occurrence.
func Index(ws []string) (ids []int, dic []string, freq []int) {
	for _, w := range ws {
		id := -1
		for j, d := range dic {
			if d == w {
				id = j
				break
			}
		}
		if id < 0 {
			id = len(dic)
			dic = append(dic, w)
			freq = append(freq, 0)
		}
		freq[id]++
		ids = append(ids, id)
	}
	return
}

// Text is a text of n words of one arbitrary byte each, out of the alphabet.
func Text(n int, alphabet string) (string, []string) {
	ws := make([]string, n)
	text := ""
	for i := range ws {
		ws[i] = vp.String("word", 1, alphabet)
		if i > 0 {
			text += " "
		}
		text += ws[i]
	}
	return text, ws
}

// Quiet is a verbose switch that is off.
func Quiet() *verbose.Verbose { return verbose.New(false) }

// Many gives n different words of at least two bytes.
func Many(n int) []string {
	ws := make([]string, n)
	for i := range ws {
		b := []byte{'w'}
		for k := i; ; k /= 10 {
			b = append(b, byte('0'+k%10))
			if k < 10 {
				break
			}
		}
		ws[i] = string(b)
	}
	return ws
}
