package e03

import (
	"errors"
	"io"
	"math"
	"strconv"
	"strings"

	"github.com/ynqa/wego/pkg/embedding"
	"github.com/ynqa/wego/zzverif/vp"
)

// stream reads its data in pieces and can fail.
type stream struct {
	data  string
	piece int // bytes per read, 0: as many as asked for
	fail  int // fails after that many bytes, -1: never
	eof   bool
	pos   int
}

var errBroken = errors.New("broken")

func (s *stream) Read(p []byte) (int, error) {
	if s.fail >= 0 && s.pos >= s.fail {
		return 0, errBroken
	}
	n := len(s.data) - s.pos
	if n == 0 {
		return 0, io.EOF
	}
	if s.fail >= 0 && n > s.fail-s.pos {
		n = s.fail - s.pos
	}
	if s.piece > 0 && n > s.piece {
		n = s.piece
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p, s.data[s.pos:s.pos+n])
	s.pos += n
	if s.eof && s.pos == len(s.data) {
		return n, io.EOF
	}
	return n, nil
}

func space(c byte) bool { return c == ' ' || c == '\t' || c == '\r' || c == '\v' || c == '\f' }

func fields(line string) []string {
	var fs []string
	start := -1
	for i := 0; i < len(line); i++ {
		if space(line[i]) {
			if start >= 0 {
				fs = append(fs, line[start:i])
			}
			start = -1
		} else if start < 0 {
			start = i
		}
	}
	if start >= 0 {
		fs = append(fs, line[start:])
	}
	return fs
}

type entry struct {
	word string
	vec  []float64
}

// want is what loading the text is to give.
func want(text string) (es []entry, ok bool) {
	for len(text) > 0 {
		line := text
		if i := strings.IndexByte(text, '\n'); i >= 0 {
			line, text = text[:i], text[i+1:]
		} else {
			text = ""
		}
		if len(line) > 0 && line[0] == ' ' {
			vp.Reach("skipped")
			continue
		}
		fs := fields(line)
		if len(fs) < 2 {
			return nil, false
		}
		e := entry{word: fs[0]}
		for _, f := range fs[1:] {
			x, err := strconv.ParseFloat(f, 64)
			if err != nil {
				return nil, false
			}
			e.vec = append(e.vec, x)
		}
		es = append(es, e)
	}
	return es, true
}

func check(text string, r io.Reader) {
	embs, err := embedding.Load(r)
	es, ok := want(text)
	if !ok {
		vp.Reach("malformed")
		vp.Assert(err != nil, "a malformed text is loaded without an error")
		vp.Assert(len(embs) == 0, "a malformed text gives a result")
		return
	}
	vp.Assert(err == nil, "a well-formed text is not loaded")
	vp.Assert(len(embs) == len(es), "the number of embeddings is not the number of lines")
	for i, e := range es {
		vp.Assert(embs[i].Word == e.word, "a word is not the first field of its line")
		vp.Assert(embs[i].Dim == len(e.vec) && len(embs[i].Vector) == len(e.vec), "the dimension is not the number of values")
		sum := 0.
		for j, x := range e.vec {
			vp.Assert(vp.SameFloat(embs[i].Vector[j], x), "a value is not the field's number")
			sum += x * x
		}
		vp.Assert(vp.Near(embs[i].Norm, math.Sqrt(sum)), "the norm is not the Euclidean norm of the vector")
	}
	if len(es) > 1 {
		vp.Reach("lines")
	}
}

// Bytes: any text over a small alphabet, read in pieces.
func Bytes() {
	n := vp.Param("n", 4)
	k := vp.Choose("len", n+1)
	text := vp.String("byte", k, "a1 \n")
	check(text, &stream{data: text, piece: vp.Choose("piece", 3), fail: -1, eof: vp.Choose("eof", 2) == 1})
}

// Fields: lines of up to 3 fields each out of words and numbers, with several
// separators and line ends.
func Fields() {
	words := []string{"w", "日本", "1", "\x85\xff"}
	nums := []string{"1", "-2.5e3", "1e400", "x", "nan", "1_0", "0x1p-2", "+Inf", "1e-400"}
	seps := []string{" ", "\t", "  "}
	text := ""
	lines := vp.Param("lines", 2)
	for i := 0; i < lines; i++ {
		if vp.Choose("indent", 2) == 1 {
			text += " "
		}
		text += words[vp.Choose("word", len(words))]
		sep := seps[vp.Choose("sep", len(seps))]
		for j := vp.Choose("values", 3); j > 0; j-- {
			text += sep + nums[vp.Choose("number", vp.Param("numbers", 4))]
		}
		text += []string{"\n", " \n", "\r\n", ""}[vp.Choose("end", 4)]
	}
	check(text, &stream{data: text, fail: -1})
}

// Numbers: every spelling of a number of up to n characters.
func Numbers() {
	n := vp.Choose("len", vp.Param("n", 3)) + 1
	s := vp.String("char", n, "1.-eN")
	text := "w " + s + " 2\n"
	check(text, &stream{data: text, fail: -1})
}

// Norm: vectors of any values up to dim elements.
func Norm() {
	dim := vp.Choose("dim", vp.Param("dim", 3)) + 1
	text := "w"
	sum := 0.
	var vec []float64
	for j := 0; j < dim; j++ {
		x := vp.Float("x", -100, 100)
		vec = append(vec, x)
		sum += x * x
		text += " " + strconv.FormatFloat(x, 'g', -1, 64)
	}
	embs, err := embedding.Load(strings.NewReader(text + "\n"))
	vp.Assert(err == nil && len(embs) == 1 && len(embs[0].Vector) == dim && embs[0].Dim == dim, "one line is not loaded as one embedding")
	var cs []bool
	for j, x := range vec {
		cs = append(cs, vp.Near(embs[0].Vector[j], x))
	}
	vp.Assert(vp.And(cs...), "values differ")
	norm := embs[0].Norm
	vp.Assert(vp.And(norm >= 0, vp.Near(norm*norm, sum)), "the norm is not the Euclidean norm of the vector")
}

// Broken: the reader fails after any number of bytes.
func Broken() {
	text := "a 1 2\nb 3 4\n"
	s := &stream{data: text, piece: vp.Choose("piece", 4), fail: vp.Choose("fail", len(text)+1)}
	embs, err := embedding.Load(s)
	vp.Assert(err != nil, "the failure of the reader is not reported")
	vp.Assert(len(embs) == 0, "there is a result in spite of the reader's failure")
}

// Long: lines longer than any buffer.
func Long() {
	n := []int{4095, 4096, 65535, 65536, 70000, 300000}[vp.Choose("size", 6)]
	dim := n / 2
	text := "w" + strings.Repeat(" 1", dim) + "\nv" + strings.Repeat(" 2", 3) + "\n"
	embs, err := embedding.Load(&stream{data: text, fail: -1})
	vp.Assert(err == nil, "a long line is not loaded")
	vp.Assert(len(embs) == 2 && embs[0].Dim == dim && embs[1].Dim == 3 && embs[1].Word == "v", "lines are lost")
	word := strings.Repeat("x", n)
	embs, err = embedding.Load(&stream{data: word + " 1\n", fail: -1})
	vp.Assert(err == nil && len(embs) == 1 && embs[0].Word == word, "a long word is not loaded")
}

// Lines: a text of many lines in which one, anywhere, is arbitrary.
func Lines() {
	n := vp.Param("n", 300)
	at := []int{0, 1, n / 2, 255, 256, n - 1}[vp.Choose("at", 6)]
	odd := vp.String("byte", vp.Param("len", 3), "w1 ")
	var b strings.Builder
	for i := 0; i < n; i++ {
		if i == at {
			b.WriteString(odd)
		} else {
			b.WriteString("word" + strconv.Itoa(i) + " 0.25 -" + strconv.Itoa(i%10) + ".5")
		}
		if i < n-1 || vp.Choose("end", 2) == 0 {
			b.WriteByte('\n')
		}
	}
	text := b.String()
	check(text, &stream{data: text, fail: -1, piece: []int{0, 100}[vp.Choose("piece", 2)]})
}

// Spelling: words and numbers that only look odd.
func Spelling() {
	words := []string{"\ufeffw", "#", "//", "</s>", "\"q\"", "w,", ",", "-", "1", "1e5", "日", "e\u0301", "W", "\x00", "\\t", "\u200b", "\ufffd", "\xff", "NaN", "%", "w=1", ":"}
	nums := []string{"1,5", "1_0", "0x1", "0x1p4", "1e5", "1E5", "+1", ".5", "5.", "Inf", "-infinity", "NaN", "-0", "1f", "１", "1d", "", "1e", "--1", "0b1", "1/2", "1i", "\ufeff1", "1\u200b", "00012", "1e+05", "1e-320", "123456789012345678901234567890"}
	word := words[vp.Choose("word", len(words))]
	text := ""
	first := vp.Choose("line", vp.Param("lines", 2))
	for i := 0; i < first; i++ {
		text += "v 1 2\n"
	}
	text += word + " " + nums[vp.Choose("number", len(nums))]
	if vp.Choose("more", 2) == 1 {
		text += " 2"
	}
	check(text+"\n", &stream{data: text + "\n", fail: -1})
}

// Byte: an arbitrary byte anywhere in a well-formed text.
func Byte() {
	text := "w 1.5\nv 20\n"
	at := vp.Choose("at", len(text)+1)
	text = text[:at] + vp.String("byte", 1, "") + text[at:]
	check(text, &stream{data: text, fail: -1})
}
