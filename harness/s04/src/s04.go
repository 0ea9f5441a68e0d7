package s04

import (
	"strings"

	"github.com/ynqa/wego/pkg/embedding"
	"github.com/ynqa/wego/pkg/embedding/embutil"
	"github.com/ynqa/wego/pkg/search"
	"github.com/ynqa/wego/pkg/search/console"
	"github.com/ynqa/wego/zzverif/vp"
)

// words are the stored words; "z" is not stored.
var words = []string{"a", "b", "c"}

func find(es embedding.Embeddings, w string) *embedding.Embedding {
	for i := range es {
		if es[i].Word == w {
			return &es[i]
		}
	}
	return nil
}

// tokens are a line's identifiers, operators of one character, and other runs.
func tokens(line string) []string {
	var ts []string
	for len(line) > 0 {
		c := line[0]
		if c == ' ' || c == '\t' {
			line = line[1:]
			continue
		}
		n := 0
		for n < len(line) && ident(line[n]) {
			n++
		}
		if n == 0 {
			for n < len(line) && !ident(line[n]) && line[n] != ' ' && line[n] != '\t' {
				n++
			}
		}
		ts = append(ts, line[:n])
		line = line[n:]
	}
	return ts
}

func ident(c byte) bool {
	return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c >= 0x80
}

// answer is what a line is to show: neighbours, or a message (nil, true).
// The line "exit" and empty lines show nothing at all.
func answer(s *search.Searcher, line string, k int) (nb search.Neighbors, msg bool) {
	toks := tokens(line)
	if len(toks) == 1 && find(s.Items, toks[0]) != nil {
		nb, _ = s.SearchInternal(toks[0], k)
		return nb, false
	}
	if len(toks) == 3 && (toks[1] == "+" || toks[1] == "-") {
		x, y := find(s.Items, toks[0]), find(s.Items, toks[2])
		if x == nil || y == nil {
			return nil, true
		}
		v := make([]float64, len(x.Vector))
		for i := range v {
			if toks[1] == "+" {
				v[i] = x.Vector[i] + y.Vector[i]
			} else {
				v[i] = x.Vector[i] - y.Vector[i]
			}
		}
		nb, err := s.Search(embedding.Embedding{Vector: v, Norm: embutil.Norm(v)}, k, toks[0], toks[2])
		vp.Assert(err == nil, "the reference search fails")
		return nb, false
	}
	return nil, true
}

// capture runs the console on the lines; shown are the tables that are shown
// (those with rows), out is what is printed besides.
func capture(s *search.Searcher, k int, lines ...string) (shown []search.Neighbors, out string) {
	vp.SetStdin(lines...) // before the console opens it
	c, err := console.New(s, k)
	vp.Assert(err == nil, "a console cannot be created")
	vp.Hook("Neighbors.Describe", func(n search.Neighbors) {
		if len(n) > 0 {
			shown = append(shown, append(search.Neighbors(nil), n...))
		}
	})
	p := false
	out = vp.CaptureStdout(func() { p = vp.Panics(func() { err = c.Run() }) })
	vp.Assert(!p, "the console panics")
	vp.Assert(err == nil, "the console ends with an error")
	return
}

func same(a, b search.Neighbors) bool {
	if len(a) != len(b) {
		return false
	}
	var cs []bool
	for i := range a {
		cs = append(cs, a[i].Word == b[i].Word, a[i].Rank == b[i].Rank, vp.Near(a[i].Similarity, b[i].Similarity))
	}
	return vp.And(cs...)
}

func check(s *search.Searcher, k int, lines []string) {
	shown, out := capture(s, k, lines...)
	msgs := 0
	n := 0
	for _, l := range lines {
		if l == "exit" {
			break
		}
		if l == "" {
			continue
		}
		nb, msg := answer(s, l, k)
		if msg {
			vp.Reach("message")
			msgs++
			continue
		}
		if len(nb) == 0 {
			continue
		}
		vp.Reach("neighbours")
		vp.Assert(n < len(shown), "neighbours are missing")
		vp.Assert(same(shown[n], nb), "the neighbours shown are not those of the line")
		n++
	}
	vp.Assert(n == len(shown), "neighbours are shown for a line that has none")
	text := strings.ReplaceAll(out, ">> ", "")
	vp.Assert((len(strings.TrimSpace(text)) > 0) == (msgs > 0), "an error message is printed exactly for wrong lines")
}

// plain is a searcher with positive neighbours for sums and differences.
func plain() *search.Searcher {
	var es []embedding.Embedding
	for _, e := range []embedding.Embedding{{Word: "a", Vector: []float64{1, 2}}, {Word: "b", Vector: []float64{2, 1}}, {Word: "c", Vector: []float64{3, 1}}, {Word: "d", Vector: []float64{3, -1}}} {
		e.Dim, e.Norm = 2, embutil.Norm(e.Vector)
		es = append(es, e)
	}
	s, err := search.New(es...)
	vp.Assert(err == nil, "a searcher cannot be created")
	return s
}

func searcher(value func() float64, dim int) *search.Searcher {
	var es []embedding.Embedding
	for _, w := range words {
		e := embedding.Embedding{Word: w, Dim: dim}
		for j := 0; j < dim; j++ {
			e.Vector = append(e.Vector, value())
		}
		e.Norm = embutil.Norm(e.Vector)
		es = append(es, e)
	}
	s, err := search.New(es...)
	vp.Assert(err == nil, "a searcher cannot be created")
	return s
}

var operands = []string{"a", "b", "c", "z"}

// Arithmetic: two operands, any vectors.
func Arithmetic() {
	s := searcher(func() float64 { return vp.Float("x", -2, 2) }, vp.Param("dim", 1))
	l := operands[vp.Choose("x", 4)] + " " + []string{"+", "-"}[vp.Choose("op", 2)] + " " + operands[vp.Choose("y", 4)]
	check(s, vp.Choose("k", 4), []string{l})
}

// Operators: any operator character between two words.
func Operators() {
	s := plain()
	long := vp.Choose("len", 2)
	op := vp.String("op", long+1, "+-*/%&|^<>=!,.;:~@#? ")
	vp.Assume(op != " " && op != "  " && op != "//") // neither nothing nor a comment
	x, y := 0, 1
	if long == 0 {
		x, y = vp.Choose("x", 4), vp.Choose("y", 4)
	}
	l := operands[x] + " " + strings.TrimSpace(op) + " " + operands[y]
	check(s, 2, []string{l})
}

var forms = []string{"a", "b", "z", "", "a + b", "c - a", "b - b", "a + z", "z - b", "a * b", "1", "a + 1", "1 - a", "(a)", "a + b - c", "a +", "+ a", "a b", "\"a\"", "f(a)", "if", "a && b", "exit ", "-a", "é", "a / z", "a+b", "a -c", " b", "b  ", "a\t+ d", "quit", "q", "Exit", "help", "A", "EXIT", "a + exit", "exit + a", "a++b", "a+-b", "a--b", "a . b", "a, b", "x := a", "d", "nil", "_", "a + b + c", "a + (b)", "(a + b)", "(a) - b", "a[0]", "[]a", "a...", "a ^ b", "a &^ b", "a - 1.5", "a == b", "!a", "*a", "&a", "<-a", "func() {}", "a; b", "exit;", "'a'", "`a`", "a\\"}

// Lines: several lines one after the other, each answered on its own.
func Lines() {
	s := plain()
	n := vp.Param("lines", 2)
	var ls []string
	for i := 0; i < n; i++ {
		ls = append(ls, forms[vp.Choose("line", len(forms))])
	}
	if vp.Choose("exit", 2) == 1 {
		ls = append(ls, "exit", "a")
		vp.Reach("exit")
	}
	check(s, 2, ls)
}

// Table: what is printed is the table of the neighbours.
func Table() {
	s := plain()
	l := forms[vp.Choose("line", 7)]
	k := vp.Choose("k", 4)
	vp.SetStdin(l)
	c, err := console.New(s, k)
	vp.Assert(err == nil, "a console cannot be created")
	delete(vp.Hooks, "Neighbors.Describe")
	out := vp.CaptureStdout(func() { err = c.Run() })
	vp.Assert(err == nil, "the console ends with an error")
	nb, msg := answer(s, l, k)
	if l == "" || msg {
		return
	}
	want := vp.CaptureStdout(func() { nb.Describe() })
	vp.Assert(strings.ReplaceAll(out, ">> ", "") == want, "the table of the neighbours is not what is printed")
	for _, n := range nb {
		vp.Assert(strings.Contains(out, n.Word), "a neighbour's word is missing in the table")
	}
}

// Empty: no items, no console.
func Empty() {
	s, err := search.New()
	vp.Assert(err == nil, "an empty searcher cannot be created")
	c, err := console.New(s, 1)
	vp.Assert(err != nil && c == nil, "a console for no items is created")
}

// Names: words that are unusual as names, stored or not.
func Names() {
	names := []string{"\u00e9", "true", "nil", "_", "x1", "iota", "int", "\u65e5\u672c", "A", "a", "exit1", "Exit", "quit", "help", "string", "init", "main", "_1", "K", "\u00fc1"}
	var es []embedding.Embedding
	for i, w := range names {
		if i%5 == 4 && vp.Choose("all", 2) == 0 {
			continue
		}
		e := embedding.Embedding{Word: w, Vector: []float64{1, float64(i)/10 - 1}, Dim: 2}
		e.Norm = embutil.Norm(e.Vector)
		es = append(es, e)
	}
	s, err := search.New(es...)
	vp.Assert(err == nil, "a searcher cannot be created")
	x := names[vp.Choose("x", len(names))]
	l := x
	if o := vp.Choose("op", 3); o > 0 {
		l = x + []string{"", "+", " - "}[o] + names[vp.Choose("y", len(names))]
	}
	check(s, 3, []string{l})
}

// Session: many lines, out of a few kinds.
func Session() {
	s := plain()
	var ls []string
	for i := 0; i < vp.Param("lines", 5); i++ {
		ls = append(ls, []string{"a - b", "z", "c", "a + b", "b - b"}[vp.Choose("line", 5)])
	}
	check(s, vp.Choose("k", 3)+1, ls)
}
