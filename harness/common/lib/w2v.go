package lib

import (
	"github.com/ynqa/wego/pkg/corpus/dictionary"
	"github.com/ynqa/wego/pkg/corpus/dictionary/node"
	"github.com/ynqa/wego/zzverif/vp"
)

// W2V is the reference of word2vec's updates.
type W2V struct {
	Dim, Neg, Win, Depth int
	Cbow                 bool
}

// around applies the optimizer to the position's context.
func (s W2V) around(doc []int, nb []int, word [][]float64, opt func(in []float64) []float64) {
	if !s.Cbow {
		for _, c := range nb {
			e := opt(word[doc[c]])
			for i := range e {
				word[doc[c]][i] += e[i]
			}
		}
		return
	}
	sum := make([]float64, s.Dim)
	for _, c := range nb {
		for i := range sum {
			sum[i] += word[doc[c]][i]
		}
	}
	e := opt(sum)
	for _, c := range nb {
		for i := range e {
			word[doc[c]][i] += e[i]
		}
	}
}

// NsStep is the published update for one position with negative sampling.
func (s W2V) NsStep(doc []int, pos int, lr float64, next *Next, word, ctx [][]float64) {
	nb := Neighbours(pos, len(doc), s.Win, next.Take(s.Win))
	if len(nb) >= 2 {
		vp.Reach("two")
	}
	target := doc[pos]
	s.around(doc, nb, word, func(in []float64) []float64 {
		e := make([]float64, s.Dim)
		update := func(id int, label float64) {
			c := ctx[id]
			g := (label - Sig(Dot(c, in))) * lr
			for i := range in {
				e[i], c[i] = e[i]+g*c[i], c[i]+g*in[i]
			}
		}
		update(target, 1)
		for k := 0; k < s.Neg; k++ {
			if id := next.Take(len(ctx)); id != target {
				update(id, 0)
			}
		}
		return e
	})
}

// Tree has the Huffman paths of the words from the root, and the vectors of
// the inner nodes.
type Tree struct {
	Path [][]*node.Node
	Vec  map[*node.Node][]float64
}

// NewTree takes the Huffman tree of the words.
func NewTree(ws []string, dim int) *Tree {
	d := dictionary.New()
	d.Add(ws...)
	t := &Tree{Vec: map[*node.Node][]float64{}}
	for _, leaf := range d.HuffnamTree(dim) {
		var up []*node.Node
		for p := leaf; p != nil; p = p.Parent {
			up = append(up, p)
		}
		var down []*node.Node
		for i := len(up) - 1; i >= 0; i-- {
			down = append(down, up[i])
			if i > 0 && t.Vec[up[i]] == nil {
				t.Vec[up[i]] = make([]float64, dim)
			}
		}
		t.Path = append(t.Path, down)
	}
	return t
}

// HsStep is the published update for one position with hierarchical softmax.
func (s W2V) HsStep(doc []int, pos int, lr float64, next *Next, word [][]float64, t *Tree) {
	nb := Neighbours(pos, len(doc), s.Win, next.Take(s.Win))
	s.around(doc, nb, word, func(in []float64) []float64 {
		e := make([]float64, s.Dim)
		path := t.Path[doc[pos]]
		if s.Depth > 0 && s.Depth < len(path) {
			path = path[:s.Depth]
		}
		for i := 0; i+1 < len(path); i++ {
			v := t.Vec[path[i]]
			x := Dot(in, v)
			if x <= -6 || x >= 6 {
				vp.Reach("saturated")
				break
			}
			g := (1 - float64(path[i+1].Code) - vp.Logistic(x)) * lr
			for j := range in {
				e[j], v[j] = e[j]+g*v[j], v[j]+g*in[j]
			}
			vp.Reach("moved")
		}
		return e
	})
}
