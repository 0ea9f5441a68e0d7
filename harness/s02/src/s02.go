package s02

import (
	"github.com/ynqa/wego/pkg/embedding"
	"github.com/ynqa/wego/pkg/embedding/embutil"
	"github.com/ynqa/wego/pkg/search"
	"github.com/ynqa/wego/zzverif/lib"
	"github.com/ynqa/wego/zzverif/vp"
)

// some vectors with their norms
var vecs = [][]float64{{1, 0}, {0.6, 0.8}, {-3, 4}, {0, 2}, {-0.8, -0.6}, {0, 0}}
var norms = []float64{1, 1, 5, 2, 1, 0}

func emb(word string, k int) embedding.Embedding {
	return embedding.Embedding{Word: word, Dim: 2, Vector: vecs[k], Norm: norms[k]}
}

func check(s *search.Searcher, q string, k int, words []string) {
	var nb search.Neighbors
	var err error
	p := vp.Panics(func() { nb, err = s.SearchInternal(q, k) })
	vp.Assert(!p, "the search panics")
	first := -1
	for i := range words {
		if words[i] == q {
			first = i
			break
		}
	}
	if first < 0 {
		vp.Reach("absent")
		vp.Assert(err != nil, "a word that is not stored is answered without an error")
		vp.Assert(len(nb) == 0, "a word that is not stored has neighbours")
		return
	}
	vp.Assert(err == nil, "a stored word is not answered")
	it := s.Items[first]
	want, err := s.Search(embedding.Embedding{Vector: it.Vector, Norm: it.Norm}, k, q)
	vp.Assert(err == nil, "a stored vector is not answered")
	vp.Assert(len(nb) == len(want), "the number of neighbours differs from the search with the word's vector")
	cands := 0
	for i := range words {
		if words[i] != q && it.Norm > 0 && s.Items[i].Norm > 0 && lib.Dot(s.Items[i].Vector, it.Vector) > 0 {
			cands++
		}
	}
	if cands > k {
		cands = k
	}
	vp.Assert(len(nb) == cands, "the number of neighbours is not that of the similar items with other words")
	for i := range nb {
		vp.Assert(nb[i].Word != q, "the word itself is one of its neighbours")
		vp.Assert(nb[i].Word == want[i].Word && nb[i].Rank == want[i].Rank && vp.Near(nb[i].Similarity, want[i].Similarity), "the neighbours differ from the search with the word's vector")
	}
	if len(nb) > 0 {
		vp.Reach("neighbours")
	}
}

// Words: any words, also repeated ones, with some vectors.
func Words() {
	n := vp.Choose("n", vp.Param("n", 3)+1)
	words := make([]string, n)
	var es []embedding.Embedding
	for i := range words {
		words[i] = vp.String("word", vp.Choose("len", vp.Param("len", 1))+1, "")
		es = append(es, emb(words[i], vp.Choose("vector", vp.Param("vectors", 4))))
	}
	s, err := search.New(es...)
	vp.Assert(err == nil, "a searcher cannot be created")
	q := vp.String("query", vp.Choose("qlen", vp.Param("len", 1)+1), "")
	check(s, q, vp.Choose("k", n+1), words)
}

// Vectors: any vectors.
func Vectors() {
	n, dim := vp.Param("n", 3), vp.Param("dim", 1)
	words := make([]string, n)
	var es []embedding.Embedding
	for i := range words {
		words[i] = string([]byte{byte('a' + vp.Choose("word", i+1))})
		e := embedding.Embedding{Word: words[i], Dim: dim}
		for j := 0; j < dim; j++ {
			e.Vector = append(e.Vector, vp.Float("x", -2, 2))
		}
		e.Norm = embutil.Norm(e.Vector)
		es = append(es, e)
	}
	s, err := search.New(es...)
	vp.Assert(err == nil, "a searcher cannot be created")
	check(s, string([]byte{byte('a' + vp.Choose("query", n+1))}), vp.Choose("k", n+1), words)
}

// Many: a large collection with one arbitrary word.
func Many() {
	n := vp.Param("n", 270)
	words := make([]string, n)
	var es []embedding.Embedding
	at := []int{0, 128, 256, n - 1}[vp.Choose("at", 4)]
	for i := range words {
		words[i] = string([]byte{'w', byte('a' + i%26), byte('a' + i/26)})
		if i == at {
			words[i] = vp.String("word", 3, "")
		}
		es = append(es, emb(words[i], i%5))
	}
	s, err := search.New(es...)
	vp.Assert(err == nil, "a searcher cannot be created")
	q := words[[]int{at, n - 2}[vp.Choose("query", 2)]]
	check(s, q, []int{3, n - 1, n + 1}[vp.Choose("k", 3)], words)
}

var spellings = []string{"a", "A", "á", "Á", "a\u0301", "k", "K", "\u212a", " a", "a ", "ab", "aB", "\x00", "\xff", "1", "a\x00"}

// Spelling: words that resemble each other.
func Spelling() {
	n := vp.Param("n", 2)
	words := make([]string, n)
	var es []embedding.Embedding
	for i := range words {
		words[i] = spellings[vp.Choose("word", len(spellings))]
		es = append(es, emb(words[i], i))
	}
	s, err := search.New(es...)
	vp.Assert(err == nil, "a searcher cannot be created")
	check(s, spellings[vp.Choose("query", len(spellings))], n, words)
}
