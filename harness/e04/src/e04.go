package e04

import (
	"github.com/ynqa/wego/pkg/embedding"
	"github.com/ynqa/wego/pkg/search"
	"github.com/ynqa/wego/zzverif/vp"
)

// Validate: any word, dimension and vector length.
func Validate() {
	e := embedding.Embedding{Word: vp.String("word", vp.Choose("len", 3), ""), Dim: vp.AnyInt("dim"), Norm: vp.AnyFloat("norm")}
	n := vp.Choose("vector", vp.Param("n", 4))
	for i := 0; i < n; i++ {
		e.Vector = append(e.Vector, vp.AnyFloat("x"))
	}
	if n == 0 && vp.Choose("nil", 2) == 1 {
		e.Vector = []float64{}
	}
	valid := e.Validate() == nil
	vp.Assert(valid == vp.And(len(e.Word) > 0, e.Dim != 0, e.Dim == n), "validity is not: a word, a dimension, and a vector of that dimension")
	if valid {
		vp.Reach("valid")
	} else {
		vp.Reach("invalid")
	}
}

func items(n int, dim func() int) embedding.Embeddings {
	var es embedding.Embeddings
	for i := 0; i < n; i++ {
		d := dim()
		es = append(es, embedding.Embedding{Word: vp.String("word", vp.Choose("len", vp.Param("len", 2)), ""), Dim: d, Vector: []float64{float64(i)}, Norm: float64(i)})
	}
	return es
}

// Create: a searcher exists exactly for items of one dimension, and holds them.
func Create() {
	n := vp.Choose("n", vp.Param("n", 4)+1)
	es := items(n, func() int { return vp.AnyInt("dim") })
	same := true
	for i := 1; i < n; i++ {
		same = vp.And(same, es[i].Dim == es[0].Dim)
	}
	vp.Assert(es.Empty() == (n == 0), "a collection is empty exactly when it has no item")
	vp.Assert((es.Validate() == nil) == same, "a collection is valid exactly when all dimensions are equal")
	s, err := search.New(es...)
	vp.Assert((err == nil) == same, "a searcher can be created exactly when all dimensions are equal")
	if err == nil {
		vp.Reach("created")
		vp.Assert(s != nil && len(s.Items) == n, "the searcher does not have all items")
		for i := range es {
			vp.Assert(vp.Same(s.Items[i], es[i]), "the searcher has other items")
		}
	} else {
		vp.Reach("rejected")
		vp.Assert(s == nil, "there is a searcher in spite of the error")
	}
}

var spellings = []string{"a", "A", "á", "Á", "a\u0301", "k", "K", "\u212a", "", " a", "a ", "ab", "aB"}

// Spelling: words that resemble each other.
func Spelling() {
	n := vp.Choose("n", vp.Param("n", 2)+1)
	var es embedding.Embeddings
	for i := 0; i < n; i++ {
		es = append(es, embedding.Embedding{Word: spellings[vp.Choose("word", len(spellings))], Dim: 1, Vector: []float64{float64(i)}})
	}
	search1(es, spellings[vp.Choose("query", len(spellings))])
}

// Find: the first item with the word.
func Find() {
	n := vp.Choose("n", vp.Param("n", 3)+1)
	es := items(n, func() int { return 1 })
	search1(es, vp.String("query", vp.Choose("qlen", vp.Param("len", 2)), ""))
}

func search1(es embedding.Embeddings, w string) {
	got, ok := es.Find(w)
	for i := range es {
		if es[i].Word == w {
			vp.Reach("found")
			vp.Assert(ok, "a word that is there is not found")
			vp.Assert(vp.Same(got, es[i]), "not the first embedding of the word is found")
			return
		}
	}
	vp.Reach("absent")
	vp.Assert(!ok, "a word that is not there is found")
	vp.Assert(got.Word == "" && got.Dim == 0 && len(got.Vector) == 0, "an absent word has an embedding")
}

// Many: one item of a large collection has an arbitrary word or dimension.
func Many() {
	n := vp.Param("n", 300)
	es := make(embedding.Embeddings, n)
	for i := range es {
		es[i] = embedding.Embedding{Word: string([]byte{'w', byte('a' + i%26), byte('a' + i/26)}), Dim: 2, Vector: []float64{float64(i), 1}}
	}
	at := vp.Fix(vp.Int("at", 0, n-1))
	if vp.Choose("what", 2) == 0 {
		es[at].Word = vp.String("word", 3, "")
		search1(es, "waa")
		search1(es, es[at].Word)
		return
	}
	es[at].Dim = vp.AnyInt("dim")
	vp.Assert((es.Validate() == nil) == (es[at].Dim == 2), "a collection is valid exactly when all dimensions are equal")
	s, err := search.New(es...)
	vp.Assert((err == nil) == (es[at].Dim == 2), "a searcher can be created exactly when all dimensions are equal")
	vp.Assert(err != nil || len(s.Items) == n, "the searcher does not have all items")
}

// Several: each collection is searched by itself, and as it is now.
func Several() {
	mk := func(k int) embedding.Embeddings {
		var es embedding.Embeddings
		for i := 0; i < 2; i++ {
			es = append(es, embedding.Embedding{Word: vp.String("word", 1, "ab"), Dim: 1, Vector: []float64{float64(10*k + i)}})
		}
		return es
	}
	a, b := mk(1), mk(2)
	w := vp.String("query", 1, "ab")
	search1(a, w)
	search1(b, w)
	search1(a[1:], w)
	search1(append(append(embedding.Embeddings{}, b...), a...), w)
	a[0].Word, a[1].Word = a[1].Word, vp.String("new", 1, "ab")
	a[0].Vector = []float64{3}
	search1(a, w)
	search1(nil, w)
}
