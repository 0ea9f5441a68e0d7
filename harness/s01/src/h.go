package s01

import (
	"github.com/ynqa/wego/pkg/embedding"
	"github.com/ynqa/wego/pkg/search"
	"github.com/ynqa/wego/zzverif/lib"
	"github.com/ynqa/wego/zzverif/vp"
)

func word(i int) string { return string([]byte{byte('a' + i)}) }

// reference ranks by similarity: result i must have the i-th highest positive
// score of the items that are not ignored.
func check(nb search.Neighbors, err error, k int, score []float64, ignored []bool) {
	vp.Assert(err == nil, "search failed")
	cands := 0
	for i := range score {
		if !ignored[i] && score[i] > 0 {
			cands++
		}
	}
	want := k
	if cands < k {
		want = cands
	}
	if want < 0 {
		want = 0
	}
	vp.Assert(len(nb) == want, "number of results is not min(k, number of items with a positive similarity)")
	used := make([]bool, len(score))
	for r, n := range nb {
		vp.Assert(n.Rank == uint(r+1), "ranks are not 1, 2, 3, ...")
		i := int(n.Word[0] - 'a')
		vp.Assert(len(n.Word) == 1 && i >= 0 && i < len(score) && !used[i] && !ignored[i], "result is not a fresh item that is not ignored")
		used[i] = true
		vp.Assert(n.Similarity == score[i], "similarity is not the item's")
		vp.Assert(score[i] > 0, "similarity is not positive")
		if r > 0 {
			vp.Assert(nb[r-1].Similarity >= n.Similarity, "results are not in order of similarity")
		}
	}
	// nobody left out beats somebody in
	for i := range score {
		if used[i] || ignored[i] {
			continue
		}
		for _, n := range nb {
			vp.Assert(!(score[i] > n.Similarity), "an item that was left out is more similar than a result")
		}
	}
	if len(nb) > 0 {
		vp.Reach("results")
	}
	if cands < k {
		vp.Reach("fewer")
	}
}

// Order: n one-dimensional items whose similarity to the query is an arbitrary
// double (the score is v*1/1/1), an arbitrary k and an arbitrary set of
// ignored words.
func Order() {
	n := vp.Param("n", 3)
	score := make([]float64, n)
	ignored := make([]bool, n)
	var items []embedding.Embedding
	var ignore []string
	for i := range score {
		score[i] = vp.AnyFloat("v")
		ignored[i] = vp.Bool("ignore")
		if ignored[i] {
			ignored[i] = true
			ignore = append(ignore, word(i))
		} else {
			ignored[i] = false
		}
		items = append(items, embedding.Embedding{Word: word(i), Dim: 1, Vector: []float64{score[i]}, Norm: 1})
	}
	k := vp.Int("k", -1, n+1)
	s, err := search.New(items...)
	vp.Assert(err == nil, "searcher cannot be created")
	nb, err := s.Search(embedding.Embedding{Word: "q", Dim: 1, Vector: []float64{1}, Norm: 1}, vp.Fix(k), ignore...)
	check(nb, err, k, score, ignored)
	vp.Assert(len(s.Items) == n, "search changed the items")
	for i, it := range s.Items {
		vp.Assert(it.Word == word(i) && vp.SameFloat(it.Vector[0], score[i]), "search changed the items")
	}
}

// BigK: any k at all, also absurdly large or small ones.
func BigK() {
	k := vp.AnyInt("k")
	vp.Assume(vp.Or(k > 1000, k < -1000))
	vp.Assume(vp.Or(k == 9223372036854775807, k == 1<<40, k == -1<<62, k == -9223372036854775807))
	var items []embedding.Embedding
	for i, v := range []float64{0.5, 0.75} {
		items = append(items, embedding.Embedding{Word: word(i), Dim: 1, Vector: []float64{v}, Norm: 1})
	}
	s, _ := search.New(items...)
	nb, err := s.Search(embedding.Embedding{Word: "q", Dim: 1, Vector: []float64{1}, Norm: 1}, vp.Fix(k))
	vp.Assert(err == nil, "search failed")
	if k > 0 {
		vp.Assert(len(nb) == 2, "all items expected")
		vp.Reach("big")
	} else {
		vp.Assert(len(nb) == 0, "no items expected")
	}
}

// Dim: a query of another dimension is answered with an error.
func Dim() {
	d, q := vp.Choose("d", 3)+1, vp.Choose("q", 4)
	vec := func(n int) []float64 {
		v := make([]float64, n)
		for i := range v {
			v[i] = vp.Float("x", -4, 4)
		}
		return v
	}
	var items []embedding.Embedding
	for i := 0; i < 2; i++ {
		items = append(items, embedding.Embedding{Word: word(i), Dim: d, Vector: vec(d), Norm: 1})
	}
	s, err := search.New(items...)
	vp.Assert(err == nil, "searcher cannot be created")
	k := vp.Fix(vp.Int("k", -1, 3))
	e := embedding.Embedding{Word: "q", Dim: q, Vector: vec(q), Norm: 1}
	nb, err := s.Search(e, k)
	var nv search.Neighbors
	var errv error
	p := vp.Panics(func() { nv, errv = s.SearchVector(e.Vector, k) })
	vp.Assert(!p, "vector search panics")
	if d != q {
		vp.Assert(err != nil && len(nb) == 0, "a query of another dimension is answered")
		vp.Assert(errv != nil && len(nv) == 0, "a vector query of another dimension is answered")
		vp.Reach("mismatch")
	} else {
		vp.Assert(err == nil && errv == nil, "a query of the right dimension fails")
	}
}

// Empty: a searcher without items answers with nothing.
func Empty() {
	s, err := search.New()
	vp.Assert(err == nil, "empty searcher cannot be created")
	k := vp.Fix(vp.Int("k", -2, 3))
	nb, err := s.Search(embedding.Embedding{Word: "q", Dim: 1, Vector: []float64{1}, Norm: 1}, k)
	vp.Assert(err == nil && len(nb) == 0, "results from an empty searcher")
}

// Ranks: the first k of many items.
func Ranks() {
	n := vp.Param("n", 300)
	var items []embedding.Embedding
	for i := 0; i < n; i++ {
		items = append(items, embedding.Embedding{Word: lib.Many(i + 1)[i], Dim: 1, Vector: []float64{float64((i*7)%n + 1)}, Norm: 1})
	}
	// between two neighbours, without ties
	at := []int{0, 1, n / 2, n - 2, n - 1, n}[vp.Choose("at", 6)]
	x := vp.Float("similarity", float64(at)+0.01, float64(at)+0.99)
	items = append(items, embedding.Embedding{Word: "x", Dim: 1, Vector: []float64{x}, Norm: 1})
	s, err := search.New(items...)
	vp.Assert(err == nil, "searcher cannot be created")
	k := n - vp.Choose("less", 3)
	nb, err := s.Search(embedding.Embedding{Word: "q", Dim: 1, Vector: []float64{1}, Norm: 1}, k)
	vp.Assert(err == nil && len(nb) == k, "number of results is not min(k, number of items with a positive similarity)")
	seen := false
	for i, b := range nb {
		vp.Assert(b.Rank == uint(i+1), "ranks are not 1, 2, 3, ...")
		want := float64(n - i)
		if seen {
			want++
		}
		if b.Word == "x" {
			vp.Assert(b.Similarity == x, "similarity is not the item's")
			seen = true
		} else {
			vp.Assert(b.Similarity == want, "results are not in order of similarity")
		}
	}
}

// Twice: a result stays as it is when there are further searches.
func Twice() {
	n := vp.Param("n", 3)
	var items []embedding.Embedding
	for i := 0; i < n; i++ {
		items = append(items, embedding.Embedding{Word: word(i), Dim: 1, Vector: []float64{vp.Float("v", -4, 4)}, Norm: 1})
	}
	s, err := search.New(items...)
	vp.Assert(err == nil, "searcher cannot be created")
	ask := func(x float64, k int) search.Neighbors {
		nb, err := s.Search(embedding.Embedding{Word: "q", Dim: 1, Vector: []float64{x}, Norm: 1}, k)
		vp.Assert(err == nil, "search failed")
		score := make([]float64, n)
		for i := range score {
			score[i] = items[i].Vector[0] * x
		}
		check(nb, err, k, score, make([]bool, n))
		return nb
	}
	a := ask(1, n)
	was := append(search.Neighbors{}, a...)
	b := ask(-1, vp.Choose("k", n)+1)
	c := ask(1, vp.Choose("k", n)+1)
	for i := range was {
		vp.Assert(a[i].Word == was[i].Word && a[i].Rank == was[i].Rank && a[i].Similarity == was[i].Similarity, "a later search changes a result")
	}
	for i := range c {
		vp.Assert(c[i].Word == was[i].Word && c[i].Similarity == was[i].Similarity, "the same search has another result")
	}
	if len(a) > 0 && len(b) > 0 {
		vp.Reach("both")
	}
}

// Same: items that share a word; each is an item of its own.
func Same() {
	n := vp.Param("n", 3)
	var items []embedding.Embedding
	var score []float64
	var names []string
	for i := 0; i < n; i++ {
		w := word(vp.Choose("word", 2))
		v := vp.Float("v", -4, 4)
		items = append(items, embedding.Embedding{Word: w, Dim: 1, Vector: []float64{v}, Norm: 1})
		names, score = append(names, w), append(score, v)
	}
	ignore := []string{"z", "a", "b"}[vp.Choose("ignore", 3)]
	k := vp.Choose("k", n+1)
	s, err := search.New(items...)
	vp.Assert(err == nil, "searcher cannot be created")
	nb, err := s.Search(embedding.Embedding{Word: "q", Dim: 1, Vector: []float64{1}, Norm: 1}, k, ignore)
	vp.Assert(err == nil, "search failed")
	want := 0
	for i := range score {
		if names[i] != ignore && score[i] > 0 && want < k {
			want++
		}
	}
	vp.Assert(len(nb) == want, "number of results is not min(k, number of items with a positive similarity)")
	used := make([]bool, n)
	for r, x := range nb {
		vp.Assert(x.Rank == uint(r+1), "ranks are not 1, 2, 3, ...")
		vp.Assert(r == 0 || nb[r-1].Similarity >= x.Similarity, "results are not in order of similarity")
		found := false
		for i := range score {
			if !found && !used[i] && names[i] != ignore && names[i] == x.Word && score[i] == x.Similarity {
				found, used[i] = true, true
			}
		}
		vp.Assert(found, "result is not a fresh item that is not ignored")
	}
	for i := range score {
		if !used[i] && names[i] != ignore {
			for _, x := range nb {
				vp.Assert(!(score[i] > x.Similarity), "an item that was left out is more similar than a result")
			}
		}
	}
	if len(nb) > 1 && nb[0].Word == nb[1].Word {
		vp.Reach("twice")
	}
}
