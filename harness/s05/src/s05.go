package s05

import (
	"github.com/ynqa/wego/pkg/embedding"
	"github.com/ynqa/wego/pkg/embedding/embutil"
	"github.com/ynqa/wego/pkg/search"
	"github.com/ynqa/wego/zzverif/vp"
)

func word(i int) string { return string(rune('a' + i)) }

func collection(n, dim int) (items []embedding.Embedding) {
	norm := vp.Choose("norm", 2) // 0: of the first item, it is not known
	for i := 0; i < n; i++ {
		v := make([]float64, dim)
		for j := range v {
			v[j] = vp.Float("v", -4, 4)
		}
		items = append(items, embedding.Embedding{Word: word(i), Dim: dim, Vector: v, Norm: float64(i + norm)})
	}
	return
}

// copied is an independent copy of the items.
func copied(items []embedding.Embedding) (c []embedding.Embedding) {
	for _, it := range items {
		it.Vector = append([]float64(nil), it.Vector...)
		c = append(c, it)
	}
	return
}

func unchanged(a, b []embedding.Embedding) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = vp.And(ok, a[i].Word == b[i].Word, a[i].Dim == b[i].Dim, a[i].Norm == b[i].Norm, len(a[i].Vector) == len(b[i].Vector))
		for j := range a[i].Vector {
			ok = vp.And(ok, a[i].Vector[j] == b[i].Vector[j])
		}
	}
	return ok
}

type answer struct {
	nb  search.Neighbors
	err error
}

// ask is one of the ways to search.
type ask struct {
	how, k, word int
	vec          []float64
	ignore       []string
}

func arbitrary(n, dim int) (a ask) {
	a.how, a.k, a.word = vp.Choose("how", 3), vp.Choose("k", n)+1, vp.Choose("query", n+1)
	if vp.Choose("dim", 3) == 2 {
		dim++
	}
	for j := 0; j < dim; j++ {
		a.vec = append(a.vec, []float64{1, -0.5}[(j+a.word)%2])
	}
	a.ignore = [][]string{nil, {word(0)}, {word(n), word(n - 1)}}[vp.Choose("ignore", 3)]
	return
}

func (a ask) of(s *search.Searcher) (r answer) {
	switch a.how {
	case 0:
		r.nb, r.err = s.SearchInternal(word(a.word), a.k)
	case 1:
		r.nb, r.err = s.SearchVector(a.vec, a.k)
	default:
		r.nb, r.err = s.Search(embedding.Embedding{Word: "q", Dim: len(a.vec), Vector: a.vec, Norm: embutil.Norm(a.vec)}, a.k, a.ignore...)
	}
	return
}

func (r answer) is(o answer) bool {
	if (r.err == nil) != (o.err == nil) || len(r.nb) != len(o.nb) {
		return false
	}
	if r.err != nil && r.err.Error() != o.err.Error() {
		return false
	}
	ok := true
	for i := range r.nb {
		ok = vp.And(ok, r.nb[i].Word == o.nb[i].Word, r.nb[i].Rank == o.nb[i].Rank, r.nb[i].Similarity == o.nb[i].Similarity)
	}
	return ok
}

// Reads: no search changes the items, the query or what another search gives.
func Reads() {
	n, dim := vp.Param("n", 2), vp.Param("dim", 1)
	items := collection(n, dim)
	keep := copied(items)
	s, err := search.New(items...)
	vp.Assert(err == nil, "searcher cannot be created")
	fresh := func() *search.Searcher {
		s, err := search.New(copied(keep)...)
		vp.Assert(err == nil, "searcher cannot be created")
		return s
	}
	one, two := arbitrary(n, dim), arbitrary(n, dim)
	// both slices have room left, which is not the search's either
	room, more := append(append([]float64(nil), one.vec...), 7), append(append([]string(nil), one.ignore...), "more")
	v, ig := append([]float64(nil), room...), append([]string(nil), more...)
	one.vec, one.ignore = room[:len(room)-1], more[:len(more)-1]
	a := one.of(s)
	vp.Assert(unchanged(items, keep) && unchanged(s.Items, keep), "a search changes the items")
	for i := range v {
		vp.Assert(room[i] == v[i], "a search changes its query")
	}
	for i := range ig {
		vp.Assert(more[i] == ig[i], "a search changes the words to ignore")
	}
	b := two.of(s)
	vp.Assert(b.is(two.of(fresh())), "a search depends on an earlier one")
	for i := range a.nb {
		a.nb[i].Word, a.nb[i].Similarity = "overwritten", -1
	}
	vp.Assert(unchanged(s.Items, keep), "writing to a result changes the items")
	c := one.of(s)
	vp.Assert(c.is(one.of(fresh())), "a search depends on what is done with an earlier result")
	if len(a.nb) > 0 && len(b.nb) > 0 {
		vp.Reach("both")
	}
	if a.err != nil && b.err == nil {
		vp.Reach("after an error")
	}
}

// Together: searches at the same time give what they give one after the other.
func Together() {
	n := vp.Param("n", 2)
	var items []embedding.Embedding
	for i, x := range []float64{0.5, 3, -1, 2, 1}[:n] {
		items = append(items, embedding.Embedding{Word: word(i), Dim: 1, Vector: []float64{x}, Norm: 1})
	}
	items[n-1].Vector[0] = vp.Float("v", -4, 4)
	keep := copied(items)
	s, err := search.New(items...)
	vp.Assert(err == nil, "searcher cannot be created")
	mk := func() ask {
		return ask{how: vp.Choose("how", 3), k: vp.Choose("k", 2)*(n-1) + 1, word: vp.Choose("query", 2) * n, vec: []float64{[]float64{1, -1}[vp.Choose("sign", 2)]}}
	}
	one, two := mk(), mk()
	if one.how != 0 {
		one.word = 0
	}
	wa, wb := one.of(s), two.of(s)
	got := make(chan answer)
	go func() { got <- two.of(s) }()
	a := one.of(s)
	b := <-got
	vp.Assert(a.is(wa) && b.is(wb), "a search at the same time gives something else")
	vp.Assert(unchanged(s.Items, keep), "searches change the items")
	if len(a.nb) > 1 && len(b.nb) > 1 {
		vp.Reach("both")
	}
}
