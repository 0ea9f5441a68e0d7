package s03

import (
	"math"

	"github.com/ynqa/wego/pkg/embedding"
	"github.com/ynqa/wego/pkg/embedding/embutil"
	"github.com/ynqa/wego/pkg/search"
	"github.com/ynqa/wego/pkg/search/searchutil"
	"github.com/ynqa/wego/zzverif/lib"
	"github.com/ynqa/wego/zzverif/vp"
)

func vec(n int, name string) []float64 {
	v := make([]float64, n)
	for i := range v {
		v[i] = vp.Float(name, -100, 100)
	}
	return v
}

// Norm is the root of the sum of squares.
func Norm() {
	v := vec(vp.Choose("dim", vp.Param("dim", 3)+1), "v")
	n := embutil.Norm(v)
	vp.Assert(n >= 0, "the norm is negative")
	vp.Assert(vp.Near(n*n, lib.Dot(v, v)), "the norm is not the root of the sum of squares")
}

// Cosine, by the norms given.
func Cosine() { cosine(vp.Choose("dim", vp.Param("dim", 3)) + 1) }

// Wide: vectors of many elements.
func Wide() {
	d := []int{63, 64, 65, 100, 127, 129, 255, 256, 257, 301, 1000}[vp.Choose("dim", 11)]
	v := vec(d, "v")
	n := embutil.Norm(v)
	vp.Assert(vp.And(n >= 0, vp.Near(n*n, lib.Dot(v, v))), "the norm is not the root of the sum of squares")
	cosine(d)
}

func cosine(d int) {
	a, b := vec(d, "a"), vec(d, "b")
	na, nb := vp.Float("na", 0, 200), vp.Float("nb", 0, 200)
	got := searchutil.Cosine(a, b, na, nb)
	if na == 0 || nb == 0 {
		vp.Reach("zero")
		vp.Assert(got == 0, "similarity with a zero norm is not 0")
		return
	}
	vp.Reach("cosine")
	vp.Assert(vp.Near(got*na*nb, lib.Dot(a, b)), "similarity is not the inner product divided by both norms")
	vp.Assert(vp.Near(got, searchutil.Cosine(b, a, nb, na)), "similarity is not symmetric")
}

// Range: with their norms, any two vectors have a similarity in [-1, 1].
func Range() {
	d := vp.Param("dim", 2)
	a, b := vec(d, "a"), vec(d, "b")
	na, nb := embutil.Norm(a), embutil.Norm(b)
	got := searchutil.Cosine(a, b, na, nb)
	// |got| <= 1 exactly if got^2 (a.a)(b.b) <= (a.a)(b.b)
	lim := 1 + 1e-9
	vp.Assert(vp.And(got <= lim, got >= -lim), "similarity is out of [-1, 1]")
}

// Search: the similarity that a search reports.
func Search() {
	d := vp.Choose("dim", vp.Param("dim", 2)) + 1
	item, q := vec(d, "item"), vec(d, "query")
	emb := embedding.Embedding{Word: "w", Dim: d, Vector: item, Norm: embutil.Norm(item)}
	s, err := search.New(emb)
	vp.Assert(err == nil, "no searcher for one item")
	ns, err := s.SearchVector(q, 1)
	vp.Assert(err == nil, "search fails")
	if len(ns) == 0 {
		vp.Assert(lib.Dot(item, q) <= 0, "a similar item is not found")
		return
	}
	vp.Reach("found")
	vp.Assert(len(ns) == 1 && ns[0].Word == "w", "another item is found")
	got := ns[0].Similarity
	vp.Assert(vp.Near(got*math.Sqrt(lib.Dot(item, item))*math.Sqrt(lib.Dot(q, q)), lib.Dot(item, q)), "reported similarity is not the cosine")
}

// Items: each of several items has its own similarity.
func Items() {
	n, d := vp.Param("n", 3), vp.Param("dim", 2)
	var es embedding.Embeddings
	q := vec(d, "query")
	for i := 0; i < n; i++ {
		v := vec(d, "item")
		es = append(es, embedding.Embedding{Word: string([]byte{byte('a' + i)}), Dim: d, Vector: v, Norm: vp.Float("norm", 1, 200)})
	}
	norm := vp.Float("norm", 1, 200)
	s, err := search.New(es...)
	vp.Assert(err == nil, "no searcher")
	ns, err := s.Search(embedding.Embedding{Word: "q", Dim: d, Vector: q, Norm: norm}, n)
	vp.Assert(err == nil, "search fails")
	for _, b := range ns {
		e := es[b.Word[0]-'a']
		vp.Assert(vp.Near(b.Similarity*e.Norm*norm, lib.Dot(e.Vector, q)), "reported similarity is not the cosine")
		vp.Reach("found")
	}
}
