package lib

import (
	"github.com/ynqa/wego/pkg/model"
	"github.com/ynqa/wego/pkg/model/modelutil/vector"
	"github.com/ynqa/wego/zzverif/vp"
	"github.com/ynqa/wego/zzverif/vrand"
)

// Draws replaces math/rand: the draws that initialise the parameters are
// arbitrary numbers out of [Lo, Hi] (any parameter values at all), the same in
// each run; later draws come from Later.
type Draws struct {
	Lo, Hi float64
	vals   []float64
	k      int
	inits  int // number of initialising draws, -1: still being counted
	Later  func() float64
	Given  func(i int) float64 // initialising draws, if they are not arbitrary
}

func NewDraws(lo, hi float64) *Draws {
	d := &Draws{Lo: lo, Hi: hi, inits: -1}
	vrand.Draw = d.draw
	return d
}

func (d *Draws) draw() float64 {
	i := d.k
	d.k++
	if d.inits >= 0 && i >= d.inits {
		if d.Later != nil {
			return d.Later()
		}
		return 0.25
	}
	if d.Given != nil {
		return d.Given(i)
	}
	for len(d.vals) <= i {
		d.vals = append(d.vals, vp.Float("init", d.Lo, d.Hi))
	}
	return d.vals[i]
}

// Initial trains nothing (0 iterations) to learn the initial word and context
// vectors, and how many draws they take. A model without context vectors has
// zero ones.
func (d *Draws) Initial(mk func(iter int) model.Model, text string, n, dim int) (word, ctx [][]float64) {
	d.k, d.inits = 0, -1
	m := mk(0)
	vp.Assert(m.Train(NewReader(text)) == nil, "training for 0 iterations fails")
	d.inits = d.k
	word, ctx = Vectors(m, n, dim)
	d.k = 0
	return
}

// Vectors reads the word and the context vectors of a model.
func Vectors(m model.Model, n, dim int) (word, ctx [][]float64) {
	s, a := m.WordVector(vector.Single), m.WordVector(vector.Agg)
	vp.Assert(s.Row() == n && a.Row() == n && s.Col() == dim && a.Col() == dim, "exported matrix has another size")
	for i := 0; i < n; i++ {
		w, c := make([]float64, dim), make([]float64, dim)
		for j := 0; j < dim; j++ {
			w[j] = s.Slice(i)[j]
			c[j] = a.Slice(i)[j] - w[j]
		}
		word, ctx = append(word, w), append(ctx, c)
	}
	return
}

// Close reports whether all elements are (nearly) equal.
func Close(a, b [][]float64) bool {
	var cs []bool
	for i := range a {
		for j := range a[i] {
			cs = append(cs, vp.Near(a[i][j], b[i][j]))
		}
	}
	return vp.And(cs...)
}

// Next replaces modelutil.NextRandom by arbitrary choices, which it records by
// their bound.
type Next struct {
	made map[int][]int
	used map[int]int

	Given func(k, bound int) int // the k-th choice, if they are not arbitrary
	Zero  bool                   // all choices are 0
	n     int
}

func NewNext() *Next {
	n := &Next{made: map[int][]int{}, used: map[int]int{}}
	vp.Hook("NextRandom", n.draw)
	return n
}

func (n *Next) draw(bound int) int {
	if bound <= 0 {
		panic("integer divide by zero")
	}
	if n.Zero { // several goroutines may choose at the same time
		return 0
	}
	k := 0
	if n.Given != nil {
		k = n.Given(n.n, bound)
	} else {
		k = vp.Choose("next", bound)
	}
	n.n++
	n.made[bound] = append(n.made[bound], k)
	return k
}

// Take returns the next recorded choice with the bound.
func (n *Next) Take(bound int) int {
	if n.Zero {
		return 0
	}
	i := n.used[bound]
	vp.Assert(i < len(n.made[bound]), "fewer random choices are made than the update rule needs")
	n.used[bound]++
	return n.made[bound][i]
}

// Neighbours are the positions whose words are the context of pos, given the
// random shrinking of the window.
func Neighbours(pos, n, win, shrink int) []int {
	var ps []int
	w := win - shrink
	for c := pos - w; c <= pos+w; c++ {
		if c != pos && c >= 0 && c < n {
			ps = append(ps, c)
		}
	}
	return ps
}

// Sig is the logistic function that training is to use: 0 and 1 beyond 6.
func Sig(x float64) float64 {
	if x <= -6 {
		vp.Reach("saturated")
		return 0
	}
	if x >= 6 {
		vp.Reach("saturated")
		return 1
	}
	return vp.Logistic(x)
}

// HookSigmoid makes the tabulated sigmoid exact.
func HookSigmoid() { vp.Hook("sigmoidTable.sigmoid", vp.Logistic) }

func Dot(a, b []float64) float64 {
	s := 0.
	for i := range a {
		s += a[i] * b[i]
	}
	return s
}

func Copy(m [][]float64) [][]float64 {
	r := make([][]float64, len(m))
	for i := range m {
		r[i] = append([]float64(nil), m[i]...)
	}
	return r
}

// Again is the same record, to be taken from its start.
func (n *Next) Again() *Next { return &Next{made: n.made, used: map[int]int{}} }
