package lib

import (
	"math"

	"github.com/ynqa/wego/zzverif/vp"
)

// Pair is a co-occurring pair of words, A <= B, that occurs X times.
type Pair struct {
	A, B int
	X    float64
}

// Pairs counts the co-occurrences within the window.
func Pairs(ids []int, win int) []Pair { return PairsBy(ids, win, false) }

// PairsBy counts them, each by the inverse of its distance if prox is set.
func PairsBy(ids []int, win int, prox bool) []Pair {
	var ps []Pair
	for i := range ids {
		for j := i + 1; j < len(ids) && j-i <= win; j++ {
			a, b := ids[i], ids[j]
			if a > b {
				a, b = b, a
			}
			k := 0
			for k < len(ps) && (ps[k].A != a || ps[k].B != b) {
				k++
			}
			if k == len(ps) {
				ps = append(ps, Pair{a, b, 0})
			}
			if prox {
				ps[k].X += 1 / float64(j-i)
			} else {
				ps[k].X++
			}
		}
	}
	return ps
}

// Orders are all orders of n things.
func Orders(n int) [][]int {
	if n == 0 {
		return [][]int{nil}
	}
	var res [][]int
	for _, o := range Orders(n - 1) {
		for i := 0; i <= len(o); i++ {
			p := append(append(append([]int(nil), o[:i]...), n-1), o[i:]...)
			res = append(res, p)
		}
	}
	return res
}

// Glove is the reference model: each row has its bias as the last element.
type Glove struct {
	Word, Ctx [][]float64
	gw, gc    [][]float64
	Lr        float64
	Ada       bool
}

func (g *Glove) one(v, u, gv, gu []float64, target, weight float64) {
	dim := len(v) - 1
	e := (Dot(v[:dim], u[:dim]) + v[dim] + u[dim] - target) * weight * g.Lr
	for i := 0; i < dim; i++ {
		sv, su := e*u[i], e*v[i]
		if g.Ada {
			gv[i] += sv * sv
			gu[i] += su * su
			sv, su = sv/math.Sqrt(gv[i]), su/math.Sqrt(gu[i])
		}
		v[i], u[i] = v[i]-sv, u[i]-su
	}
	bv, bu := e, e
	if g.Ada {
		bv, bu = bv/math.Sqrt(gv[dim]), bu/math.Sqrt(gu[dim])
		gv[dim] += e * e
		gu[dim] += e * e
	}
	v[dim] -= bv
	u[dim] -= bu
}

// Init prepares the sums of squared gradients.
func (g *Glove) Init() {
	ones := func(m [][]float64) [][]float64 {
		r := Copy(m)
		for i := range r {
			for j := range r[i] {
				r[i][j] = 1
			}
		}
		return r
	}
	g.gw, g.gc = ones(g.Word), ones(g.Ctx)
}

// Clone copies the state.
func (g *Glove) Clone() Glove {
	return Glove{Copy(g.Word), Copy(g.Ctx), Copy(g.gw), Copy(g.gc), g.Lr, g.Ada}
}

// Step trains each pair once, in the order.
func (g *Glove) Step(ps []Pair, order []int, xmax int, alpha float64) {
	for _, o := range order {
		p := ps[o]
		w := 1.
		if p.X < float64(xmax) {
			w = math.Pow(p.X/float64(xmax), alpha)
			vp.Reach("scaled")
		} else {
			vp.Reach("full")
		}
		t := math.Log(p.X)
		g.one(g.Word[p.A], g.Ctx[p.B], g.gw[p.A], g.gc[p.B], t, w)
		g.one(g.Ctx[p.A], g.Word[p.B], g.gc[p.A], g.gw[p.B], t, w)
	}
}

// Run trains the pairs in the order.
func (g *Glove) Run(ps []Pair, order []int, iter int, xmax int, alpha float64) {
	g.Init()
	for k := 0; k < iter; k++ {
		g.Step(ps, order, xmax, alpha)
	}
}

// Cut drops the biases.
func Cut(m [][]float64) [][]float64 {
	r := make([][]float64, len(m))
	for i := range m {
		r[i] = m[i][:len(m[i])-1]
	}
	return r
}
