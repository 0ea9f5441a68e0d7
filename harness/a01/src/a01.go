package a01

import (
	"github.com/ynqa/wego/pkg/model/modelutil/matrix"
	"github.com/ynqa/wego/zzverif/vp"
)

// Rows: any size; the initialiser, then writes through any views.
func Rows() {
	r, c := vp.Choose("rows", vp.Param("r", 4)+1), vp.Choose("cols", vp.Param("c", 3)+1)
	calls := make([]int, r)
	ref := make([][]float64, r)
	kept := make([][]float64, r)
	// the initialiser may leave elements as they are
	skip := vp.Choose("skip", 3)
	m := matrix.New(r, c, func(row int, vec []float64) {
		vp.Assert(row >= 0 && row < r, "the initialiser is called for a row that does not exist")
		calls[row]++
		vp.Assert(len(vec) == c, "the initialiser gets a view of another length")
		ref[row] = make([]float64, c)
		kept[row] = vec
		for j := range vec {
			vp.Assert(vec[j] == 0, "an element is not 0 before it is initialised")
			if skip == 1 && (row+j)%2 == 0 || skip == 2 {
				continue
			}
			vec[j] = vp.Float("init", -9, 9)
			ref[row][j] = vec[j]
		}
	})
	vp.Assert(m.Row() == r && m.Col() == c, "matrix reports another size")
	for i := range calls {
		vp.Assert(calls[i] == 1, "the initialiser is not called exactly once per row")
	}
	equal := func() {
		for i := 0; i < r; i++ {
			v := m.Slice(i)
			vp.Assert(len(v) == c, "a row view has another length")
			for j := range v {
				vp.Assert(v[j] == ref[i][j], "a row does not have the value last written to it")
			}
		}
	}
	equal()
	if r == 0 || c == 0 {
		return
	}
	var old [][]float64
	for i := 0; i < r; i++ {
		old = append(old, m.Slice(i))
	}
	for k := 0; k < vp.Param("writes", 2); k++ {
		i, j := vp.Choose("row", r), vp.Choose("col", c)
		x := vp.Float("value", -9, 9)
		switch vp.Choose("by", 3) {
		case 0:
			m.Slice(i)[j] = x
		case 1: // through the initialiser's view
			kept[i][j] = x
		case 2: // through a view taken earlier
			old[i][j] = x
		}
		ref[i][j] = x
		vp.Reach("written")
		for j := range kept[i] {
			vp.Assert(kept[i][j] == ref[i][j] && old[i][j] == ref[i][j], "a view of a row does not show what is written")
		}
		equal()
	}
}

// Big: rows of a larger matrix do not overlap.
func Big() {
	r, c := vp.Param("r", 40), vp.Param("c", 7)
	m := matrix.New(r, c, func(row int, vec []float64) {
		for j := range vec {
			vec[j] = float64(row*100 + j)
		}
	})
	i, j := vp.Fix(vp.Int("row", 0, r-1)), vp.Fix(vp.Int("col", 0, c-1))
	x := vp.Float("value", -9, 9)
	m.Slice(i)[j] = x
	for a := 0; a < r; a++ {
		for b := 0; b < c; b++ {
			want := float64(a*100 + b)
			if a == i && b == j {
				want = x
			}
			vp.Assert(m.Slice(a)[b] == want, "a write to one row shows in another")
		}
	}
}

// Huge: more elements than 16 bits can number, in either direction.
func Huge() {
	r, c := vp.Param("r", 300), vp.Param("c", 300)
	m := matrix.New(r, c, func(row int, vec []float64) {
		vec[0], vec[c-1] = float64(row), -float64(row)
	})
	vp.Assert(m.Row() == r && m.Col() == c, "matrix reports another size")
	x, y, z := vp.Float("value", -9, 9), vp.Float("value", -9, 9), vp.Float("value", -9, 9)
	m.Slice(r - 1)[c-1] = x
	m.Slice(r / 2)[c/2] = y
	m.Slice(0)[0] = z
	for i := 0; i < r; i++ {
		v := m.Slice(i)
		vp.Assert(len(v) == c, "a row view has another length")
		for _, j := range []int{0, c / 2, c - 1} {
			want := 0.
			switch { // the last write first
			case i == 0 && j == 0:
				want = z
			case i == r/2 && j == c/2:
				want = y
			case i == r-1 && j == c-1:
				want = x
			case j == c-1:
				want = -float64(i)
			case j == 0:
				want = float64(i)
			}
			vp.Assert(v[j] == want, "a row does not have the value last written to it")
		}
	}
}

// Views: a view goes on showing its row, whichever other views are taken.
func Views() {
	r, c := vp.Param("r", 130), 2
	var kept [][]float64
	m := matrix.New(r, c, func(row int, vec []float64) { kept = append(kept, vec) })
	var old [][]float64
	for i := 0; i < r; i++ {
		old = append(old, m.Slice(i))
	}
	rows := []int{0, 1, r / 2, r - 2, r - 1}
	i, j := rows[vp.Choose("row", len(rows))], rows[vp.Choose("row", len(rows))]
	x, y := vp.Float("value", -9, 9), vp.Float("value", -9, 9)
	switch vp.Choose("by", 3) {
	case 0:
		m.Slice(i)[1] = x
	case 1:
		kept[i][1] = x
	case 2:
		old[i][1] = x
	}
	m.Slice(j)[0] = y
	for a := 0; a < r; a++ {
		for _, v := range [][]float64{m.Slice(a), kept[a], old[a]} {
			p, q := 0., 0.
			if a == j {
				p = y
			}
			if a == i {
				q = x
			}
			vp.Assert(v[0] == p && v[1] == q, "a view of a row does not show what is written")
		}
	}
}
