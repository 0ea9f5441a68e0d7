package c06

import (
	"io"

	"github.com/ynqa/wego/pkg/corpus"
	co "github.com/ynqa/wego/pkg/corpus/cooccurrence"
	"github.com/ynqa/wego/pkg/corpus/cooccurrence/encode"
	"github.com/ynqa/wego/pkg/corpus/fs"
	"github.com/ynqa/wego/pkg/corpus/memory"
	"github.com/ynqa/wego/zzverif/lib"
	"github.com/ynqa/wego/zzverif/vp"
)

func open(mem bool, r io.ReadSeeker, low bool) corpus.Corpus {
	if mem {
		return memory.New(r, low, vp.Int("max", -1, 1<<31), vp.Int("min", 0, 1<<31))
	}
	return fs.New(r, low, vp.Int("max", -1, 1<<31), vp.Int("min", 0, 1<<31))
}

func check(n int, alphabet string, win int, low bool) {
	text, ws := lib.Text(n, alphabet)
	mem := vp.Choose("mem", 2) == 1
	c := open(mem, lib.NewReader(text), low)
	err := c.Load(&corpus.WithCooccurrence{CountType: co.Proximity, Window: win}, lib.Quiet(), 100)
	vp.Assert(err == nil, "loading fails")
	ids, dic, _ := lib.Index(lib.LowerAll(ws, low))
	want := map[[2]int]float64{}
	for i := range ids {
		for j := i + 1; j < len(ids) && j-i <= win; j++ {
			a, b := ids[i], ids[j]
			if a > b {
				a, b = b, a
			}
			want[[2]int{a, b}] += 1 / float64(j-i)
			if a == b {
				vp.Reach("self")
			}
		}
	}
	em := c.Cooccurrence().EncodedMatrix()
	vp.Assert(len(em) == len(want), "entries of pairs that do not co-occur, or missing ones")
	for a := range dic {
		for b := a; b < len(dic); b++ {
			got, ok := em[encode.EncodeBigram(uint64(a), uint64(b))]
			w, has := want[[2]int{a, b}]
			vp.Assert(ok == has && vp.Near(got, w), "value is not the sum of the reciprocal distances")
		}
	}
	if len(want) > 0 {
		vp.Reach("pair")
	} else {
		vp.Reach("none")
	}
}

func Weights() {
	n := vp.Choose("len", vp.Param("n", 4)+1)
	check(n, "abA", vp.Int("window", 0, n+1), vp.Choose("low", 2) == 1)
}

func Long() {
	n := vp.Param("n", 5)
	check(n, "abcdefghijklmnopqrstuvwxyz", vp.Int("window", 0, 1000), false)
}

// Types: any other count type is an error.
func Types() {
	typ := vp.String("type", vp.Choose("len", 6), "")
	mem := vp.Choose("mem", 2) == 1
	c := open(mem, lib.NewReader("a b a"), false)
	err := c.Load(&corpus.WithCooccurrence{CountType: typ, Window: 1}, lib.Quiet(), 100)
	if typ == "inc" || typ == "prox" {
		vp.Assert(err == nil, "a valid count type is rejected")
	} else {
		vp.Assert(err != nil, "an unknown count type is accepted")
		vp.Reach("bad")
	}
}

// Far: one more pair of any two words at any distance.
func Far() {
	c, err := co.New(co.Proximity)
	vp.Assert(err == nil, "no counter")
	l, r := vp.Int("left", 0, 1<<31), vp.Int("right", 0, 1<<31)
	d := vp.Int("dist", 1, 1<<40)
	enc := encode.EncodeBigram(uint64(l), uint64(r))
	counter, ok := interface{}(c).(interface{ AddWithDistance(int, int, int) error })
	if !ok {
		vp.Skip()
	}
	vp.Assert(counter.AddWithDistance(l, r, d) == nil, "counting fails")
	vp.Assert(c.EncodedMatrix()[enc] == 1/float64(d), "a pair does not count as the reciprocal of its distance")
	vp.Assert(len(c.EncodedMatrix()) == 1, "another pair is counted")
}

// Apart: two arbitrary words far apart, in a text of many others.
func Apart() {
	n := vp.Param("n", 300)
	many := lib.Many(n)
	w, v := vp.String("w", 1, "ab"), vp.String("w", 1, "ab")
	text := w
	for _, m := range many {
		text += " " + m
	}
	c := open(vp.Choose("mem", 2) == 1, lib.NewReader(text+" "+v), false)
	err := c.Load(&corpus.WithCooccurrence{CountType: co.Proximity, Window: vp.Fix(vp.Int("window", n+1, n+2))}, lib.Quiet(), 100)
	vp.Assert(err == nil, "loading fails")
	em := c.Cooccurrence().EncodedMatrix()
	last := n + 1
	if w == v {
		last = 0
		vp.Reach("self")
	}
	at := func(i, j int) float64 { return em[encode.EncodeBigram(uint64(i), uint64(j))] }
	vp.Assert(at(0, last) == 1/float64(n+1), "value is not the reciprocal of the distance")
	for i := 1; i <= n; i++ {
		want, far := 1/float64(i), 1/float64(n+1-i)
		if last == 0 {
			vp.Assert(vp.Near(at(0, i), want+far), "value is not the sum of the reciprocal distances")
		} else {
			vp.Assert(at(0, i) == want && at(i, last) == far, "value is not the reciprocal of the distance")
		}
	}
}

// Plain: pairs counted without a distance count as adjacent ones, in either order.
func Plain() {
	typ := []string{"inc", "prox"}[vp.Choose("type", 2)]
	c, err := co.New(typ)
	vp.Assert(err == nil, "no counter")
	l, r := vp.Int("left", 0, 1<<31), vp.Int("right", 0, 1<<31)
	n := vp.Choose("n", 4) + 1
	for i := 0; i < n; i++ {
		if vp.Choose("swap", 2) == 1 {
			vp.Assert(c.Add(r, l) == nil, "counting fails")
		} else {
			vp.Assert(c.Add(l, r) == nil, "counting fails")
		}
	}
	vp.Assert(c.EncodedMatrix()[encode.EncodeBigram(uint64(l), uint64(r))] == float64(n), "a pair of adjacent words does not count as 1")
	vp.Assert(len(c.EncodedMatrix()) == 1, "another pair is counted")
}
