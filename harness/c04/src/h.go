package c04

import (
	"io"
	"strings"

	"github.com/ynqa/wego/pkg/corpus"
	co "github.com/ynqa/wego/pkg/corpus/cooccurrence"
	"github.com/ynqa/wego/pkg/corpus/cooccurrence/encode"
	"github.com/ynqa/wego/pkg/corpus/fs"
	"github.com/ynqa/wego/pkg/corpus/memory"
	"github.com/ynqa/wego/zzverif/lib"
	"github.com/ynqa/wego/zzverif/vp"
)

// open: the count filters choose what is trained, not what is counted.
func open(mem bool, r io.ReadSeeker, low bool) corpus.Corpus {
	max, min := vp.Int("max", -1, 1<<31), vp.Int("min", 0, 1<<31)
	if mem {
		return memory.New(r, low, max, min)
	}
	return fs.New(r, low, max, min)
}

func check(n int, alphabet string, win int, low bool) {
	text, ws := lib.Text(n, alphabet)
	mem := vp.Choose("mem", 2) == 1
	c := open(mem, lib.NewReader(text), low)
	err := c.Load(&corpus.WithCooccurrence{CountType: co.Increment, Window: win}, lib.Quiet(), 100)
	vp.Assert(err == nil, "loading fails")
	ids, dic, _ := lib.Index(lib.LowerAll(ws, low))
	want := map[[2]int]float64{}
	for i := range ids {
		for j := i + 1; j < len(ids) && j-i <= win; j++ {
			a, b := ids[i], ids[j]
			if a > b {
				a, b = b, a
			}
			want[[2]int{a, b}]++
			if a == b {
				vp.Reach("self")
			}
		}
	}
	em := c.Cooccurrence().EncodedMatrix()
	vp.Assert(len(em) == len(want), "entries of pairs that do not co-occur, or missing ones")
	for a := range dic {
		for b := a; b < len(dic); b++ {
			got, ok := em[encode.EncodeBigram(uint64(a), uint64(b))]
			w, has := want[[2]int{a, b}]
			vp.Assert(ok == has && got == w, "count is not the number of pairs of positions within the window")
		}
	}
	if len(want) > 0 {
		vp.Reach("pair")
	} else {
		vp.Reach("none")
	}
}

func Counts() {
	n := vp.Choose("len", vp.Param("n", 4)+1)
	check(n, "abA", vp.Int("window", 0, n+1), vp.Choose("low", 2) == 1)
}

func Long() {
	n := vp.Param("n", 5)
	check(n, "abcdefghijklmnopqrstuvwxyz", vp.Int("window", 0, 1000), false)
}

// More: one more pair is one more, whatever the count already is.
func More() {
	c, err := co.New(co.Increment)
	vp.Assert(err == nil, "no counter")
	l, r := vp.Int("left", 0, 1<<31), vp.Int("right", 0, 1<<31)
	enc, had := encode.EncodeBigram(uint64(l), uint64(r)), vp.Float("count", 0, 1<<52)
	c.EncodedMatrix()[enc] = had
	vp.Assume(c.EncodedMatrix()[enc] == had) // it is the table itself, not a copy
	vp.Assert(c.Add(l, r) == nil, "counting fails")
	vp.Assert(c.EncodedMatrix()[enc] == had+1, "count does not grow by one")
	d, ok := interface{}(c).(interface{ AddWithDistance(int, int, int) error })
	if !ok {
		return
	}
	vp.Assert(d.AddWithDistance(r, l, vp.Int("dist", 1, 1000)) == nil, "counting fails")
	vp.Assert(c.EncodedMatrix()[enc] == had+1+1, "count does not grow by one")
	vp.Assert(len(c.EncodedMatrix()) == 1, "another pair is counted")
}

// Late: arbitrary words at the end of a text of a great many others.
func Late() {
	n, win := vp.Param("n", 70000), vp.Param("win", 3)
	ws := lib.Many(n)
	ws = append(ws, vp.String("w", 1, "AB"), ws[5], vp.String("w", 1, "AB"), ws[n-1], vp.String("w", 1, "AB"))
	var b strings.Builder
	for _, w := range ws {
		b.WriteString(w)
		b.WriteByte(' ')
	}
	c := open(vp.Choose("mem", 2) == 1, lib.NewReader(b.String()), false)
	vp.Assert(c.Load(&corpus.WithCooccurrence{CountType: co.Increment, Window: win}, lib.Quiet(), 100) == nil, "loading fails")
	last, _, _ := lib.Index([]string{ws[n], ws[n+2], ws[n+4]})
	ids := make([]int, len(ws))
	for i := range ids {
		ids[i] = i
	}
	ids[n], ids[n+1], ids[n+2], ids[n+3], ids[n+4] = n+last[0], 5, n+last[1], n-1, n+last[2]
	want := map[uint64]float64{}
	for i := range ids {
		for j := i + 1; j < len(ids) && j-i <= win; j++ {
			want[encode.EncodeBigram(uint64(ids[i]), uint64(ids[j]))]++
		}
	}
	em := c.Cooccurrence().EncodedMatrix()
	vp.Assert(len(em) == len(want), "entries of pairs that do not co-occur, or missing ones")
	for i := 0; i < len(ids); i++ {
		if i > 100 && i < n-100 && i%1001 != 0 {
			continue
		}
		for j := i; j < len(ids) && j-i <= win; j++ {
			e := encode.EncodeBigram(uint64(ids[i]), uint64(ids[j]))
			vp.Assert(em[e] == want[e], "count is not the number of pairs of positions within the window")
		}
	}
}

// Wide: a long text, windows of any size up to its length; the words repeat
// after a while.
func Wide() {
	n := vp.Param("n", 80)
	win := vp.Choose("window", n+3)
	period := []int{1, 2, 7, 30, n}[vp.Choose("period", 5)]
	ids := make([]int, n)
	var b strings.Builder
	for i := range ids {
		ids[i] = i * i % period
		b.WriteString(lib.Many(period)[ids[i]])
		b.WriteByte(' ')
	}
	at := vp.String("w", 1, "AB") // an arbitrary word at the end
	b.WriteString(at)
	names := map[int]int{}
	for i, id := range ids {
		if _, ok := names[id]; !ok {
			names[id] = len(names)
		}
		ids[i] = names[id]
	}
	ids = append(ids, len(names))
	c := open(vp.Choose("mem", 2) == 1, lib.NewReader(b.String()), false)
	vp.Assert(c.Load(&corpus.WithCooccurrence{CountType: co.Increment, Window: win}, lib.Quiet(), 7) == nil, "loading fails")
	want := map[uint64]float64{}
	for i := range ids {
		for j := i + 1; j < len(ids) && j-i <= win; j++ {
			l, r := ids[i], ids[j]
			if l > r {
				l, r = r, l
			}
			want[encode.EncodeBigram(uint64(l), uint64(r))]++
		}
	}
	em := c.Cooccurrence().EncodedMatrix()
	vp.Assert(len(em) == len(want), "entries of pairs that do not co-occur, or missing ones")
	same := true
	for e, x := range want {
		same = same && em[e] == x
	}
	vp.Assert(same, "count is not the number of pairs of positions within the window")
}
