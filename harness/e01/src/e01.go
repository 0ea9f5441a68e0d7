package e01

import (
	"bytes"
	"math"
	"strings"

	"github.com/ynqa/wego/pkg/corpus/dictionary"
	"github.com/ynqa/wego/pkg/embedding"
	"github.com/ynqa/wego/pkg/model/modelutil/matrix"
	"github.com/ynqa/wego/pkg/model/modelutil/vector"
	"github.com/ynqa/wego/pkg/util/verbose"
	"github.com/ynqa/wego/zzverif/lib"
	"github.com/ynqa/wego/zzverif/vp"
)

// like reports whether got is want up to the 6th decimal place.
func like(got, want float64) bool {
	d := got - want
	return vp.And(d <= 5.1e-7, -d <= 5.1e-7)
}

func save(dic *dictionary.Dictionary, mat *matrix.Matrix, typed bool) string {
	var buf bytes.Buffer
	var err error
	if typed {
		vp.CaptureStdout(func() { err = vector.Save(&buf, dic, mat, verbose.New(true), 2) })
	} else {
		err = vector.Save(&buf, dic, mat, verbose.New(false), 2)
	}
	vp.Assert(err == nil, "saving fails")
	return buf.String()
}

func check(out string, words []string, vals [][]float64) {
	embs, err := embedding.Load(strings.NewReader(out))
	vp.Assert(err == nil, "saved vectors cannot be loaded")
	vp.Assert(len(embs) == len(words), "number of loaded vectors is not the dictionary size")
	var cs []bool
	for i, w := range words {
		e := embs[i]
		vp.Assert(e.Word == w, "loaded words differ from the saved ones")
		vp.Assert(e.Dim == len(vals[i]) && len(e.Vector) == len(vals[i]), "loaded dimension differs from the saved one")
		for j, x := range vals[i] {
			cs = append(cs, like(e.Vector[j], x))
		}
	}
	vp.Assert(vp.And(cs...), "a loaded value differs from the saved one by more than 6 decimal places allow")
	// the form of the text
	lines := strings.Split(out, "\n")
	vp.Assert(len(lines) == len(words)+1 && lines[len(words)] == "", "the text does not have one line per word")
	for i, w := range words {
		vp.Assert(strings.HasPrefix(lines[i], w+" "), "a line does not start with the word")
		vp.Assert(len(strings.Fields(lines[i])) == len(vals[i])+1, "a line does not hold the word and its values")
	}
	if len(words) >= 2 {
		vp.Reach("two")
	}
}

// distinct gives n different words out of w.
func distinct(ws []string) *dictionary.Dictionary {
	dic := dictionary.New()
	for i, w := range ws {
		for _, v := range ws[:i] {
			vp.Assume(v != w)
		}
		dic.Add(w)
	}
	return dic
}

// Words: any words of printable ASCII bytes, values from -1000 to 1000.
func Words() {
	n, dim := vp.Choose("n", vp.Param("n", 2)+1), vp.Choose("dim", vp.Param("dim", 2))+1
	ws := make([]string, n)
	for i := range ws {
		ws[i] = vp.String("byte", vp.Choose("len", vp.Param("len", 2))+1, "")
		for j := 0; j < len(ws[i]); j++ {
			vp.Assume(vp.And(ws[i][j] > ' ', ws[i][j] < 0x7f))
		}
	}
	run(ws, dim, 1000)
}

// Unusual: control and non-ASCII characters, invalid encodings.
func Unusual() {
	list := []string{"é", "日本語", "\xff\xfe", "\x85", "a\xa0b", "\x00", "%d", "\u2060", "\x1f", "-1.5", "NaN", strings.Repeat("x", 70000)}
	ws := []string{list[vp.Choose("first", len(list))], "b", list[vp.Choose("second", len(list))]}
	run(ws, 1, 1)
}

// Long: more values than fit into one buffer.
func Long() {
	run([]string{"a", "b"}, vp.Param("dim", 600), 4)
}

func run(ws []string, dim int, max float64) {
	dic := distinct(ws)
	vals := make([][]float64, len(ws))
	for i := range vals {
		for j := 0; j < dim; j++ {
			vals[i] = append(vals[i], vp.Float("value", -max, max))
		}
	}
	mat := matrix.New(len(ws), dim, func(row int, vec []float64) { copy(vec, vals[row]) })
	check(save(dic, mat, vp.Choose("verbose", 2) == 1), ws, vals)
}

// Extreme: huge, tiny and negative values.
func Extreme() {
	list := []float64{1 << 31, -(1 << 31), 1<<32 + 1, 1 << 53, 1e15, -3e9, 70000, 0, math.Copysign(0, -1), 1e-9, -4.4e-7, 5e-7, 1e15 / 3, 1e300, -math.MaxFloat64, 0.1234565, 999999.9999995}
	x, y := list[vp.Choose("x", len(list))], list[vp.Choose("y", len(list))]
	vals := [][]float64{{x, y}}
	dic := distinct([]string{"a"})
	mat := matrix.New(1, 2, func(row int, vec []float64) { copy(vec, vals[row]) })
	out := save(dic, mat, false)
	embs, err := embedding.Load(strings.NewReader(out))
	vp.Assert(err == nil && len(embs) == 1 && len(embs[0].Vector) == 2, "saved vectors cannot be loaded")
	for j, v := range vals[0] {
		d := embs[0].Vector[j] - v
		vp.Assert(d <= 5.1e-7 && d >= -5.1e-7, "a loaded value differs from the saved one by more than 6 decimal places allow")
	}
}

// Models: what any trained model saves loads back as its exported vectors.
func Models() {
	kind := lib.Kinds[vp.Choose("kind", len(lib.Kinds))]
	typ := []string{vector.Single, vector.Agg}[vp.Choose("type", 2)]
	c := lib.Default(kind)
	c.Dim, c.Mem, c.Low = 2, vp.Choose("mem", 2) == 1, vp.Choose("low", 2) == 1
	text, ws := lib.Text(vp.Param("n", 3), "abAB")
	lib.Fixed()
	m := c.New()
	vp.Assert(m.Train(strings.NewReader(text)) == nil, "training fails")
	var buf bytes.Buffer
	vp.Assert(m.Save(&buf, typ) == nil, "saving fails")
	_, dic, _ := lib.Index(lib.LowerAll(ws, c.Low))
	mat := m.WordVector(typ)
	vp.Assert(mat.Row() == len(dic) && mat.Col() == 2, "exported matrix has another size")
	var vals [][]float64
	for i := range dic {
		vals = append(vals, append([]float64(nil), mat.Slice(i)...))
	}
	check(buf.String(), dic, vals)
}
