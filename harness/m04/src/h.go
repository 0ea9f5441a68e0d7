package m04

import (
	"github.com/ynqa/wego/pkg/corpus/dictionary"
	"github.com/ynqa/wego/pkg/corpus/dictionary/node"
	"github.com/ynqa/wego/pkg/model"
	"github.com/ynqa/wego/pkg/model/word2vec"
	"github.com/ynqa/wego/zzverif/lib"
	"github.com/ynqa/wego/zzverif/vp"
)

type setup struct {
	n, dim, win, iter int
	typ               string
	depth             int
	lo, hi, lr        float64
}

func run(s setup) {
	text, ws := lib.Text(s.n, "abcdefghijklmnopqrstuvwxyz")
	ids, dic, _ := lib.Index(ws)
	next := lib.NewNext()
	lib.HookSigmoid()
	lr := 0.25
	if s.lr > 0 {
		lr = vp.Float("lr", 0, s.lr)
	}
	mk := func(iter int) model.Model {
		opts := []word2vec.ModelOption{word2vec.Dim(s.dim), word2vec.Window(s.win), word2vec.Iter(iter), word2vec.Goroutines(1),
			word2vec.Initlr(lr), word2vec.MinLR(0), word2vec.UpdateLRBatch(1000), word2vec.BatchSize(10000), word2vec.MinCount(0),
			word2vec.Model(s.typ), word2vec.Optimizer(word2vec.HierarchicalSoftmax), word2vec.MaxDepth(s.depth),
			word2vec.SubsampleThreshold(0), word2vec.DocInMemory()}
		m, err := word2vec.New(opts...)
		vp.Assert(err == nil, "model cannot be created")
		return m
	}
	draws := lib.NewDraws(s.lo, s.hi)
	word, _ := draws.Initial(mk, text, len(dic), s.dim)
	m := mk(s.iter)
	vp.Assert(m.Train(lib.NewReader(text)) == nil, "training fails")
	gotW, _ := lib.Vectors(m, len(dic), s.dim)
	t := lib.NewTree(ws, s.dim)
	ref := lib.W2V{Dim: s.dim, Win: s.win, Depth: s.depth, Cbow: s.typ == word2vec.Cbow}
	for i := 0; i < s.iter; i++ {
		for pos := range ids {
			ref.HsStep(ids, pos, lr, next, word, t)
		}
	}
	vp.Assert(lib.Close(gotW, word), "word vectors differ from the update rule")
}

func params(typ string, lo, hi, lr float64) setup {
	return setup{vp.Param("n", 3), vp.Param("dim", 1), vp.Param("win", 1), vp.Param("iter", 1), typ, vp.Choose("depth", 4), lo, hi, lr}
}

// in this range no inner product gets out of the sigmoid's range
func SkipGram() { run(params(word2vec.SkipGram, 0, 1, 0)) }
func Cbow()     { run(params(word2vec.Cbow, 0, 1, 0)) }

func Saturated() {
	run(params([]string{word2vec.SkipGram, word2vec.Cbow}[vp.Choose("type", 2)], -8, 8, 2))
}

// Wide: more neighbours and dimensions.
func Wide() { run(params(word2vec.Cbow, 0, 1, 0)) }

func Dims() { run(params(word2vec.SkipGram, 0, 1, 0)) }

// Nodes: one position, or none, out of a text of distinct words is trained;
// the inner nodes have any vectors, and so words and nodes change in all
// combinations of saturated and unsaturated nodes.
func Nodes() {
	n, dim, win := vp.Param("n", 3), vp.Param("dim", 1), vp.Param("win", 1)
	typ := []string{word2vec.SkipGram, word2vec.Cbow}[vp.Choose("type", 2)]
	depth := vp.Choose("depth", 4)
	ws := []string{"a", "b", "c", "d"}[:n]
	text := "a"
	ids := []int{0}
	for i := 1; i < n; i++ {
		text += " " + ws[i]
		ids = append(ids, i)
	}
	if vp.Choose("frequent", 2) == 1 { // another shape of the tree
		ws, text, ids = append(ws, "a", "a"), text+" a a", append(ids, 0, 0)
	}
	next := lib.NewNext()
	lib.HookSigmoid()
	lr := 0.25
	const hook = "Dictionary.HuffnamTree"
	var leaves []*node.Node
	var vals []float64
	inner := func() (path [][]*node.Node, all []*node.Node) {
		seen := map[*node.Node]bool{}
		for _, l := range leaves {
			var down []*node.Node
			for p := l; p != nil; p = p.Parent {
				down = append([]*node.Node{p}, down...)
				if p != l && !seen[p] {
					seen[p] = true
					all = append(all, p)
				}
			}
			path = append(path, down)
		}
		return
	}
	var build func(d *dictionary.Dictionary, dim int) []*node.Node
	build = func(d *dictionary.Dictionary, dim int) []*node.Node {
		delete(vp.Hooks, hook)
		leaves = d.HuffnamTree(dim)
		vp.Hooks[hook] = build
		k := 0
		_, all := inner()
		for _, p := range all {
			for j := range p.Vector {
				if k == len(vals) {
					vals = append(vals, vp.Float("node", -3, 3))
				}
				p.Vector[j] = vals[k]
				k++
			}
		}
		return leaves
	}
	vp.Hook(hook, build)
	mk := func(iter int) model.Model {
		opts := []word2vec.ModelOption{word2vec.Dim(dim), word2vec.Window(win), word2vec.Iter(iter), word2vec.Goroutines(1),
			word2vec.Initlr(lr), word2vec.MinLR(0), word2vec.UpdateLRBatch(1000), word2vec.BatchSize(10000), word2vec.MinCount(0),
			word2vec.Model(typ), word2vec.Optimizer(word2vec.HierarchicalSoftmax), word2vec.MaxDepth(depth),
			word2vec.SubsampleThreshold(1e-6), word2vec.DocInMemory()}
		m, err := word2vec.New(opts...)
		vp.Assert(err == nil, "model cannot be created")
		return m
	}
	draws := lib.NewDraws(-8, 8)
	word, _ := draws.Initial(mk, text, n, dim)
	only := vp.Choose("pos", len(ids)+1) - 1
	k := 0
	draws.Later = func() float64 {
		i := k
		k++
		if i == only {
			return 0
		}
		return 0.9999999
	}
	m := mk(1)
	leaves = nil
	vp.Assert(m.Train(lib.NewReader(text)) == nil, "training fails")
	gotW, _ := lib.Vectors(m, n, dim)
	if leaves == nil {
		return // the tree is made in another way: the other harnesses decide
	}
	t := &lib.Tree{Vec: map[*node.Node][]float64{}}
	path, all := inner()
	t.Path = path
	var gotN, wantN [][]float64
	i := 0
	for _, p := range all {
		v := append([]float64(nil), vals[i:i+dim]...)
		i += dim
		t.Vec[p] = v
		gotN, wantN = append(gotN, p.Vector), append(wantN, v)
	}
	ref := lib.W2V{Dim: dim, Win: win, Depth: depth, Cbow: typ == word2vec.Cbow}
	if only >= 0 {
		ref.HsStep(ids, only, lr, next, word, t)
	}
	vp.Assert(lib.Close(gotW, word), "word vectors differ from the update rule")
	vp.Assert(lib.Close(gotN, wantN), "the inner nodes' vectors differ from the update rule")
}

// Many: a longer text, several iterations, from given vectors and with given
// random choices.
func Many() {
	typ := []string{word2vec.SkipGram, word2vec.Cbow}[vp.Choose("type", 2)]
	mem := vp.Choose("mem", 2) == 1
	dim := []int{1, 2, 4, 5, 8, 17}[vp.Choose("dim", 6)]
	win := []int{1, 2, 4, 9}[vp.Choose("win", 4)]
	depth := []int{0, 1, 2, 3, 4, 5, 100}[vp.Choose("depth", 7)]
	text := []string{"a b c a d e a b", "a a b b c c", "e d c b a f a b c g h i"}[vp.Choose("text", 3)]
	lr := []float64{0.025, 0.25}[vp.Choose("lr", 2)]
	many(typ, mem, dim, win, depth, text, lr, 2, 16)
}

// Deep: words of such frequencies that the paths become long.
func Deep() {
	typ := []string{word2vec.SkipGram, word2vec.Cbow}[vp.Choose("type", 2)]
	n := vp.Param("n", 12)
	depth := []int{0, 3, n - 4, n - 3, n - 2, n - 1, n, n + 1, 100}[vp.Choose("depth", 9)]
	var ws []string
	for i, f, g := 0, 2, 2; i < n; i, f, g = i+1, g, f+g {
		for j := 0; j < f; j++ {
			ws = append(ws, string(rune('a'+i)))
		}
	}
	text := ""
	step := 101 // of no length of a text for n up to 14 a divisor
	for i := range ws {
		text += ws[i*step%len(ws)] + " "
	}
	many(typ, vp.Choose("mem", 2) == 1, 2, 1, depth, text, 0.25, 1, vp.Param("spread", 2))
}

func many(typ string, mem bool, dim, win, depth int, text string, lr float64, iter, spread int) {
	ws := lib.Words(text)
	ids, dic, _ := lib.Index(ws)
	next := lib.NewNext()
	next.Given = func(k, bound int) int { return (k*k*7 + k*3) % 31 % bound }
	lib.HookSigmoid()
	mk := func(iter int) model.Model {
		opts := []word2vec.ModelOption{word2vec.Dim(dim), word2vec.Window(win), word2vec.Iter(iter), word2vec.Goroutines(1),
			word2vec.Initlr(lr), word2vec.MinLR(0), word2vec.UpdateLRBatch(1000), word2vec.BatchSize(10000), word2vec.MinCount(0),
			word2vec.Model(typ), word2vec.Optimizer(word2vec.HierarchicalSoftmax), word2vec.MaxDepth(depth),
			word2vec.SubsampleThreshold(0)}
		if mem {
			opts = append(opts, word2vec.DocInMemory())
		}
		m, err := word2vec.New(opts...)
		vp.Assert(err == nil, "model cannot be created")
		return m
	}
	draws := lib.NewDraws(0, 1)
	draws.Given = func(i int) float64 { return (float64(i*37%101)/101 - 0.5) * float64(spread) }
	word, _ := draws.Initial(mk, text, len(dic), dim)
	m := mk(iter)
	vp.Assert(m.Train(lib.NewReader(text)) == nil, "training fails")
	gotW, _ := lib.Vectors(m, len(dic), dim)
	t := lib.NewTree(ws, dim)
	ref := lib.W2V{Dim: dim, Win: win, Depth: depth, Cbow: typ == word2vec.Cbow}
	for i := 0; i < iter; i++ {
		for pos := range ids {
			ref.HsStep(ids, pos, lr, next, word, t)
		}
	}
	vp.Assert(lib.Close(gotW, word), "word vectors differ from the update rule")
}
