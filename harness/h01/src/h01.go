package h01

import (
	"github.com/ynqa/wego/pkg/corpus/dictionary/node"
	"github.com/ynqa/wego/zzverif/vp"
)

// lengths are all ways to give n leaves of a full binary tree their depths.
func lengths(n int) [][]int {
	// all non-decreasing sequences with Kraft sum 1, then all their orders
	var res, seqs [][]int
	var grow func(seq []int, min int, left int) // left: remaining sum, in units of 2^-n
	grow = func(seq []int, min int, left int) {
		if len(seq) == n {
			if left == 0 {
				seqs = append(seqs, append([]int(nil), seq...))
			}
			return
		}
		for l := min; l < n; l++ {
			if u := 1 << (n - l); u <= left {
				grow(append(seq, l), l, left-u)
			}
		}
	}
	grow(nil, 0, 1<<n)
	for _, s := range seqs {
		var perm func(done []int, rest []int)
		perm = func(done []int, rest []int) {
			if len(rest) == 0 {
				res = append(res, append([]int(nil), done...))
				return
			}
			for i := range rest {
				if i > 0 && rest[i] == rest[i-1] {
					continue
				}
				r := append(append([]int(nil), rest[:i]...), rest[i+1:]...)
				perm(append(done, rest[i]), r)
			}
		}
		perm(nil, s)
	}
	return res
}

func tree(n, dim int) {
	freqs := make([]int, n)
	for i := range freqs {
		freqs[i] = freq()
	}
	leaves := vocabulary(freqs).HuffnamTree(dim)
	vp.Assert(len(leaves) == n, "there is not one leaf per word")
	if n == 0 {
		return
	}
	var all []*node.Node
	index := func(x *node.Node) int {
		for i, y := range all {
			if x == y {
				return i
			}
		}
		return -1
	}
	var root *node.Node
	kids := map[*node.Node][]*node.Node{}
	depth := make([]int, n)
	for i, l := range leaves {
		vp.Assert(l != nil && index(l) < 0, "two words share a leaf")
		vp.Assert(l.Val == freqs[i], "leaf does not have the frequency of its word")
		all = append(all, l)
	}
	for i, l := range leaves {
		x := l
		for x.Parent != nil {
			depth[i]++
			vp.Assert(depth[i] < n, "a path is longer than any tree over the words allows")
			p := x.Parent
			new := true
			for _, k := range kids[p] {
				if k == x {
					new = false
				}
			}
			if new {
				kids[p] = append(kids[p], x)
			}
			if index(p) < 0 {
				all = append(all, p)
			}
			x = p
		}
		vp.Assert(root == nil || root == x, "the words do not share one root")
		root = x
	}
	vp.Assert(len(all) == 2*n-1, "the number of nodes is not that of a full binary tree")
	cost := 0
	for i, x := range all {
		ks := kids[x]
		if i < n {
			vp.Assert(len(ks) == 0, "a word is an inner node")
			continue
		}
		vp.Assert(len(ks) == 2, "an inner node does not have two children")
		vp.Assert(ks[0].Code+ks[1].Code == 1 && ks[0].Code*ks[1].Code == 0, "the codes of two siblings are not 0 and 1")
		vp.Assert(x.Val == ks[0].Val+ks[1].Val, "the frequency of an inner node is not the sum of its children's")
		vp.Assert(len(x.Vector) == dim, "vector of an inner node has another dimension")
		for j := range x.Vector {
			vp.Assert(x.Vector[j] == 0, "vector of an inner node is not zero")
		}
	}
	for i, x := range all[n:] {
		for j := range x.Vector {
			x.Vector[j] = float64(i*dim + j + 1)
		}
	}
	for i, x := range all[n:] {
		for j := range x.Vector {
			vp.Assert(x.Vector[j] == float64(i*dim+j+1), "two inner nodes share their vector")
		}
	}
	for i := range leaves {
		cost += depth[i] * freqs[i]
	}
	if n > 2 && depth[0] != depth[1] {
		vp.Reach("uneven")
	}
	var best []bool
	for _, ls := range lengths(n) {
		c := 0
		for i, l := range ls {
			c += l * freqs[i]
		}
		best = append(best, cost <= c)
	}
	vp.Assert(vp.And(best...), "another prefix code has a smaller total length")
}

// Small: every vocabulary of up to n words.
func Small() { tree(vp.Choose("words", vp.Param("n", 4)+1), vp.Choose("dim", 3)+1) }

// Large: vocabularies of exactly n words.
func Large() { tree(vp.Param("n", 5), 1) }

// Many: given frequencies of several shapes, one word with an arbitrary one.
func Many() {
	n := vp.Param("n", 12)
	shape := vp.Choose("shape", 9)
	freqs := make([]int, n)
	a, b, x := 1, 1, 12345
	for i := range freqs {
		switch shape {
		case 0:
			freqs[i] = 3
		case 1:
			freqs[i] = a
		case 2:
			freqs[n-1-i] = a
		case 3:
			x = (x*1103515245 + 12345) % (1 << 31)
			freqs[i] = x/65536%limit + 1
		case 4:
			freqs[i] = i/2 + 1
		case 5:
			freqs[i] = i*i%7 + 1
		case 6: // all frequent, and all but equal
			freqs[i] = limit - 1 - i*37%n
		case 7:
			freqs[i] = limit/2 + (n-i)*11%n/2
		case 8:
			freqs[i] = limit>>uint(i%20) + i%3
		}
		if a, b = b, a+b; b > limit {
			a, b = 1, 1
		}
		if freqs[i] > limit {
			freqs[i] = limit
		}
	}
	if vp.Choose("any", vp.Param("any", 2)) == 1 {
		freqs[[]int{0, n / 2, n - 1}[vp.Choose("which", 3)]] = freq()
	}
	dim := vp.Param("dim", 1)
	leaves := vocabulary(freqs).HuffnamTree(dim)
	vp.Assert(len(leaves) == n, "there is not one leaf per word")
	depth := map[*node.Node]int{} // distance from the root
	kids := map[*node.Node][]*node.Node{}
	var order []*node.Node
	cost := 0
	for i, l := range leaves {
		_, dup := depth[l]
		vp.Assert(l != nil && !dup, "two words share a leaf or a word is an inner node")
		vp.Assert(l.Val == freqs[i], "leaf does not have the frequency of its word")
		var up []*node.Node
		y := l
		for ; y != nil && len(up) <= n; y = y.Parent {
			if _, ok := depth[y]; ok {
				break
			}
			up = append(up, y)
		}
		vp.Assert(len(up) <= n, "a path is longer than any tree over the words allows")
		vp.Assert(i == 0 || y != nil, "the words do not share one root")
		for k := len(up) - 1; k >= 0; k-- {
			depth[up[k]] = 0
			if p := up[k].Parent; p != nil {
				depth[up[k]] = depth[p] + 1
				kids[p] = append(kids[p], up[k])
			}
			order = append(order, up[k])
		}
		cost += depth[l] * freqs[i]
	}
	vp.Assert(len(order) == 2*n-1, "the number of nodes is not that of a full binary tree")
	isLeaf := map[*node.Node]bool{}
	for _, l := range leaves {
		isLeaf[l] = true
		vp.Assert(len(kids[l]) == 0, "a word is an inner node")
	}
	mark := 0.0
	var sums []bool
	for _, y := range order {
		if isLeaf[y] {
			continue
		}
		ks := kids[y]
		vp.Assert(len(ks) == 2, "an inner node does not have two children")
		vp.Assert(ks[0].Code+ks[1].Code == 1 && ks[0].Code*ks[1].Code == 0, "the codes of two siblings are not 0 and 1")
		sums = append(sums, y.Val == ks[0].Val+ks[1].Val)
		vp.Assert(len(y.Vector) == dim, "vector of an inner node has another dimension")
		for j := range y.Vector {
			vp.Assert(y.Vector[j] == 0, "vector of an inner node is not zero or shared")
			mark++
			y.Vector[j] = mark
		}
	}
	vp.Assert(vp.And(sums...), "the frequency of an inner node is not the sum of its children's")
	// the minimum: merge the two smallest until one is left
	best := 0
	rest := append([]int(nil), freqs...)
	for len(rest) > 1 {
		for k := 0; k < 2; k++ {
			m := k
			for i := k + 1; i < len(rest); i++ {
				if rest[i] < rest[m] {
					m = i
				}
			}
			rest[k], rest[m] = rest[m], rest[k]
		}
		rest[1] += rest[0]
		best += rest[1]
		rest = rest[1:]
	}
	vp.Assert(cost <= best, "another prefix code has a smaller total length")
}
