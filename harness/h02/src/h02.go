package h02

import (
	"github.com/ynqa/wego/pkg/corpus/dictionary/node"
	"github.com/ynqa/wego/zzverif/vp"
)

// forest builds n nodes; each has an arbitrary earlier node (or, except for
// the first, which is the root, none) as its parent.
func forest(n int) []*node.Node {
	ns := make([]*node.Node, n)
	for i := range ns {
		ns[i] = &node.Node{Val: i}
		if i > 0 {
			ns[i].Parent = ns[vp.Choose("parent", i)]
		}
	}
	return ns
}

// path is the path from the root to x, limited to d entries if d > 0.
func path(x *node.Node, d int) []*node.Node {
	var up []*node.Node
	for ; x != nil; x = x.Parent {
		up = append(up, x)
	}
	var down []*node.Node
	for i := len(up) - 1; i >= 0; i-- {
		if d > 0 && len(down) == d {
			break
		}
		down = append(down, up[i])
	}
	return down
}

func check(got, want []*node.Node, what string) {
	vp.Assert(len(got) == len(want), what+": path has another length")
	for i := range got {
		vp.Assert(got[i] == want[i], what+": path has another node")
	}
}

// Calls: a sequence of calls with arbitrary limits, to arbitrary nodes.
func Calls() {
	n := vp.Param("n", 4)
	ns := forest(n)
	for i := 0; i < vp.Param("calls", 3); i++ {
		x := ns[vp.Choose("node", n)]
		d := vp.Fix(vp.Int("depth", -1, n+1))
		if vp.Choose("any", 2) == 1 {
			d = vp.AnyInt("limit")
			vp.Assume(d > n)
		}
		want := path(x, d)
		if d < 0 {
			continue // negative limits are not specified
		}
		if d > 0 && len(want) == d {
			vp.Reach("limited")
		}
		if len(want) >= 3 {
			vp.Reach("long")
		}
		check(x.GetPath(d), want, "call")
	}
}

// Concurrent: two goroutines ask at the same time.
func Concurrent() {
	n := vp.Param("n", 3)
	ns := make([]*node.Node, n)
	for i := range ns {
		ns[i] = &node.Node{Val: i}
		if i > 0 {
			ns[i].Parent = ns[i-1]
		}
	}
	x := ns[n-1]
	y := ns[n-1-vp.Choose("other", 2)]
	d1, d2 := vp.Choose("depth", n+1), vp.Choose("depth", n+1)
	vp.Go(func() { check(x.GetPath(d1), path(x, d1), "first goroutine") })
	vp.Go(func() { check(y.GetPath(d2), path(y, d2), "second goroutine") })
	vp.Settle()
	check(x.GetPath(0), path(x, 0), "afterwards")
	check(y.GetPath(d1), path(y, d1), "afterwards")
}

// Deep: long paths with a common part.
func Deep() {
	n := vp.Param("n", 70)
	root := &node.Node{}
	x := root
	var mid *node.Node
	for i := 1; i < n; i++ {
		if i == n/2 {
			mid = x
		}
		x = &node.Node{Parent: x, Val: i}
	}
	y := &node.Node{Parent: mid}
	first := []int{0, 1, n/2 + 1, n - 1, n, n + 1, 1 << 40}[vp.Choose("first", 7)]
	at := []*node.Node{x, y, x.Parent, root}[vp.Choose("node", 4)]
	check(at.GetPath(first), path(at, first), "first call")
	d := vp.Fix(vp.Int("depth", 0, n+1))
	check(x.GetPath(d), path(x, d), "second call")
	if len(path(x, d)) == d {
		vp.Reach("limited")
	}
	check(y.GetPath(d), path(y, d), "third call")
	check(at.GetPath(0), path(at, 0), "fourth call")
}
