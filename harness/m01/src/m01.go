package m01

import (
	"github.com/ynqa/wego/pkg/model/modelutil"
	"github.com/ynqa/wego/zzverif/vp"
)

// Split: the boundaries for t threads and any data size.
func Split() {
	t := vp.Fix(vp.Int("threads", 1, vp.Param("t", 16)))
	// any size is a multiple of t and a rest
	check(t, t*vp.Int("multiple", 0, 1<<vp.Param("bits", 46))+vp.Choose("rest", t))
}

// Rounding: large sizes, with floating-point numbers as the machine has them.
func Rounding() {
	t := vp.Choose("threads", vp.Param("t", 3)) + 1
	logs := []int{24, 25, 32, 48}
	check(t, t*(1<<logs[vp.Choose("log", len(logs))]+vp.Int("more", 0, 3))+vp.Choose("rest", t))
}

func check(t, n int) {
	b := modelutil.IndexPerThread(t, n)
	vp.Assert(len(b) == t+1, "there are not t+1 boundaries")
	vp.Assert(b[0] == 0, "the first part does not start at 0")
	vp.Assert(b[t] == n, "the last part does not end at the data size")
	var c []bool
	for i := 0; i < t; i++ {
		c = append(c, b[i] <= b[i+1])
		// the parts differ by at most one exactly if each is the quotient or one more
		c = append(c, t*(b[i+1]-b[i]) > n-t, t*(b[i+1]-b[i]) < n+t)
	}
	vp.Assert(vp.And(c...), "the parts overlap, or their sizes differ by more than one")
}
