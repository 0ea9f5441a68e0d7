package m11

import (
	"github.com/ynqa/wego/pkg/model/modelutil"
	"github.com/ynqa/wego/zzverif/vp"
)

// Any: one draw for any bound in any state.
func Any() {
	k := modelutil.ZZSetGlobals(func(string) uint64 { return vp.Uint64("state") })
	if k > 0 {
		vp.Reach("state")
	}
	b := vp.Int("bound", 1, 1<<63-1)
	x := modelutil.NextRandom(b)
	vp.Assert(vp.And(x >= 0, x < b), "a draw is out of range")
}

// Several: draws with any bounds one after the other.
func Several() {
	modelutil.ZZSetGlobals(func(string) uint64 { return vp.Uint64("state") })
	for i := 0; i < vp.Param("draws", 3); i++ {
		b := vp.Int("bound", 1, 1<<63-1)
		x := modelutil.NextRandom(b)
		vp.Assert(vp.And(x >= 0, x < b), "a draw is out of range")
	}
}

// Small: bounds as used in training, from any state.
func Small() {
	modelutil.ZZSetGlobals(func(string) uint64 { return vp.Uint64("state") })
	b := vp.Choose("bound", vp.Param("max", 6)) + 1
	x := modelutil.NextRandom(b)
	vp.Assert(vp.And(x >= 0, x < b), "a draw is out of range")
}

// Period: draws with a power of two as the bound take every value in turn, from any state.
func Period() {
	modelutil.ZZSetGlobals(func(string) uint64 { return vp.Uint64("state") })
	b := 1 << (vp.Choose("bits", vp.Param("bits", 4)) + 1)
	drawn := make([]int, b)
	for i := range drawn {
		drawn[i] = modelutil.NextRandom(b)
	}
	for i := range drawn {
		for j := 0; j < i; j++ {
			vp.Assert(drawn[i] != drawn[j], "a value is drawn twice while another one is not")
		}
	}
}
