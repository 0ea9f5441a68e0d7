package main

import "math"

// Ranges of floating-point terms on a path. Rounding to nearest is monotone, so
// the ends of a range are computed by the operations themselves.

type fpRange struct{ lo, hi float64 }

// fpFact notes what a decided comparison with a constant says about a term.
func (in *Interp) fpFact(c *Term, v bool) {
	if !v && (c.op == "fp.leq" || c.op == "fp.lt") {
		x, y := c.args[0], c.args[1]
		t := x
		if x.IsConst() {
			t = y
		}
		if _, ok := in.fpb[t]; ok { // a number: the opposite holds
			op := "fp.lt"
			if c.op == "fp.lt" {
				op = "fp.leq"
			}
			if o := in.b.FPCmp(op, y, x); !o.IsConst() {
				in.fpFact(o, true)
			}
		}
		return
	}
	if !v || c.op != "fp.leq" && c.op != "fp.lt" && c.op != "fp.eq" || c.args[0].sort.K != KFP64 {
		return
	}
	x, y := c.args[0], c.args[1]
	if x.IsConst() == y.IsConst() {
		return
	}
	r := fpRange{math.Inf(-1), math.Inf(1)}
	if x.IsConst() { // k <= t
		r.lo = x.fv()
		if c.op == "fp.lt" {
			r.lo = math.Nextafter(r.lo, math.Inf(1))
		}
		if c.op == "fp.eq" {
			r.hi = r.lo
		}
		x = y
	} else {
		r.hi = y.fv()
		if c.op == "fp.lt" {
			r.hi = math.Nextafter(r.hi, math.Inf(-1))
		}
		if c.op == "fp.eq" {
			r.lo = r.hi
		}
	}
	if o, ok := in.fpb[x]; ok {
		r.lo, r.hi = math.Max(r.lo, o.lo), math.Min(r.hi, o.hi)
	}
	if in.fpb == nil {
		in.fpb = map[*Term]fpRange{}
	}
	in.fpb[x] = r
}

// fpRangeOf is a range of finite numbers that t is known to lie in.
func (in *Interp) fpRangeOf(t *Term, depth int) (r fpRange, ok bool) {
	if t.sort.K != KFP64 || depth > 40 {
		return
	}
	if t.IsConst() {
		v := t.fv()
		return fpRange{v, v}, !math.IsNaN(v) && !math.IsInf(v, 0)
	}
	known, has := in.fpb[t]
	bin := func() (a, c fpRange, ok bool) {
		if a, ok = in.fpRangeOf(t.args[0], depth+1); !ok {
			return
		}
		c, ok = in.fpRangeOf(t.args[1], depth+1)
		return
	}
	switch t.op {
	case "fp.add RNE":
		if a, c, o := bin(); o {
			r, ok = fpRange{a.lo + c.lo, a.hi + c.hi}, true
		}
	case "fp.sub RNE":
		if a, c, o := bin(); o {
			r, ok = fpRange{a.lo - c.hi, a.hi - c.lo}, true
		}
	case "fp.mul RNE", "fp.div RNE":
		if a, c, o := bin(); o {
			if t.op == "fp.div RNE" && c.lo <= 0 && c.hi >= 0 {
				break
			}
			r, ok = fpRange{math.Inf(1), math.Inf(-1)}, true
			for _, x := range []float64{a.lo, a.hi} {
				for _, y := range []float64{c.lo, c.hi} {
					z := x * y
					if t.op == "fp.div RNE" {
						z = x / y
					}
					r.lo, r.hi = math.Min(r.lo, z), math.Max(r.hi, z)
				}
			}
		}
	case "fp.neg":
		if a, o := in.fpRangeOf(t.args[0], depth+1); o {
			r, ok = fpRange{-a.hi, -a.lo}, true
		}
	case "ite":
		a, o1 := in.fpRangeOf(t.args[1], depth+1)
		c, o2 := in.fpRangeOf(t.args[2], depth+1)
		if o1 && o2 {
			r, ok = fpRange{math.Min(a.lo, c.lo), math.Max(a.hi, c.hi)}, true
		}
	}
	if has {
		if ok {
			r.lo, r.hi = math.Max(r.lo, known.lo), math.Min(r.hi, known.hi)
		} else {
			r, ok = known, true
		}
	}
	if math.IsNaN(r.lo) || math.IsNaN(r.hi) || math.IsInf(r.lo, 0) || math.IsInf(r.hi, 0) {
		ok = false
	}
	return
}

// fpCmp builds a comparison; the ranges may decide it.
func (in *Interp) fpCmp(op string, x, y *Term) *Term {
	c := in.b.FPCmp(op, x, y)
	if c.IsConst() {
		return c
	}
	a, ok1 := in.fpRangeOf(x, 0)
	d, ok2 := in.fpRangeOf(y, 0)
	if ok1 && ok2 {
		switch op {
		case "fp.lt":
			if a.hi < d.lo {
				return in.b.T
			}
			if a.lo >= d.hi {
				return in.b.F
			}
		case "fp.leq":
			if a.hi <= d.lo {
				return in.b.T
			}
			if a.lo > d.hi {
				return in.b.F
			}
		}
	}
	return c
}

// fpIntRange is the range of the integers that t converts to.
func (in *Interp) fpIntRange(t *Term) (lo, hi int64, ok bool) {
	r, ok := in.fpRangeOf(t, 0)
	if !ok || r.lo < -(1<<62) || r.hi > 1<<62 {
		return 0, 0, false
	}
	return int64(r.lo), int64(r.hi), true
}
