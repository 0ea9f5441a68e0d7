package main

import (
	"math"
	"math/big"
	"strings"
	"time"
)

// numeric looks for inputs of the path that violate an assertion by evaluating
// the path condition and the negated assertion, nc, with floating-point numbers
// for many values of the real inputs. It is used where the solver gives up;
// what it finds is a candidate only, to be run natively.
func (in *Interp) numeric(nc *Term, most int) []Model {
	if !in.math || in.r32 != nil {
		return nil
	}
	base := Model{}
	if r, m := in.sol.Check(nil, true); r == Sat {
		base = m
	} else {
		// at least the other inputs' values, from the conditions on them alone
		all := in.sol.pc
		var rest []*Term
		for _, c := range all {
			if !hasReal(c, map[*Term]bool{}) {
				rest = append(rest, c)
			}
		}
		in.sol.pc = rest
		if r, m, _ := in.sol.OneShot(nil, true, 3*time.Second); r == Sat {
			base = m
		}
		in.sol.pc = all
	}
	var reals []inputVar
	for _, x := range in.inputs {
		if x.t != nil && x.t.sort.K == KReal {
			if x.lo > x.hi || math.IsInf(x.lo, 0) || math.IsInf(x.hi, 0) {
				return nil
			}
			reals = append(reals, x)
		}
	}
	if len(reals) == 0 {
		return nil
	}
	var found []Model
	seed := uint64(88172645463325252)
	rnd := func() float64 {
		seed ^= seed << 13
		seed ^= seed >> 7
		seed ^= seed << 17
		return float64(seed>>11) / (1 << 53)
	}
	until := time.Now().Add(2 * time.Second)
	for k := 0; k < 3000 && time.Now().Before(until) && len(found) < most; k++ {
		m := Model{}
		for n, v := range base {
			m[n] = v
		}
		wide := k % 4
		for i, x := range reals {
			w, v := x.hi-x.lo, 0.
			switch {
			case k == 0 && m[x.t.name].Q != nil:
				v, _ = m[x.t.name].Q.Float64()
			case k == 1 || k == 2 && i%2 == 0 || k == 3 && i%2 == 1:
				v = x.hi
			case k < 5:
				v = x.lo
			case k%5 == 0 && m[x.t.name].Q != nil && rnd() < 0.7: // near the solver's model
				v, _ = m[x.t.name].Q.Float64()
			case wide == 0 && rnd() < 0.5:
				v = x.lo
				if rnd() < 0.5 {
					v = x.hi
				}
			case wide == 1: // small numbers, if there are any
				v = math.Ldexp(rnd()*2-1, -int(rnd()*12))
				v = math.Max(x.lo, math.Min(x.hi, v))
			default:
				v = x.lo + w*rnd()
			}
			q := new(big.Rat).SetFloat64(v)
			if q == nil {
				return nil
			}
			m[x.t.name] = MVal{Sort: SReal, Q: q}
		}
		e := numEval{in: in, m: m, memo: map[*Term]float64{}, ok: true}
		if !(e.val(nc) == 1 && e.ok) {
			if !e.ok {
				return nil
			}
			continue
		}
		hold := true
		for _, c := range in.sol.pc {
			if e.val(c) != 1 {
				hold = false
				break
			}
		}
		if !e.ok {
			return nil
		}
		if hold {
			found = append(found, m)
		}
	}
	return found
}

func hasReal(t *Term, seen map[*Term]bool) bool {
	if t.sort.K == KReal {
		return true
	}
	if seen[t] {
		return false
	}
	seen[t] = true
	for _, a := range t.args {
		if hasReal(a, seen) {
			return true
		}
	}
	return false
}

type numEval struct {
	in   *Interp
	m    Model
	memo map[*Term]float64
	ok   bool
}

func truth(b bool) float64 {
	if b {
		return 1
	}
	return 0
}

func (e *numEval) val(t *Term) float64 {
	if !e.ok {
		return math.NaN()
	}
	if v, ok := e.memo[t]; ok {
		return v
	}
	v := e.eval(t)
	e.memo[t] = v
	return v
}

func (e *numEval) eval(t *Term) float64 {
	if t.IsConst() {
		switch t.sort.K {
		case KBool:
			return float64(t.u)
		case KInt, KReal:
			f, _ := t.q.Float64()
			return f
		}
		e.ok = false
		return 0
	}
	a := func(i int) float64 { return e.val(t.args[i]) }
	real := len(t.args) > 0 && t.args[len(t.args)-1].sort.K == KReal
	switch t.op {
	case "var":
		if x := e.in.b.cn.sqrts[t]; x != nil {
			return math.Sqrt(e.val(x))
		}
		if v, ok := e.m[t.name]; ok {
			switch v.Sort.K {
			case KBool:
				return float64(v.U)
			case KInt, KReal:
				f, _ := v.Q.Float64()
				return f
			}
		}
	case "not":
		return 1 - a(0)
	case "and":
		for i := range t.args {
			if a(i) != 1 {
				return 0
			}
		}
		return 1
	case "or":
		for i := range t.args {
			if a(i) == 1 {
				return 1
			}
		}
		return 0
	case "ite":
		if a(0) == 1 {
			return a(1)
		}
		return a(2)
	case "=":
		x, y := a(0), a(1)
		if real {
			return truth(math.Abs(x-y) <= 1e-12*(1+math.Abs(x)))
		}
		return truth(x == y)
	case "<":
		return truth(a(0) < a(1))
	case "<=":
		x, y := a(0), a(1)
		if real {
			return truth(x <= y+1e-15*math.Abs(y))
		}
		return truth(x <= y)
	case "+":
		return a(0) + a(1)
	case "-":
		return a(0) - a(1)
	case "*":
		return a(0) * a(1)
	case "/":
		return a(0) / a(1)
	case "to_real":
		return a(0)
	case "to_int":
		return math.Floor(a(0))
	case "div":
		return math.Floor(a(0) / a(1))
	case "mod":
		x, y := a(0), a(1)
		return x - math.Floor(x/y)*y
	case "uf":
		if n, ok := strings.CutPrefix(t.name, "math."); ok {
			if n == "Pow" {
				return math.Pow(a(0), a(1))
			}
			fs := map[string]func(float64) float64{"Exp": math.Exp, "Exp2": math.Exp2, "Expm1": math.Expm1, "Log": math.Log, "Log2": math.Log2,
				"Log10": math.Log10, "Log1p": math.Log1p, "Tanh": math.Tanh, "Sin": math.Sin, "Cos": math.Cos, "Cbrt": math.Cbrt}
			if f := fs[n]; f != nil {
				return f(a(0))
			}
		}
		if t.name == "logistic" {
			return 1 / (1 + math.Exp(-a(0)))
		}
		if strings.HasPrefix(t.name, "table") {
			for _, tb := range e.in.tables {
				if tb.name == t.name {
					if i := a(0); i >= 0 && int(i) < len(tb.vals) {
						return tb.vals[int(i)]
					}
				}
			}
		}
	}
	e.ok = false
	return math.NaN()
}
