package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"os"
	"sort"
	"time"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// ---- decisions ----

func (in *Interp) addPC(c *Term) {
	in.learn(c, true)
	in.sol.Assert(c)
}

func (in *Interp) learn(c *Term, v bool) {
	if c.op == "not" {
		in.learn(c.args[0], !v)
		return
	}
	in.known[c] = v
	in.fpFact(c, v)
	if v && c.op == "and" || !v && c.op == "or" {
		in.learn(c.args[0], v)
		in.learn(c.args[1], v)
	}
}

func (in *Interp) knownVal(c *Term) (bool, bool) {
	if c.IsConst() {
		return c.u == 1, true
	}
	if c.op == "not" {
		v, ok := in.knownVal(c.args[0])
		return !v, ok
	}
	v, ok := in.known[c]
	return v, ok
}

func (in *Interp) nextDec(k byte) (dec, bool) {
	i := len(in.decs)
	if i >= len(in.prefix) {
		return dec{}, false
	}
	d := in.prefix[i]
	if d.k|32 != k|32 {
		panic(unsupported(fmt.Sprintf("replay of decisions diverged (%c at %d, want %c)", d.k, i, k)))
	}
	in.decs = append(in.decs, d)
	return d, true
}

func (in *Interp) pushAlt(d dec) {
	p := make([]dec, len(in.decs)+1)
	copy(p, in.decs)
	p[len(in.decs)] = d
	if in.trace {
		fmt.Fprintf(os.Stderr, "%*sFORK %c %d\n", in.depth, "", d.k, d.v)
	}
	in.alts = append(in.alts, p)
}

func (in *Interp) branch(v Value) bool {
	if b, ok := v.(bool); ok {
		return b
	}
	c, ok := v.(*Term)
	if !ok {
		panic(unsupported(fmt.Sprintf("branch on %T", v)))
	}
	if r, ok := in.knownVal(c); ok {
		return r
	}
	if d, ok := in.nextDec('b'); ok {
		if d.k == 'B' { // implied
			in.learn(c, d.v == 1)
			return d.v == 1
		}
		if d.v == 1 {
			in.addPC(c)
		} else {
			in.addPC(in.b.Not(c))
		}
		return d.v == 1
	}
	rt, _ := in.sol.Check(c, false)
	if rt == Unsat {
		in.decs = append(in.decs, dec{'B', 0})
		in.learn(c, false)
		return false
	}
	rf, _ := in.sol.Check(in.b.Not(c), false)
	if rf == Unsat {
		in.decs = append(in.decs, dec{'B', 1})
		in.learn(c, true)
		if rt == Unknown {
			in.uncert = true
		}
		return true
	}
	if rt == Unknown || rf == Unknown {
		in.uncert = true
	}
	in.pushAlt(dec{'b', 0})
	in.decs = append(in.decs, dec{'b', 1})
	in.addPC(c)
	return true
}

// choose forks n ways without involving the solver.
func (in *Interp) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if d, ok := in.nextDec('c'); ok {
		return int(d.v)
	}
	for i := n - 1; i >= 1; i-- {
		in.pushAlt(dec{'c', int64(i)})
	}
	in.decs = append(in.decs, dec{'c', 0})
	return 0
}

const maxConcretize = 2200

// concretizeInt forks over every feasible value of a symbolic integer.
func (in *Interp) concretizeInt(v Value, signed bool) int64 {
	switch x := v.(type) {
	case int64:
		return x
	case *Chunk:
		return '1'
	case *Term:
		if x.IsConst() {
			return in.constInt(x, signed)
		}
		if d, ok := in.nextDec('v'); ok {
			eq := in.b.Eq(x, in.intConst(d.v, x.sort))
			if d.k == 'V' {
				in.learn(eq, true)
			} else {
				in.addPC(eq)
			}
			return d.v
		}
		qs, r := in.sol.Enumerate(x, maxConcretize)
		if r == Unknown {
			panic(unsupported("solver gave up enumerating " + x.String()))
		}
		if r == Sat {
			panic(unsupported("symbolic value with too many values: " + x.String()))
		}
		var vals []int64
		for _, q := range qs {
			vals = append(vals, in.mvalInt(q, signed))
		}
		if len(vals) == 0 {
			panic(pathEnd{kind: endInfeasible})
		}
		// deterministic order
		for i := 1; i < len(vals); i++ {
			for j := i; j > 0 && vals[j] < vals[j-1]; j-- {
				vals[j], vals[j-1] = vals[j-1], vals[j]
			}
		}
		eq := in.b.Eq(x, in.intConst(vals[0], x.sort))
		if len(vals) == 1 {
			in.decs = append(in.decs, dec{'V', vals[0]})
			in.learn(eq, true)
			return vals[0]
		}
		for i := len(vals) - 1; i >= 1; i-- {
			in.pushAlt(dec{'v', vals[i]})
		}
		in.decs = append(in.decs, dec{'v', vals[0]})
		in.addPC(eq)
		return vals[0]
	}
	panic(unsupported(fmt.Sprintf("integer expected, got %T", v)))
}

func (in *Interp) intConst(v int64, s Sort) *Term {
	if s.K == KInt {
		return in.b.Int(v)
	}
	return in.b.BV(uint64(v), int(s.W))
}

func (in *Interp) constInt(t *Term, signed bool) int64 {
	if t.sort.K == KInt {
		n := t.q.Num()
		if n.IsInt64() {
			return n.Int64()
		}
		return int64(n.Uint64())
	}
	if signed {
		return sext(t.u, t.sort.W)
	}
	return int64(t.u)
}

func (in *Interp) mvalInt(q MVal, signed bool) int64 {
	if q.Sort.K == KInt {
		n := q.Q.Num()
		if n.IsInt64() {
			return n.Int64()
		}
		return int64(n.Uint64())
	}
	if signed {
		return sext(q.U, q.Sort.W)
	}
	return int64(q.U)
}

func (in *Interp) assume(v Value) {
	switch c := v.(type) {
	case bool:
		if !c {
			panic(pathEnd{kind: endAssume})
		}
	case *Term:
		if r, ok := in.knownVal(c); ok {
			if !r {
				panic(pathEnd{kind: endAssume})
			}
			return
		}
		replay := len(in.decs) < len(in.prefix)
		in.addPC(c)
		if !replay {
			if r, _ := in.sol.Check(nil, false); r == Unsat {
				panic(pathEnd{kind: endAssume})
			}
		}
	}
}

// guess asks whether nc can hold with all real inputs pinned to given values of
// their ranges, which is much easier to answer than in general. It never
// reports Unsat.
func (in *Interp) guess(nc *Term) (Res, Model) {
	first, last, parts := 0, 4, int64(16)
	if in.r32 != nil { // values that are no 32-bit numbers
		first, last, parts = 4, 7, 17
	}
	for k := first; k < last; k++ {
		c, n := nc, 0
		for i, x := range in.inputs {
			if x.t == nil || x.t.sort.K != KReal || x.lo >= x.hi {
				continue
			}
			n++
			h := uint32(i+1)*2654435761 + uint32(k)*40503*uint32(i+7)
			q := int64((h>>16)%15) + 1
			w := new(big.Rat).SetFloat64(x.hi - x.lo)
			v := new(big.Rat).SetFloat64(x.lo)
			if w == nil || v == nil {
				return Unknown, nil
			}
			v.Add(v, w.Mul(w, big.NewRat(q, parts)))
			c = in.b.And(c, in.b.Eq(x.t, in.b.Real(v)))
		}
		if n == 0 {
			return Unknown, nil
		}
		if r, m, _ := in.sol.OneShot(c, true, 3*time.Second); r == Sat {
			return Sat, m
		}
	}
	return Unknown, nil
}

// assert decides an assertion for all values of the path.
func (in *Interp) assert(v Value, msg string) {
	in.nassert++
	switch c := v.(type) {
	case bool:
		if !c {
			panic(pathEnd{kind: endViolation, cls: "assert", msg: msg})
		}
	case *Term:
		if r, ok := in.knownVal(c); ok {
			if !r {
				panic(pathEnd{kind: endViolation, cls: "assert", msg: msg})
			}
			return
		}
		if len(in.decs) < len(in.prefix) {
			return // decided on the path this one branched off
		}
		nc := in.b.Not(c)
		r, m := in.sol.Check(nc, true)
		if r == Unknown && in.probe != nil && in.probe(msg, nc) {
			panic(pathEnd{kind: endAssume}) // reported
		}
		if r == Unknown {
			r, m = in.guess(nc)
		}
		if r == Unknown {
			r, m, _ = in.sol.OneShot(nc, true, time.Duration(in.h.OneShotS)*time.Second)
		}
		switch r {
		case Unsat:
			in.w.proved.Add(1)
			in.learn(c, true)
		case Sat:
			in.model = m
			panic(pathEnd{kind: endViolation, cls: "assert", msg: msg})
		default:
			in.inconcl = append(in.inconcl, "assertion undecided: "+msg)
			in.uncert = true
			in.addPC(c)
		}
	default:
		panic(unsupported(fmt.Sprintf("assert on %T", v)))
	}
}

// ---- term construction ----

func (in *Interp) norm(t *Term, ti *tinfo) Value {
	if !t.IsConst() {
		return t
	}
	switch t.sort.K {
	case KBool:
		return t.u == 1
	case KBV, KInt:
		return in.constInt(t, ti == nil || ti.k == tkInt)
	case KFP64, KFP32:
		return t.fv()
	case KReal:
		f, exact := t.q.Float64()
		if exact {
			return f
		}
		return t
	}
	return t
}

func (in *Interp) intTerm(v Value, ti *tinfo) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case int64:
		if in.math {
			if ti.k == tkUint && ti.w == 64 {
				return in.b.IntBig(new(big.Int).SetUint64(uint64(x)))
			}
			return in.b.Int(x)
		}
		return in.b.BV(uint64(x), int(ti.w))
	case *Chunk:
		return in.intTerm(int64('1'), ti)
	}
	panic(unsupported(fmt.Sprintf("int term of %T", v)))
}

func (in *Interp) floatTerm(v Value, ti *tinfo) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case float64:
		if in.math {
			return in.b.Real(new(big.Rat).SetFloat64(x))
		}
		if ti.w == 32 {
			return in.b.FP32(float32(x))
		}
		return in.b.FP(x)
	}
	panic(unsupported(fmt.Sprintf("float term of %T", v)))
}

func (in *Interp) boolTerm(v Value) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case bool:
		return in.b.Bool(x)
	}
	panic(unsupported(fmt.Sprintf("bool term of %T", v)))
}

// wrapInt reduces an Int-sorted term to the range of a machine integer type.
func (in *Interp) wrapInt(t *Term, ti *tinfo) *Term {
	if t.lo != nil && t.lo.Cmp(ti.min) >= 0 && t.hi.Cmp(ti.max) <= 0 {
		return t
	}
	if t.IsConst() {
		return in.b.IntBig(wrapBig(t.q.Num(), ti))
	}
	lo, hi := in.b.IntBig(ti.min), in.b.IntBig(ti.max)
	ok := in.b.And(in.b.ACmp("<=", lo, t), in.b.ACmp("<=", t, hi))
	if in.branch(in.norm(ok, nil)) {
		return t
	}
	m := new(big.Int).Lsh(big.NewInt(1), uint(ti.w))
	sh := in.b.Arith("-", t, lo)
	return in.b.Arith("+", in.b.IDivMod("mod", sh, in.b.IntBig(m)), lo)
}

func wrapBig(n *big.Int, ti *tinfo) *big.Int {
	m := new(big.Int).Lsh(big.NewInt(1), uint(ti.w))
	r := new(big.Int).Sub(n, ti.min)
	r.Mod(r, m)
	return r.Add(r, ti.min)
}

func normInt(x int64, ti *tinfo) int64 {
	switch {
	case ti.w == 64:
		return x
	case ti.k == tkInt:
		return sext(uint64(x), ti.w)
	default:
		return int64(uint64(x) & mask(ti.w))
	}
}

// ---- operators ----

func (in *Interp) unop(fr *frame, s *ssa.UnOp, x *ins) Value {
	v := fr.get(&x.op[0])
	switch s.Op {
	case token.MUL:
		return in.load(v)
	case token.ARROW:
		ch, _ := v.(*Chan)
		r, ok := in.sch.recv(ch)
		if !ok {
			r = in.zero(s.X.Type().Underlying().(*types.Chan).Elem())
		}
		if s.CommaOk {
			return Tuple{r, ok}
		}
		return r
	case token.NOT:
		switch b := v.(type) {
		case bool:
			return !b
		case *Term:
			return in.norm(in.b.Not(b), nil)
		}
	case token.SUB:
		ti := in.ti(s.X.Type())
		switch ti.k {
		case tkInt, tkUint:
			return in.binop(token.SUB, s.X.Type(), int64(0), v, s.X.Type())
		case tkFloat:
			switch f := v.(type) {
			case float64:
				return -f
			case *Term:
				if in.math {
					return in.norm(in.b.Arith("*", in.b.Real(big.NewRat(-1, 1)), f), ti)
				}
				return in.norm(in.b.FPUn("fp.neg", f), ti)
			}
		case tkComplex:
			return -v.(complex128)
		}
	case token.XOR:
		ti := in.ti(s.X.Type())
		switch i := v.(type) {
		case int64:
			return normInt(^i, ti)
		case *Term:
			if in.math { // ^x = -x-1 (signed) or max-x (unsigned)
				if ti.k == tkInt {
					return in.norm(in.b.Arith("-", in.b.Int(-1), i), ti)
				}
				return in.norm(in.b.Arith("-", in.b.IntBig(ti.max), i), ti)
			}
			return in.norm(in.b.BVNot(i), ti)
		}
	}
	panic(unsupported(fmt.Sprintf("unary %s on %T", s.Op, v)))
}

func (in *Interp) binop(op token.Token, t types.Type, x, y Value, ty types.Type) Value {
	switch op {
	case token.EQL:
		return in.equal(t, x, y)
	case token.NEQ:
		r := in.equal(t, x, y)
		switch b := r.(type) {
		case bool:
			return !b
		case *Term:
			return in.norm(in.b.Not(b), nil)
		}
	}
	ti := in.ti(t)
	switch ti.k {
	case tkInt, tkUint:
		if a, ok := x.(int64); ok {
			if b, ok := y.(int64); ok {
				return in.intOp(op, ti, a, b, ty)
			}
		}
		return in.intSym(op, ti, x, y, ty)
	case tkFloat:
		if a, ok := x.(float64); ok {
			if b, ok := y.(float64); ok {
				return floatOp(op, ti, a, b)
			}
		}
		return in.floatSym(op, ti, x, y)
	case tkString:
		switch op {
		case token.ADD:
			return catStr(x, y)
		default:
			a, ok1 := x.(string)
			b, ok2 := y.(string)
			if ok1 && ok2 {
				switch op {
				case token.LSS:
					return a < b
				case token.LEQ:
					return a <= b
				case token.GTR:
					return a > b
				case token.GEQ:
					return a >= b
				}
			}
			switch op {
			case token.LSS:
				return in.norm(in.strLess(x, y), nil)
			case token.GTR:
				return in.norm(in.strLess(y, x), nil)
			case token.LEQ:
				return in.norm(in.b.Not(in.strLess(y, x)), nil)
			case token.GEQ:
				return in.norm(in.b.Not(in.strLess(x, y)), nil)
			}
		}
	case tkBool:
		// SSA has no && / ||; only via intrinsics
	case tkComplex:
		a, b := x.(complex128), y.(complex128)
		switch op {
		case token.ADD:
			return a + b
		case token.SUB:
			return a - b
		case token.MUL:
			return a * b
		case token.QUO:
			return a / b
		}
	}
	panic(unsupported(fmt.Sprintf("binary %s on %T %T (%s)", op, x, y, t)))
}

func (in *Interp) intOp(op token.Token, ti *tinfo, a, b int64, ty types.Type) Value {
	u := ti.k == tkUint
	switch op {
	case token.ADD:
		return normInt(a+b, ti)
	case token.SUB:
		return normInt(a-b, ti)
	case token.MUL:
		return normInt(a*b, ti)
	case token.QUO:
		if b == 0 {
			in.goPanicStr("integer divide by zero")
		}
		if u {
			return int64(uint64(a) / uint64(b))
		}
		if b == -1 {
			return normInt(-a, ti)
		}
		return normInt(a/b, ti)
	case token.REM:
		if b == 0 {
			in.goPanicStr("integer divide by zero")
		}
		if u {
			return int64(uint64(a) % uint64(b))
		}
		if b == -1 {
			return int64(0)
		}
		return a % b
	case token.AND:
		return a & b
	case token.OR:
		return a | b
	case token.XOR:
		return normInt(a^b, ti)
	case token.AND_NOT:
		return a &^ b
	case token.SHL, token.SHR:
		ty := in.ti(ty)
		if ty.k == tkInt && b < 0 {
			in.goPanicStr("negative shift amount")
		}
		n := uint64(b)
		if op == token.SHL {
			if n >= 64 {
				return int64(0)
			}
			return normInt(a<<n, ti)
		}
		if u {
			if n >= 64 {
				return int64(0)
			}
			return int64(uint64(a) >> n)
		}
		if n >= 64 {
			n = 63
		}
		return a >> n
	case token.LSS:
		if u {
			return uint64(a) < uint64(b)
		}
		return a < b
	case token.LEQ:
		if u {
			return uint64(a) <= uint64(b)
		}
		return a <= b
	case token.GTR:
		if u {
			return uint64(a) > uint64(b)
		}
		return a > b
	case token.GEQ:
		if u {
			return uint64(a) >= uint64(b)
		}
		return a >= b
	}
	panic(unsupported("int op " + op.String()))
}

func (in *Interp) intSym(op token.Token, ti *tinfo, x, y Value, tyy types.Type) Value {
	b := in.b
	if op == token.SHL || op == token.SHR {
		// the count may have another type
		ty := in.ti(tyy)
		n := in.concretizeInt(y, ty.k == tkInt)
		if ty.k == tkInt && n < 0 {
			in.goPanicStr("negative shift amount")
		}
		if c, ok := x.(int64); ok {
			return in.intOp(op, ti, c, n, tyy)
		}
		t := in.intTerm(x, ti)
		if in.math {
			if op == token.SHL {
				if n >= int64(ti.w) {
					return int64(0)
				}
				return in.norm(in.wrapInt(b.Arith("*", t, b.IntBig(new(big.Int).Lsh(big.NewInt(1), uint(n)))), ti), ti)
			}
			if n >= int64(ti.w) {
				n = int64(ti.w)
			}
			return in.norm(b.IDivMod("div", t, b.IntBig(new(big.Int).Lsh(big.NewInt(1), uint(n)))), ti)
		}
		if n >= int64(ti.w) {
			if op == token.SHL || ti.k == tkUint {
				return int64(0)
			}
			n = int64(ti.w) - 1
		}
		o := "bvshl"
		if op == token.SHR {
			o = "bvlshr"
			if ti.k == tkInt {
				o = "bvashr"
			}
		}
		return in.norm(b.BVOp(o, t, b.BV(uint64(n), int(ti.w))), ti)
	}
	p, q := in.intTerm(x, ti), in.intTerm(y, ti)
	if p.sort != q.sort {
		panic(unsupported(fmt.Sprintf("int op %s sorts %v %v", op, p.sort, q.sort)))
	}
	if in.math {
		switch op {
		case token.ADD:
			return in.norm(in.wrapInt(b.Arith("+", p, q), ti), ti)
		case token.SUB:
			return in.norm(in.wrapInt(b.Arith("-", p, q), ti), ti)
		case token.MUL:
			return in.norm(in.wrapInt(b.Arith("*", p, q), ti), ti)
		case token.QUO, token.REM:
			zero := b.Int(0)
			if in.branch(in.norm(b.Eq(q, zero), nil)) {
				in.goPanicStr("integer divide by zero")
			}
			// truncated division from Euclidean division by cases on signs
			xneg := in.branch(in.norm(b.ACmp("<", p, zero), nil))
			yneg := in.branch(in.norm(b.ACmp("<", q, zero), nil))
			ap, aq := p, q
			if xneg {
				ap = b.Arith("-", zero, p)
			}
			if yneg {
				aq = b.Arith("-", zero, q)
			}
			if op == token.QUO {
				r := b.IDivMod("div", ap, aq)
				if xneg != yneg {
					r = b.Arith("-", zero, r)
				}
				return in.norm(in.wrapInt(r, ti), ti)
			}
			r := b.IDivMod("mod", ap, aq)
			if xneg {
				r = b.Arith("-", zero, r)
			}
			return in.norm(r, ti)
		case token.LSS:
			return in.norm(b.ACmp("<", p, q), nil)
		case token.LEQ:
			return in.norm(b.ACmp("<=", p, q), nil)
		case token.GTR:
			return in.norm(b.ACmp("<", q, p), nil)
		case token.GEQ:
			return in.norm(b.ACmp("<=", q, p), nil)
		case token.AND:
			// x & (2^k-1) with x >= 0
			for _, pr := range [2][2]*Term{{p, q}, {q, p}} {
				if pr[1].IsConst() && pr[1].q.Sign() >= 0 {
					m := new(big.Int).Add(pr[1].q.Num(), big.NewInt(1))
					if m.Sign() > 0 && new(big.Int).And(m, pr[1].q.Num()).Sign() == 0 {
						return in.norm(b.IDivMod("mod", pr[0], b.IntBig(m)), ti)
					}
				}
			}
			return in.intOp(op, ti, in.concretizeInt(x, ti.k == tkInt), in.concretizeInt(y, ti.k == tkInt), tyy)
		case token.OR, token.XOR, token.AND_NOT:
			return in.intOp(op, ti, in.concretizeInt(x, ti.k == tkInt), in.concretizeInt(y, ti.k == tkInt), tyy)
		}
		panic(unsupported("math int op " + op.String()))
	}
	sg := ti.k == tkInt
	pick := func(s, u string) string {
		if sg {
			return s
		}
		return u
	}
	switch op {
	case token.ADD:
		return in.norm(b.BVOp("bvadd", p, q), ti)
	case token.SUB:
		return in.norm(b.BVOp("bvsub", p, q), ti)
	case token.MUL:
		return in.norm(b.BVOp("bvmul", p, q), ti)
	case token.AND:
		return in.norm(b.BVOp("bvand", p, q), ti)
	case token.OR:
		return in.norm(b.BVOp("bvor", p, q), ti)
	case token.XOR:
		return in.norm(b.BVOp("bvxor", p, q), ti)
	case token.AND_NOT:
		return in.norm(b.BVOp("bvand", p, b.BVNot(q)), ti)
	case token.QUO, token.REM:
		if in.branch(in.norm(b.Eq(q, b.BV(0, int(ti.w))), nil)) {
			in.goPanicStr("integer divide by zero")
		}
		if op == token.QUO {
			return in.norm(b.BVOp(pick("bvsdiv", "bvudiv"), p, q), ti)
		}
		return in.norm(b.BVOp(pick("bvsrem", "bvurem"), p, q), ti)
	case token.LSS:
		return in.norm(b.BVCmp(pick("bvslt", "bvult"), p, q), nil)
	case token.LEQ:
		return in.norm(b.BVCmp(pick("bvsle", "bvule"), p, q), nil)
	case token.GTR:
		return in.norm(b.BVCmp(pick("bvslt", "bvult"), q, p), nil)
	case token.GEQ:
		return in.norm(b.BVCmp(pick("bvsle", "bvule"), q, p), nil)
	}
	panic(unsupported("int op " + op.String()))
}

func floatOp(op token.Token, ti *tinfo, a, b float64) Value {
	r := func(f float64) Value {
		if ti.w == 32 {
			return float64(float32(f))
		}
		return f
	}
	switch op {
	case token.ADD:
		return r(a + b)
	case token.SUB:
		return r(a - b)
	case token.MUL:
		return r(a * b)
	case token.QUO:
		return r(a / b)
	case token.LSS:
		return a < b
	case token.LEQ:
		return a <= b
	case token.GTR:
		return a > b
	case token.GEQ:
		return a >= b
	}
	panic(unsupported("float op " + op.String()))
}

func isSpecial(v Value) (float64, bool) {
	f, ok := v.(float64)
	if !ok {
		return 0, false
	}
	return f, math.IsInf(f, 0) || f != f
}

func (in *Interp) floatSym(op token.Token, ti *tinfo, x, y Value) Value {
	b := in.b
	if in.math {
		if f, ok := isSpecial(x); ok {
			return in.specialOp(op, f, true, y.(*Term))
		}
		if f, ok := isSpecial(y); ok {
			return in.specialOp(op, f, false, x.(*Term))
		}
		p, q := in.floatTerm(x, ti), in.floatTerm(y, ti)
		switch op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			p, q = b.cn.rep(p), b.cn.rep(q)
		}
		switch op {
		case token.ADD:
			return in.rounded(b.Arith("+", p, q), ti)
		case token.SUB:
			return in.rounded(b.Arith("-", p, q), ti)
		case token.MUL:
			return in.rounded(b.Arith("*", p, q), ti)
		case token.QUO:
			zero := b.Real(new(big.Rat))
			q = b.cn.rep(q)
			if b.cn.sign(q) < 2 && in.branch(in.norm(b.Eq(q, zero), nil)) {
				if in.branch(in.norm(b.Eq(p, zero), nil)) {
					return math.NaN()
				}
				if in.branch(in.norm(b.ACmp("<", zero, p), nil)) {
					return math.Inf(1)
				}
				return math.Inf(-1)
			}
			return in.rounded(b.Arith("/", p, q), ti)
		case token.LSS:
			return in.norm(b.ACmp("<", p, q), nil)
		case token.LEQ:
			return in.norm(b.ACmp("<=", p, q), nil)
		case token.GTR:
			return in.norm(b.ACmp("<", q, p), nil)
		case token.GEQ:
			return in.norm(b.ACmp("<=", q, p), nil)
		}
		panic(unsupported("float op " + op.String()))
	}
	p, q := in.floatTerm(x, ti), in.floatTerm(y, ti)
	switch op {
	case token.ADD:
		return in.norm(b.FPOp("fp.add RNE", p, q), ti)
	case token.SUB:
		return in.norm(b.FPOp("fp.sub RNE", p, q), ti)
	case token.MUL:
		return in.norm(b.FPOp("fp.mul RNE", p, q), ti)
	case token.QUO:
		return in.norm(b.FPOp("fp.div RNE", p, q), ti)
	case token.LSS:
		return in.norm(in.fpCmp("fp.lt", p, q), nil)
	case token.LEQ:
		return in.norm(in.fpCmp("fp.leq", p, q), nil)
	case token.GTR:
		return in.norm(in.fpCmp("fp.lt", q, p), nil)
	case token.GEQ:
		return in.norm(in.fpCmp("fp.leq", q, p), nil)
	}
	panic(unsupported("float op " + op.String()))
}

// rounded is the value of type ti that the real x becomes in math mode: x itself
// for 64 bits (whose rounding is left out), the nearest 32-bit number otherwise.
// It forks over the exponents x can have.
func (in *Interp) rounded(x *Term, ti *tinfo) Value {
	b := in.b
	if ti.w != 32 || in.widened(x) {
		return in.norm(x, ti)
	}
	if x.IsConst() {
		f, _ := x.q.Float32()
		return float64(f)
	}
	if r, ok := in.r32[x]; ok {
		return r
	}
	zero := b.Real(new(big.Rat))
	pow := func(e int) *big.Rat {
		r := new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), uint(max(e, -e))))
		if e < 0 {
			r.Inv(r)
		}
		return r
	}
	ax, neg := x, in.branch(in.norm(b.ACmp("<", x, zero), nil))
	if neg {
		ax = b.Arith("-", zero, x)
	}
	atLeast := func(e int) bool { return in.branch(in.norm(b.ACmp("<=", b.Real(pow(e)), ax), nil)) }
	lo, hi := -126, 128 // smaller numbers have the same spacing as 2^-126
	if atLeast(hi) {
		panic(unsupported("number beyond the range of float32"))
	}
	for hi-lo > 1 {
		if m := (lo + hi) / 2; atLeast(m) {
			lo = m
		} else {
			hi = m
		}
	}
	n := b.Var(fmt.Sprintf("r32!%d", x.id), SInt)
	d := b.Arith("-", b.Arith("*", ax, b.Real(pow(23-lo))), b.ToReal(n))
	half := big.NewRat(1, 2)
	c := b.And(b.ACmp("<=", d, b.Real(half)), b.ACmp("<=", b.Real(new(big.Rat).Neg(half)), d))
	if _, ok := in.known[c]; !ok {
		in.addPC(c)
	}
	k := pow(lo - 23)
	if neg {
		k.Neg(k)
	}
	r := b.Arith("*", b.ToReal(n), b.Real(k))
	if in.r32 == nil {
		in.r32 = map[*Term]*Term{}
	}
	in.r32[x], in.r32[r] = r, r
	return r
}

// widened reports whether x is known to be a 32-bit number.
func (in *Interp) widened(x *Term) bool { return in.r32[x] == x }

// specialOp: Inf/NaN combined with a finite symbolic real.
func (in *Interp) specialOp(op token.Token, f float64, left bool, t *Term) Value {
	// the sign of t decides
	zero := in.b.Real(new(big.Rat))
	var g float64
	switch {
	case f != f, op == token.ADD, op == token.SUB, op == token.LSS, op == token.LEQ, op == token.GTR, op == token.GEQ:
		g = 1
	case in.branch(in.norm(in.b.Eq(t, zero), nil)):
		g = 0
	case in.branch(in.norm(in.b.ACmp("<", zero, t), nil)):
		g = 1
	default:
		g = -1
	}
	a, b := g, f
	if left {
		a, b = f, g
	}
	return floatOp(op, &tinfo{w: 64, k: tkFloat}, a, b)
}

// ---- equality ----

func (in *Interp) equal(t types.Type, x, y Value) Value {
	ti := in.ti(t)
	switch ti.k {
	case tkBool:
		a, ok1 := x.(bool)
		b, ok2 := y.(bool)
		if ok1 && ok2 {
			return a == b
		}
		return in.norm(in.b.Eq(in.boolTerm(x), in.boolTerm(y)), nil)
	case tkInt, tkUint:
		a, ok1 := x.(int64)
		b, ok2 := y.(int64)
		if ok1 && ok2 {
			return a == b
		}
		return in.eqInt(ti, x, y)
	case tkFloat:
		a, ok1 := x.(float64)
		b, ok2 := y.(float64)
		if ok1 && ok2 {
			return a == b
		}
		if in.math {
			if _, s := isSpecial(x); s {
				return false
			}
			if _, s := isSpecial(y); s {
				return false
			}
			return in.norm(in.b.Eq(in.floatTerm(x, ti), in.floatTerm(y, ti)), nil)
		}
		return in.norm(in.b.FPCmp("fp.eq", in.floatTerm(x, ti), in.floatTerm(y, ti)), nil)
	case tkComplex:
		return x.(complex128) == y.(complex128)
	case tkString:
		a, ok1 := x.(string)
		b, ok2 := y.(string)
		if ok1 && ok2 {
			return a == b
		}
		return in.norm(in.strEq(x, y), nil)
	case tkPtr, tkChan, tkMap:
		return x == y
	case tkUnsafe:
		return x.(UnsafePtr).p == y.(UnsafePtr).p
	case tkFunc:
		return isNilFn(x) && isNilFn(y)
	case tkSlice:
		a, _ := x.(Slice)
		b, _ := y.(Slice)
		return a == nil && b == nil
	case tkStruct:
		s := ti.u.(*types.Struct)
		a, b := x.(Struct), y.(Struct)
		var acc Value = true
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == "_" {
				continue
			}
			acc = in.andV(acc, in.equal(s.Field(i).Type(), a[i], b[i]))
			if acc == false {
				return false
			}
		}
		return acc
	case tkArray:
		e := ti.u.(*types.Array).Elem()
		a, b := x.(Array), y.(Array)
		var acc Value = true
		for i := range a {
			acc = in.andV(acc, in.equal(e, a[i], b[i]))
			if acc == false {
				return false
			}
		}
		return acc
	case tkIface:
		a, b := x.(Iface), y.(Iface)
		if a.t == nil || b.t == nil {
			return a.t == nil && b.t == nil
		}
		if a.t != b.t && !types.Identical(a.t, b.t) {
			return false
		}
		if !types.Comparable(a.t) {
			in.goPanicStr("comparing uncomparable type " + a.t.String())
		}
		return in.equal(a.t, a.v, b.v)
	}
	panic(unsupported("equality of " + t.String()))
}

func isNilFn(v Value) bool {
	switch f := v.(type) {
	case nil:
		return true
	case *ssa.Function:
		return f == nil
	case *Closure:
		return f == nil
	}
	return false
}

func (in *Interp) eqInt(ti *tinfo, x, y Value) Value {
	if c, ok := x.(*Chunk); ok {
		if d, ok := y.(*Chunk); ok {
			return in.chunkEq(c, d)
		}
	}
	return in.norm(in.b.Eq(in.intTerm(x, ti), in.intTerm(y, ti)), nil)
}

func (in *Interp) chunkEq(c, d *Chunk) Value {
	if c == d || c.t == d.t && c.verb == d.verb {
		return true
	}
	panic(unsupported("comparison of printed symbolic numbers"))
}

func (in *Interp) andV(a, b Value) Value {
	if a == true {
		return b
	}
	if b == true {
		return a
	}
	if a == false || b == false {
		return false
	}
	return in.norm(in.b.And(in.boolTerm(a), in.boolTerm(b)), nil)
}

func (in *Interp) byteTI() *tinfo { return in.ti(types.Typ[types.Uint8]) }

func (in *Interp) strEq(x, y Value) *Term {
	a, b := strBytes(x), strBytes(y)
	if len(a) != len(b) {
		return in.b.F
	}
	acc := in.b.T
	for i := range a {
		if p, ok := a[i].(int64); ok {
			if q, ok := b[i].(int64); ok {
				if p != q {
					return in.b.F
				}
				continue
			}
		}
		acc = in.b.And(acc, in.boolTerm(in.eqInt(in.byteTI(), a[i], b[i])))
	}
	return acc
}

func (in *Interp) strLess(x, y Value) *Term {
	a, b := strBytes(x), strBytes(y)
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	r := in.b.Bool(len(a) < len(b))
	ti := in.byteTI()
	for i := n - 1; i >= 0; i-- {
		lt := in.boolTerm(in.binop(token.LSS, types.Typ[types.Uint8], a[i], b[i], types.Typ[types.Uint8]))
		eq := in.boolTerm(in.eqInt(ti, a[i], b[i]))
		r = in.b.Or(lt, in.b.And(eq, r))
	}
	return r
}

// ---- conversions ----

func (in *Interp) convert(from, to types.Type, v Value) Value {
	f, t := in.ti(from), in.ti(to)
	switch {
	case (f.k == tkInt || f.k == tkUint) && (t.k == tkInt || t.k == tkUint):
		switch x := v.(type) {
		case int64:
			return normInt(x, t)
		case *Chunk:
			return x
		case *Term:
			if in.math {
				return in.norm(in.wrapInt(x, t), t)
			}
			return in.norm(in.b.Extend(x, int(t.w), f.k == tkInt), t)
		}
	case (f.k == tkInt || f.k == tkUint) && t.k == tkFloat:
		switch x := v.(type) {
		case int64:
			if f.k == tkUint {
				return floatTo(float64(uint64(x)), t)
			}
			return floatTo(float64(x), t)
		case *Term:
			if in.math {
				return in.rounded(in.b.ToReal(x), t)
			}
			op := "(_ to_fp 11 53) RNE"
			s := SFP64
			if t.w == 32 {
				op, s = "(_ to_fp 8 24) RNE", SFP32
			}
			if f.k == tkUint {
				op = op[:7] + "_unsigned" + op[7:]
				op = "(_ to_fp_unsigned 11 53) RNE"
				if t.w == 32 {
					op = "(_ to_fp_unsigned 8 24) RNE"
				}
			}
			return in.b.App(op, s, x)
		}
	case f.k == tkFloat && t.k == tkFloat:
		switch x := v.(type) {
		case float64:
			return floatTo(x, t)
		case *Term:
			if f.w == t.w {
				return x
			}
			if in.math {
				return in.rounded(x, t)
			}
			if t.w == 32 {
				return in.norm(in.b.App("(_ to_fp 8 24) RNE", SFP32, x), t)
			}
			return in.norm(in.b.App("(_ to_fp 11 53) RNE", SFP64, x), t)
		}
	case f.k == tkFloat && (t.k == tkInt || t.k == tkUint):
		switch x := v.(type) {
		case float64:
			return in.floatToInt(x, t)
		case *Term:
			return in.floatToIntSym(x, t)
		}
	case f.k == tkComplex && t.k == tkComplex:
		return v
	case t.k == tkString:
		switch f.k {
		case tkString:
			return v
		case tkInt, tkUint:
			c := in.concretizeInt(v, f.k == tkInt)
			if c < 0 || c > utf8.MaxRune {
				c = utf8.RuneError
			}
			return string(rune(c))
		case tkSlice:
			s, _ := v.(Slice)
			if in.ti(f.u.(*types.Slice).Elem()).w == 8 {
				return mkStr(s)
			}
			var out []Value
			for _, r := range s {
				if tm, ok := r.(*Term); ok {
					if in.branch(in.binop(token.LSS, types.Typ[types.Uint32], tm, int64(0x80), types.Typ[types.Uint32])) {
						out = append(out, in.convert(types.Typ[types.Int32], types.Typ[types.Uint8], tm))
						continue
					}
				}
				if ch, ok := r.(*Chunk); ok {
					out = append(out, ch)
					continue
				}
				c := in.concretizeInt(r, true)
				var buf [4]byte
				n := utf8.EncodeRune(buf[:], rune(c))
				for _, bb := range buf[:n] {
					out = append(out, int64(bb))
				}
			}
			return mkStr(out)
		}
	case f.k == tkString && t.k == tkSlice:
		if in.ti(t.u.(*types.Slice).Elem()).w == 8 {
			bs := strBytes(v)
			return Slice(append(make([]Value, 0, len(bs)), bs...))
		}
		out := make(Slice, 0)
		for pos := 0; pos < strLen(v); {
			r, n := in.decodeRune(strBytes(v)[pos:])
			out = append(out, r)
			pos += n
		}
		return out
	case t.k == tkUnsafe:
		if u, ok := v.(UnsafePtr); ok {
			return u
		}
		return UnsafePtr{v}
	case f.k == tkUnsafe:
		u, _ := v.(UnsafePtr)
		if t.k == tkPtr {
			if u.p == nil {
				return (*Value)(nil)
			}
			return u.p
		}
		panic(unsupported("unsafe conversion"))
	case f.k == t.k:
		return v
	case f.k == tkSlice && t.k == tkArray:
		n := int(t.u.(*types.Array).Len())
		s, _ := v.(Slice)
		if len(s) < n {
			in.goPanicStr("cannot convert slice to array: length mismatch")
		}
		return copyVal(Array(s[:n]))
	}
	panic(unsupported(fmt.Sprintf("conversion %s -> %s of %T", from, to, v)))
}

func floatTo(x float64, t *tinfo) Value {
	if t.w == 32 {
		return float64(float32(x))
	}
	return x
}

func (in *Interp) floatToInt(x float64, t *tinfo) Value {
	if t.k == tkInt {
		if t.w == 64 {
			return int64(x)
		}
		return normInt(int64(x), t)
	}
	if t.w == 64 {
		return int64(uint64(x))
	}
	return normInt(int64(x), t)
}

func (in *Interp) floatToIntSym(x *Term, t *tinfo) Value {
	b := in.b
	if in.math {
		zero := b.Real(new(big.Rat))
		lo := b.Real(new(big.Rat).SetInt(new(big.Int).Sub(t.min, big.NewInt(1))))
		hi := b.Real(new(big.Rat).SetInt(new(big.Int).Add(t.max, big.NewInt(1))))
		if !in.branch(in.norm(b.And(b.ACmp("<", lo, x), b.ACmp("<", x, hi)), nil)) {
			panic(unsupported("float to integer conversion out of range"))
		}
		var r *Term
		if in.branch(in.norm(b.ACmp("<=", zero, x), nil)) {
			r = b.ToInt(x)
		} else {
			r = b.Arith("-", b.Int(0), b.ToInt(b.Arith("*", b.Real(big.NewRat(-1, 1)), x)))
		}
		r = b.bounds(r, t.min, t.max)
		return in.norm(r, t)
	}
	w := int(t.w)
	if t.k == tkInt && w == 64 {
		in64 := b.And(b.FPCmp("fp.leq", b.FP(-9223372036854775808), x), b.FPCmp("fp.lt", x, b.FP(9223372036854775808)))
		cv := b.App("(_ fp.to_sbv 64) RTZ", SBV(64), x)
		if l, h, ok := in.fpIntRange(x); ok {
			if l == h {
				return l
			}
			in.addPC(b.And(b.BVCmp("bvsle", b.BV(uint64(l), 64), cv), b.BVCmp("bvsle", cv, b.BV(uint64(h), 64))))
			return in.norm(cv, t)
		}
		return in.norm(b.Ite(in64, cv, b.BV(1<<63, 64)), t)
	}
	// other widths: only the in-range case is modelled
	lo, _ := new(big.Float).SetInt(t.min).Float64()
	hi, _ := new(big.Float).SetInt(t.max).Float64()
	ok := b.And(b.FPCmp("fp.lt", b.FP(lo-1), x), b.FPCmp("fp.lt", x, b.FP(hi+1)))
	if !in.branch(in.norm(ok, nil)) {
		panic(unsupported("float to integer conversion out of range"))
	}
	op := "(_ fp.to_sbv %d) RTZ"
	if t.k == tkUint {
		op = "(_ fp.to_ubv %d) RTZ"
	}
	return in.norm(b.App(fmt.Sprintf(op, w), SBV(w), x), t)
}

func (in *Interp) sliceToArrPtr(s *ssa.SliceToArrayPointer, v Value) Value {
	n := int(s.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
	sl, _ := v.(Slice)
	if len(sl) < n {
		in.goPanicStr("cannot convert slice to array pointer: length mismatch")
	}
	if sl == nil {
		return (*Value)(nil)
	}
	p := new(Value)
	*p = Array(sl[:n:n])
	return p
}

// ---- indexing ----

// index resolves an index into [0,n), forking the out-of-range case.
func (in *Interp) indexOK(v Value, n int, it types.Type) (int, *Term) {
	switch i := v.(type) {
	case int64:
		ti := in.ti(it)
		if ti.k == tkUint && i < 0 || i < 0 || i >= int64(n) {
			in.goPanicStr(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return int(i), nil
	case *Chunk:
		return in.indexOK(int64('1'), n, it)
	case *Term:
		ti := in.ti(it)
		var ok *Term
		if in.math {
			ok = in.b.And(in.b.ACmp("<=", in.b.Int(0), i), in.b.ACmp("<", i, in.b.Int(int64(n))))
		} else if ti.w < 64 && n > int(mask(ti.w)) {
			ok = in.b.T
			if ti.k == tkInt {
				ok = in.b.BVCmp("bvsle", in.b.BV(0, int(ti.w)), i)
			}
		} else {
			ok = in.b.BVCmp("bvult", i, in.b.BV(uint64(n), int(ti.w)))
		}
		if !in.branch(in.norm(ok, nil)) {
			in.goPanicStr(fmt.Sprintf("index out of range with length %d", n))
		}
		return -1, i
	}
	panic(unsupported(fmt.Sprintf("index %T", v)))
}

func scalarElems(b []Value) bool {
	for _, e := range b {
		switch e.(type) {
		case int64, float64, bool, *Term:
		default:
			return false
		}
	}
	return true
}

func (in *Interp) indexAddr(x, idx Value, it, elem types.Type) Value {
	var base []Value
	switch s := x.(type) {
	case Slice:
		base = s
	case *Value:
		if s == nil {
			in.nilDeref()
		}
		base = (*s).(Array)
	default:
		panic(unsupported(fmt.Sprintf("indexaddr of %T", x)))
	}
	i, t := in.indexOK(idx, len(base), it)
	if t == nil {
		return &base[i]
	}
	if len(base) >= 1 && scalarElems(base) {
		return &SymAddr{base, t, in.ti(elem)}
	}
	return &base[in.concretizeInt(t, in.ti(it).k == tkInt)]
}

func (in *Interp) indexVal(x, idx Value, it, elem types.Type) Value {
	var base []Value
	switch s := x.(type) {
	case Array:
		base = s
	case string:
		if i, ok := idx.(int64); ok {
			if i < 0 || i >= int64(len(s)) {
				in.goPanicStr(fmt.Sprintf("index out of range [%d] with length %d", i, len(s)))
			}
			return int64(s[i])
		}
		base = strBytes(s)
	case *SymStr:
		base = s.b
	default:
		panic(unsupported(fmt.Sprintf("index of %T", x)))
	}
	i, t := in.indexOK(idx, len(base), it)
	if t == nil {
		return base[i]
	}
	if scalarElems(base) {
		return in.selectElem(base, t, in.ti(elem))
	}
	return base[in.concretizeInt(t, in.ti(it).k == tkInt)]
}

type tableInfo struct {
	name string
	vals []float64
}

// selectElem reads base[idx] for a symbolic in-range index over scalar elements.
func (in *Interp) selectElem(base []Value, idx *Term, ti *tinfo) Value {
	b := in.b
	isF := ti.k == tkFloat
	conc := true
	for _, e := range base {
		if _, ok := e.(*Term); ok {
			conc = false
		}
	}
	distinct := map[Value]int{}
	if conc {
		for _, e := range base {
			distinct[e]++
		}
		if len(distinct) == 1 {
			return base[0]
		}
	}
	// of a large table only the entries that can be reached matter
	if len(base) > 64 {
		if qs, r := in.sol.Enumerate(idx, 40); r == Unsat && len(qs) > 0 {
			var is []int
			for _, q := range qs {
				if i := in.mvalInt(q, true); i >= 0 && i < int64(len(base)) {
					is = append(is, int(i))
				}
			}
			sort.Ints(is)
			if len(is) == 1 {
				return base[is[0]]
			}
			if ti.k == tkFloat || ti.k == tkInt || ti.k == tkUint {
				toT := func(e Value) *Term {
					if isF {
						return in.floatTerm(e, ti)
					}
					return in.intTerm(e, ti)
				}
				t := toT(base[is[len(is)-1]])
				for k := len(is) - 2; k >= 0; k-- {
					c := b.Eq(idx, in.intConst(int64(is[k]), idx.sort))
					t = b.Ite(c, toT(base[is[k]]), t)
				}
				return in.norm(t, ti)
			}
		}
	}
	// large concrete tables with many values: uninterpreted function keyed by
	// content (math mode), so that two reads at equal indices agree
	if conc && in.math && len(base) > 64 && len(distinct) > 32 {
		key := fmt.Sprint(base)
		tb := in.tables[key]
		if tb == nil {
			tb = &tableInfo{name: fmt.Sprintf("table%d_%d", len(in.tables), len(base))}
			for _, e := range base {
				switch x := e.(type) {
				case float64:
					tb.vals = append(tb.vals, x)
				case int64:
					tb.vals = append(tb.vals, float64(x))
				}
			}
			in.tables[key] = tb
		}
		s := SReal
		if !isF {
			s = SInt
		}
		r := b.UF(tb.name, s, idx)
		if isF {
			lo, hi := math.Inf(1), math.Inf(-1)
			for _, e := range base {
				lo, hi = math.Min(lo, e.(float64)), math.Max(hi, e.(float64))
			}
			if !math.IsInf(lo, 0) && !math.IsInf(hi, 0) {
				c := b.And(b.ACmp("<=", b.Real(new(big.Rat).SetFloat64(lo)), r), b.ACmp("<=", r, b.Real(new(big.Rat).SetFloat64(hi))))
				if _, ok := in.known[c]; !ok {
					in.addPC(c)
				}
			}
		}
		return r
	}
	toT := func(e Value) *Term {
		switch ti.k {
		case tkBool:
			return in.boolTerm(e)
		case tkFloat:
			return in.floatTerm(e, ti)
		}
		return in.intTerm(e, ti)
	}
	iconst := func(i int) *Term { return in.intConst(int64(i), idx.sort) }
	// most common value as default
	var def Value = base[len(base)-1]
	if conc {
		best := 0
		for _, e := range base {
			if distinct[e] > best {
				best, def = distinct[e], e
			}
		}
		groups := map[Value]*Term{}
		var order []Value
		if len(base)-best <= 80 {
			for i, e := range base {
				if e == def {
					continue
				}
				c := b.Eq(idx, iconst(i))
				if g, ok := groups[e]; ok {
					groups[e] = b.Or(g, c)
				} else {
					groups[e] = c
					order = append(order, e)
				}
			}
			r := toT(def)
			for k := len(order) - 1; k >= 0; k-- {
				r = b.Ite(groups[order[k]], toT(order[k]), r)
			}
			return in.norm(r, ti)
		}
	}
	// balanced tree
	var tree func(lo, hi int) *Term
	tree = func(lo, hi int) *Term {
		if hi-lo == 1 {
			return toT(base[lo])
		}
		m := (lo + hi) / 2
		var c *Term
		if in.math {
			c = b.ACmp("<", idx, iconst(m))
		} else {
			c = b.BVCmp("bvult", idx, iconst(m))
		}
		return b.Ite(c, tree(lo, m), tree(m, hi))
	}
	n := len(base)
	if !in.math && idx.sort.W < 63 && uint64(n) > mask(idx.sort.W)+1 {
		n = int(mask(idx.sort.W)) + 1
	}
	return in.norm(tree(0, n), ti)
}

func (in *Interp) slice(x, lo, hi, max Value) Value {
	var base []Value
	var str Value
	isStr := false
	switch s := x.(type) {
	case Slice:
		base = s
	case string, *SymStr:
		isStr = true
		str = s
	case *Value:
		if s == nil {
			in.nilDeref()
		}
		base = (*s).(Array)
	default:
		panic(unsupported(fmt.Sprintf("slice of %T", x)))
	}
	l, h := int64(0), int64(0)
	n, c := len(base), cap(base)
	if isStr {
		n = strLen(str)
		c = n
	}
	h = int64(n)
	if lo != nil {
		l = in.concretizeInt(lo, true)
	}
	if hi != nil {
		h = in.concretizeInt(hi, true)
	}
	m := int64(c)
	if max != nil {
		m = in.concretizeInt(max, true)
		if m < 0 || m > int64(c) {
			in.goPanicStr(fmt.Sprintf("slice bounds out of range [::%d] with capacity %d", m, c))
		}
	}
	if isStr && h > int64(n) || h < 0 || h > m {
		in.goPanicStr(fmt.Sprintf("slice bounds out of range [:%d] with capacity %d", h, m))
	}
	if l < 0 || l > h {
		in.goPanicStr(fmt.Sprintf("slice bounds out of range [%d:%d]", l, h))
	}
	if isStr {
		if s, ok := str.(string); ok {
			return s[l:h]
		}
		return mkStr(str.(*SymStr).b[l:h])
	}
	if base == nil {
		return Slice(nil)
	}
	return Slice(base[l:h:m])
}

func (in *Interp) makeSlice(t types.Type, ln, cp Value) Value {
	n := in.concretizeInt(ln, true)
	c := in.concretizeInt(cp, true)
	const lim = 1 << 24
	if n < 0 || n > 1<<47 {
		in.goPanicStr("makeslice: len out of range")
	}
	if c < n {
		in.goPanicStr("makeslice: cap out of range")
	}
	if n > lim || c > lim {
		panic(unsupported(fmt.Sprintf("makeslice of %d", c)))
	}
	s := make(Slice, n, c)
	in.fillZero(s[:c], t.Underlying().(*types.Slice).Elem())
	return s
}

// ---- maps ----

func (m *Map) find(k any) int {
	if i, ok := m.idx[k]; ok {
		return i
	}
	return -1
}

func (in *Interp) mapFind(m *Map, key Value) int {
	if m == nil {
		return -1
	}
	if i, ok := key.(Iface); ok && i.t != nil && !types.Comparable(i.t) {
		in.goPanicStr("hash of unhashable type " + i.t.String())
	}
	if f, ok := key.(float64); ok && f != f {
		return -1
	}
	k, conc := hashKey(key)
	if conc {
		if i, ok := m.idx[k]; ok {
			return i
		}
		if !m.sym {
			return -1
		}
	}
	for i, kk := range m.keys {
		if m.dead[i] {
			continue
		}
		if conc {
			if _, c2 := hashKey(kk); c2 {
				continue
			}
		}
		if in.branch(in.equal(m.keyT, kk, key)) {
			return i
		}
	}
	return -1
}

func (in *Interp) mapSet(mv, key, val Value) {
	m, _ := mv.(*Map)
	if m == nil {
		panic(goPanic{in.plainError("assignment to entry in nil map")})
	}
	if i := in.mapFind(m, key); i >= 0 {
		*m.vals[i] = copyVal(val)
		return
	}
	p := new(Value)
	*p = copyVal(val)
	k, conc := hashKey(key)
	if conc {
		m.idx[k] = len(m.keys)
	} else {
		m.sym = true
	}
	m.keys = append(m.keys, copyVal(key))
	m.vals = append(m.vals, p)
	m.dead = append(m.dead, false)
	m.n++
	m.version++
}

func (in *Interp) mapDelete(m *Map, key Value) {
	if m == nil {
		return
	}
	i := in.mapFind(m, key)
	if i < 0 {
		return
	}
	if k, conc := hashKey(m.keys[i]); conc {
		delete(m.idx, k)
	}
	m.dead[i] = true
	m.n--
	m.version++
}

func (in *Interp) plainError(msg string) Value { return in.runtimeError(msg) }

func (in *Interp) lookup(s *ssa.Lookup, x, key Value) Value {
	switch m := x.(type) {
	case *Map:
		i := in.mapFind(m, key)
		var v Value
		if i >= 0 {
			v = copyVal(*m.vals[i])
		} else {
			v = in.zero(s.X.Type().Underlying().(*types.Map).Elem())
		}
		if s.CommaOk {
			return Tuple{v, i >= 0}
		}
		return v
	case string, *SymStr:
		return in.indexVal(x, key, s.Index.Type(), types.Typ[types.Uint8])
	}
	panic(unsupported(fmt.Sprintf("lookup in %T", x)))
}

func (in *Interp) rangeIter(x Value) Value {
	switch m := x.(type) {
	case *Map:
		it := &mapIter{m: m}
		if m != nil && in.h.MapOrder == "all" {
			it.all = true
		}
		return it
	case string, *SymStr:
		return &strIter{s: x}
	}
	panic(unsupported(fmt.Sprintf("range over %T", x)))
}

func (in *Interp) decodeRune(bs []Value) (Value, int) {
	if len(bs) == 0 {
		return int64(utf8.RuneError), 0
	}
	switch c := bs[0].(type) {
	case *Chunk:
		return c, 1
	case *Term:
		if in.branch(in.binop(token.LSS, types.Typ[types.Uint8], c, int64(0x80), types.Typ[types.Uint8])) {
			return in.convert(types.Typ[types.Uint8], types.Typ[types.Int32], c), 1
		}
	case int64:
		if c < 0x80 {
			return c, 1
		}
	}
	var buf []byte
	for i := 0; i < len(bs) && i < 4; i++ {
		buf = append(buf, byte(in.concretizeInt(bs[i], false)))
		if utf8.FullRune(buf) {
			break
		}
	}
	r, n := utf8.DecodeRune(buf)
	return int64(r), n
}

func (in *Interp) next(s *ssa.Next, x Value) Value {
	switch it := x.(type) {
	case *strIter:
		if it.pos >= strLen(it.s) {
			return Tuple{false, int64(0), int64(0)}
		}
		var r Value
		var n int
		if str, ok := it.s.(string); ok {
			rr, nn := utf8.DecodeRuneInString(str[it.pos:])
			r, n = int64(rr), nn
		} else {
			r, n = in.decodeRune(it.s.(*SymStr).b[it.pos:])
		}
		p := it.pos
		it.pos += n
		return Tuple{true, int64(p), r}
	case *mapIter:
		m := it.m
		if m == nil {
			return Tuple{false, nil, nil}
		}
		if it.all {
			if it.pos == 0 {
				for i := range m.keys {
					if !m.dead[i] {
						it.left = append(it.left, i)
					}
				}
				it.pos = 1
			}
			for len(it.left) > 0 {
				k := in.choose(len(it.left))
				i := it.left[k]
				it.left = append(it.left[:k:k], it.left[k+1:]...)
				if !m.dead[i] {
					return Tuple{true, copyVal(m.keys[i]), copyVal(*m.vals[i])}
				}
			}
			return Tuple{false, nil, nil}
		}
		for it.pos < len(m.keys) {
			i := it.pos
			it.pos++
			if m.dead[i] {
				continue
			}
			return Tuple{true, copyVal(m.keys[i]), copyVal(*m.vals[i])}
		}
		return Tuple{false, nil, nil}
	}
	panic(unsupported(fmt.Sprintf("next on %T", x)))
}

// ---- type assertions ----

func (in *Interp) typeAssert(s *ssa.TypeAssert, x Value) Value {
	i, _ := x.(Iface)
	ok := false
	if i.t != nil {
		if it, isI := s.AssertedType.Underlying().(*types.Interface); isI {
			ok = in.w.implements(i.t, it)
		} else {
			ok = i.t == s.AssertedType || types.Identical(i.t, s.AssertedType)
		}
	}
	_, toI := s.AssertedType.Underlying().(*types.Interface)
	if ok {
		var v Value = copyVal(i.v)
		if toI {
			v = i
		}
		if s.CommaOk {
			return Tuple{v, true}
		}
		return v
	}
	if s.CommaOk {
		return Tuple{in.zero(s.AssertedType), false}
	}
	d := "nil"
	if i.t != nil {
		d = i.t.String()
	}
	in.goPanicStr(fmt.Sprintf("interface conversion: interface is %s, not %s", d, s.AssertedType))
	return nil
}

// ---- constants ----

func (in *Interp) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return in.zero(t)
	}
	ti := in.ti(t)
	switch ti.k {
	case tkBool:
		return constant.BoolVal(c.Value)
	case tkInt:
		v := constant.ToInt(c.Value)
		n, _ := constant.Int64Val(v)
		return normInt(n, ti)
	case tkUint:
		v := constant.ToInt(c.Value)
		n, _ := constant.Uint64Val(v)
		return normInt(int64(n), ti)
	case tkFloat:
		f, _ := constant.Float64Val(c.Value)
		return floatTo(f, ti)
	case tkComplex:
		re, _ := constant.Float64Val(constant.Real(c.Value))
		im, _ := constant.Float64Val(constant.Imag(c.Value))
		return complex(re, im)
	case tkString:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		n, _ := constant.Int64Val(c.Value)
		return string(rune(n))
	}
	panic(unsupported("constant of type " + t.String()))
}

// ---- builtins ----

func (in *Interp) builtin(fr *frame, b *ssa.Builtin, args []Value, c *ssa.CallCommon) Value {
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case string, *SymStr:
			return int64(strLen(x))
		case Slice:
			return int64(len(x))
		case Array:
			return int64(len(x))
		case *Value:
			return int64(len((*x).(Array)))
		case *Map:
			if x == nil {
				return int64(0)
			}
			return int64(x.n)
		case *Chan:
			if x == nil {
				return int64(0)
			}
			return int64(len(x.buf))
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return int64(cap(x))
		case Array:
			return int64(len(x))
		case *Value:
			return int64(len((*x).(Array)))
		case *Chan:
			if x == nil {
				return int64(0)
			}
			return int64(x.cap)
		}
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		s, _ := args[0].(Slice)
		var add []Value
		switch y := args[1].(type) {
		case Slice:
			add = y
		case string, *SymStr:
			add = strBytes(y)
		case nil:
		default:
			panic(unsupported(fmt.Sprintf("append %T", y)))
		}
		if len(add) == 0 {
			return s
		}
		if len(s)+len(add) <= cap(s) {
			r := s[:len(s)+len(add)]
			for i, e := range add {
				storeTo(&r[len(s)+i], e)
			}
			return r
		}
		nc := 2 * cap(s)
		if cap(s) >= 256 {
			nc = cap(s) + (cap(s)+3*256)/4
		}
		if nc < len(s)+len(add) {
			nc = len(s) + len(add)
		}
		r := make(Slice, len(s)+len(add), nc)
		copy(r, s)
		for i, e := range add {
			r[len(s)+i] = copyVal(e)
		}
		// spare capacity holds zero values of the element type
		if c != nil {
			if st, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
				in.fillZero(r[len(r):nc], st.Elem())
			}
		} else if nc > len(r) {
			r = r[:len(r):len(r)]
		}
		return r
	case "copy":
		d, _ := args[0].(Slice)
		var src []Value
		switch y := args[1].(type) {
		case Slice:
			src = y
		case string, *SymStr:
			src = strBytes(y)
		}
		n := len(d)
		if len(src) < n {
			n = len(src)
		}
		if n == 0 {
			return int64(0)
		}
		switch src[0].(type) {
		case Struct, Array:
			tmp := make([]Value, n)
			for i := 0; i < n; i++ {
				tmp[i] = copyVal(src[i])
			}
			for i := 0; i < n; i++ {
				storeTo(&d[i], tmp[i])
			}
		default:
			copy(d[:n], src[:n])
		}
		return int64(n)
	case "delete":
		m, _ := args[0].(*Map)
		in.mapDelete(m, args[1])
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *Map:
			if x != nil {
				x.keys, x.vals, x.dead, x.n, x.sym = nil, nil, nil, 0, false
				x.idx = map[any]int{}
			}
		case Slice:
			if len(x) > 0 {
				in.fillZero(x, c.Args[0].Type().Underlying().(*types.Slice).Elem())
			}
		}
		return nil
	case "close":
		ch, _ := args[0].(*Chan)
		in.sch.closeCh(ch)
		return nil
	case "panic":
		panic(goPanic{args[0]})
	case "recover":
		return in.doRecover(fr)
	case "print", "println":
		return nil
	case "real":
		return real(args[0].(complex128))
	case "imag":
		return imag(args[0].(complex128))
	case "complex":
		return complex(args[0].(float64), args[1].(float64))
	case "min", "max":
		r := args[0]
		t := c.Args[0].Type()
		for _, a := range args[1:] {
			op := token.LSS
			if b.Name() == "max" {
				op = token.GTR
			}
			if in.branch(in.binop(op, t, a, r, t)) {
				r = a
			}
		}
		return r
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Value); ok && p == nil {
			in.nilDeref()
		}
		return args[0]
	case "ssa:deferstack":
		return fr
	case "SliceData":
		s, _ := args[0].(Slice)
		return &sliceData{s}
	case "StringData":
		return &sliceData{Slice(strBytes(args[0]))}
	case "String":
		sd, ok := args[0].(*sliceData)
		n := in.concretizeInt(args[1], true)
		if ok {
			return mkStr(sd.s[:n])
		}
		if n == 0 {
			return ""
		}
	case "Slice":
		sd, ok := args[0].(*sliceData)
		n := in.concretizeInt(args[1], true)
		if ok {
			return sd.s[:n:n]
		}
	case "Sizeof", "Alignof", "Offsetof":
	}
	panic(unsupported(fmt.Sprintf("builtin %s(%T...)", b.Name(), args[0])))
}

type sliceData struct{ s Slice }
