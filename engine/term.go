package main

import (
	"fmt"
	"math"
	"math/big"
	"math/bits"
	"strconv"
	"strings"
)

// SMT terms: hash-consed, with constant folding.

type Kind uint8

const (
	KBool Kind = iota
	KBV
	KInt
	KReal
	KFP64
	KFP32
)

type Sort struct {
	K Kind
	W uint8
}

var (
	SBool = Sort{K: KBool}
	SInt  = Sort{K: KInt}
	SReal = Sort{K: KReal}
	SFP64 = Sort{K: KFP64}
	SFP32 = Sort{K: KFP32}
)

func SBV(w int) Sort { return Sort{KBV, uint8(w)} }

func (s Sort) String() string {
	switch s.K {
	case KBool:
		return "Bool"
	case KBV:
		return fmt.Sprintf("(_ BitVec %d)", s.W)
	case KInt:
		return "Int"
	case KReal:
		return "Real"
	case KFP64:
		return "(_ FloatingPoint 11 53)"
	case KFP32:
		return "(_ FloatingPoint 8 24)"
	}
	panic("sort")
}

type Term struct {
	id   int32
	op   string // "" for constants, "var" for variables
	sort Sort
	args []*Term
	u    uint64   // BV const / bool const / FP bits
	q    *big.Rat // Int / Real const
	name string   // var or uninterpreted function name
	lo   *big.Int // known bounds (Int sort)
	hi   *big.Int
	uf   bool // contains an uninterpreted function
}

func (t *Term) IsConst() bool { return t.op == "" }

type tkey struct {
	op      string
	s       Sort
	a, b, c int32
	u       uint64
	k       string
}

type Builder struct {
	tab  map[tkey]*Term
	n    int32
	T, F *Term
	ufs  map[string]string // name -> declaration
	cn   *canonizer
	ax   map[*Term][]*Term // side conditions attached to terms (e.g. sqrt, to_int)
}

func NewBuilder() *Builder {
	b := &Builder{cn: newCanonizer(), tab: map[tkey]*Term{}, ufs: map[string]string{}, ax: map[*Term][]*Term{}}
	b.T = b.mk(&Term{sort: SBool, u: 1}, "")
	b.F = b.mk(&Term{sort: SBool, u: 0}, "")
	return b
}

func (b *Builder) mk(t *Term, k string) *Term {
	key := tkey{op: t.op, s: t.sort, u: t.u, k: k, a: -1, b: -1, c: -1}
	if t.q != nil {
		key.k = t.q.RatString()
	}
	if t.name != "" {
		key.k += "|" + t.name
	}
	switch len(t.args) {
	case 0:
	case 1:
		key.a = t.args[0].id
	case 2:
		key.a, key.b = t.args[0].id, t.args[1].id
	case 3:
		key.a, key.b, key.c = t.args[0].id, t.args[1].id, t.args[2].id
	default:
		var sb strings.Builder
		for _, a := range t.args {
			sb.WriteString(strconv.Itoa(int(a.id)))
			sb.WriteByte(',')
		}
		key.k += "#" + sb.String()
	}
	if x, ok := b.tab[key]; ok {
		return x
	}
	t.id = b.n
	b.n++
	for _, a := range t.args {
		if a.uf {
			t.uf = true
		}
	}
	b.tab[key] = t
	return t
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func (b *Builder) Bool(v bool) *Term {
	if v {
		return b.T
	}
	return b.F
}
func (b *Builder) BV(v uint64, w int) *Term {
	return b.mk(&Term{sort: SBV(w), u: v & mask(uint8(w))}, "")
}
func (b *Builder) IntBig(v *big.Int) *Term {
	t := b.mk(&Term{sort: SInt, q: new(big.Rat).SetInt(v)}, "")
	if t.lo == nil {
		t.lo, t.hi = v, v
	}
	return t
}
func (b *Builder) Int(v int64) *Term { return b.IntBig(big.NewInt(v)) }
func (b *Builder) Real(q *big.Rat) *Term {
	return b.mk(&Term{sort: SReal, q: q}, "")
}
func (b *Builder) FP(v float64) *Term {
	if v != v {
		return b.mk(&Term{sort: SFP64, u: math.Float64bits(math.NaN())}, "")
	}
	return b.mk(&Term{sort: SFP64, u: math.Float64bits(v)}, "")
}
func (b *Builder) FP32(v float32) *Term {
	return b.mk(&Term{sort: SFP32, u: uint64(math.Float32bits(v))}, "")
}
func (b *Builder) Var(name string, s Sort) *Term {
	return b.mk(&Term{op: "var", sort: s, name: name}, "")
}

// UF application.
func (b *Builder) UF(name string, ret Sort, args ...*Term) *Term {
	if _, ok := b.ufs[name]; !ok {
		var ss []string
		for _, a := range args {
			ss = append(ss, a.sort.String())
		}
		b.ufs[name] = fmt.Sprintf("(declare-fun |%s| (%s) %s)", name, strings.Join(ss, " "), ret)
	}
	t := b.mk(&Term{op: "uf", sort: ret, name: name, args: args}, "")
	t.uf = true
	return t
}

// ---- bool ----

func (b *Builder) Not(x *Term) *Term {
	if x.IsConst() {
		return b.Bool(x.u == 0)
	}
	if x.op == "not" {
		return x.args[0]
	}
	return b.mk(&Term{op: "not", sort: SBool, args: []*Term{x}}, "")
}
func (b *Builder) And(x, y *Term) *Term {
	if x.IsConst() {
		if x.u == 0 {
			return x
		}
		return y
	}
	if y.IsConst() {
		if y.u == 0 {
			return y
		}
		return x
	}
	if x == y {
		return x
	}
	if x.id > y.id {
		x, y = y, x
	}
	return b.mk(&Term{op: "and", sort: SBool, args: []*Term{x, y}}, "")
}
func (b *Builder) Or(x, y *Term) *Term {
	if x.IsConst() {
		if x.u == 1 {
			return x
		}
		return y
	}
	if y.IsConst() {
		if y.u == 1 {
			return y
		}
		return x
	}
	if x == y {
		return x
	}
	if x.id > y.id {
		x, y = y, x
	}
	return b.mk(&Term{op: "or", sort: SBool, args: []*Term{x, y}}, "")
}
func (b *Builder) Ite(c, x, y *Term) *Term {
	if c.IsConst() {
		if c.u == 1 {
			return x
		}
		return y
	}
	if x == y {
		return x
	}
	if x.sort.K == KBool {
		if x.IsConst() && y.IsConst() {
			if x.u == 1 {
				return c
			}
			return b.Not(c)
		}
	}
	t := b.mk(&Term{op: "ite", sort: x.sort, args: []*Term{c, x, y}}, "")
	if t.sort.K == KInt && x.lo != nil && y.lo != nil && t.lo == nil {
		t.lo, t.hi = minB(x.lo, y.lo), maxB(x.hi, y.hi)
	}
	return t
}

func minB(a, b *big.Int) *big.Int {
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}
func maxB(a, b *big.Int) *big.Int {
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}

// Eq: structural SMT equality (for FP: same datum; use FPEq for Go ==).
func (b *Builder) Eq(x, y *Term) *Term {
	if x == y {
		return b.T
	}
	if x.sort != y.sort {
		panic(fmt.Sprintf("Eq sorts %v %v", x.sort, y.sort))
	}
	if x.IsConst() && y.IsConst() {
		return b.F
	}
	if x.sort.K == KBool {
		if x.IsConst() {
			x, y = y, x
		}
		if y.IsConst() {
			if y.u == 1 {
				return x
			}
			return b.Not(x)
		}
	}
	if x.sort.K == KInt && x.lo != nil && y.lo != nil {
		if x.hi.Cmp(y.lo) < 0 || y.hi.Cmp(x.lo) < 0 {
			return b.F
		}
	}
	// ite(c, k1, k2) == k
	if y.op == "ite" && x.IsConst() {
		x, y = y, x
	}
	if x.op == "ite" && y.IsConst() && x.args[1].IsConst() && x.args[2].IsConst() {
		if x.args[1] == y {
			return x.args[0]
		}
		if x.args[2] == y {
			return b.Not(x.args[0])
		}
		return b.F
	}
	// zero_extend(x) == const
	if x.IsConst() {
		x, y = y, x
	}
	if y.IsConst() && strings.HasPrefix(x.op, "(_ zero_extend") {
		iw := x.args[0].sort.W
		if y.u>>iw != 0 {
			return b.F
		}
		return b.Eq(x.args[0], b.BV(y.u, int(iw)))
	}
	if y.IsConst() && strings.HasPrefix(x.op, "(_ sign_extend") {
		iw := x.args[0].sort.W
		lowv := y.u & mask(iw)
		if uint64(sext(lowv, iw))&mask(x.sort.W) != y.u {
			return b.F
		}
		return b.Eq(x.args[0], b.BV(lowv, int(iw)))
	}
	if x.id > y.id {
		x, y = y, x
	}
	return b.mk(&Term{op: "=", sort: SBool, args: []*Term{x, y}}, "")
}

// ---- bit-vectors ----

func sext(u uint64, w uint8) int64 {
	if w >= 64 {
		return int64(u)
	}
	s := 64 - uint(w)
	return int64(u<<s) >> s
}

func foldBV(op string, x, y uint64, w uint8) (uint64, bool) {
	m := mask(w)
	switch op {
	case "bvadd":
		return (x + y) & m, true
	case "bvsub":
		return (x - y) & m, true
	case "bvmul":
		return (x * y) & m, true
	case "bvand":
		return x & y, true
	case "bvor":
		return x | y, true
	case "bvxor":
		return x ^ y, true
	case "bvudiv":
		if y == 0 {
			return m, true
		}
		return x / y, true
	case "bvurem":
		if y == 0 {
			return x, true
		}
		return x % y, true
	case "bvsdiv":
		if y == 0 {
			return 0, false
		}
		a, c := sext(x, w), sext(y, w)
		if c == -1 {
			return uint64(-a) & m, true
		}
		return uint64(a/c) & m, true
	case "bvsrem":
		if y == 0 {
			return 0, false
		}
		a, c := sext(x, w), sext(y, w)
		if c == -1 {
			return 0, true
		}
		return uint64(a%c) & m, true
	case "bvshl":
		if y >= uint64(w) {
			return 0, true
		}
		return (x << y) & m, true
	case "bvlshr":
		if y >= uint64(w) {
			return 0, true
		}
		return x >> y, true
	case "bvashr":
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sext(x, w)>>y) & m, true
	}
	return 0, false
}

func (b *Builder) BVOp(op string, x, y *Term) *Term {
	w := x.sort.W
	if x.IsConst() && y.IsConst() {
		if r, ok := foldBV(op, x.u, y.u, w); ok {
			return b.BV(r, int(w))
		}
	}
	switch op {
	case "bvadd", "bvmul", "bvand", "bvor", "bvxor":
		if x.IsConst() {
			x, y = y, x
		}
		if y.IsConst() {
			switch {
			case op == "bvadd" && y.u == 0, op == "bvor" && y.u == 0, op == "bvxor" && y.u == 0, op == "bvmul" && y.u == 1, op == "bvand" && y.u == mask(w):
				return x
			case op == "bvmul" && y.u == 0, op == "bvand" && y.u == 0:
				return y
			}
			if op == "bvadd" && x.op == "bvadd" && x.args[1].IsConst() {
				return b.BVOp("bvadd", x.args[0], b.BV(x.args[1].u+y.u, int(w)))
			}
		} else if x.id > y.id {
			x, y = y, x
		}
	case "bvsub":
		if x == y {
			return b.BV(0, int(w))
		}
		if y.IsConst() {
			return b.BVOp("bvadd", x, b.BV(-y.u, int(w)))
		}
	case "bvshl", "bvlshr", "bvashr":
		if y.IsConst() && y.u == 0 {
			return x
		}
	case "bvudiv", "bvsdiv":
		if y.IsConst() && y.u == 1 {
			return x
		}
	}
	return b.mk(&Term{op: op, sort: x.sort, args: []*Term{x, y}}, "")
}
func (b *Builder) BVNot(x *Term) *Term {
	if x.IsConst() {
		return b.BV(^x.u, int(x.sort.W))
	}
	return b.mk(&Term{op: "bvnot", sort: x.sort, args: []*Term{x}}, "")
}
func (b *Builder) BVCmp(op string, x, y *Term) *Term {
	w := x.sort.W
	if x.IsConst() && y.IsConst() {
		switch op {
		case "bvult":
			return b.Bool(x.u < y.u)
		case "bvule":
			return b.Bool(x.u <= y.u)
		case "bvslt":
			return b.Bool(sext(x.u, w) < sext(y.u, w))
		case "bvsle":
			return b.Bool(sext(x.u, w) <= sext(y.u, w))
		}
	}
	if x == y {
		return b.Bool(op == "bvule" || op == "bvsle")
	}
	// unsigned/signed comparisons against constants through zero_extend
	zx := strings.HasPrefix(x.op, "(_ zero_extend")
	zy := strings.HasPrefix(y.op, "(_ zero_extend")
	if (zx && y.IsConst()) || (zy && x.IsConst()) {
		var in *Term
		var k int64
		if zx {
			in = x.args[0]
		} else {
			in = y.args[0]
		}
		c := y
		if zy && x.IsConst() {
			c = x
		}
		signed := op == "bvslt" || op == "bvsle"
		big := false // constant beyond the range upward
		neg := false
		if signed {
			k = sext(c.u, w)
			neg = k < 0
			big = k > int64(mask(in.sort.W))
		} else {
			big = c.u > mask(in.sort.W)
		}
		if zx {
			if neg {
				return b.F
			}
			if big {
				return b.T
			}
		} else {
			if neg {
				return b.T
			}
			if big {
				return b.F
			}
		}
		uop := "bvult"
		if op == "bvule" || op == "bvsle" {
			uop = "bvule"
		}
		cc := b.BV(c.u, int(in.sort.W))
		if zx {
			return b.BVCmp(uop, in, cc)
		}
		return b.BVCmp(uop, cc, in)
	}
	if op == "bvult" && y.IsConst() && y.u == 0 {
		return b.F
	}
	if op == "bvule" && x.IsConst() && x.u == 0 {
		return b.T
	}
	return b.mk(&Term{op: op, sort: SBool, args: []*Term{x, y}}, "")
}
func (b *Builder) Extend(x *Term, w int, signed bool) *Term {
	if int(x.sort.W) == w {
		return x
	}
	if int(x.sort.W) > w {
		if x.IsConst() {
			return b.BV(x.u, w)
		}
		if strings.HasPrefix(x.op, "(_ zero_extend") || strings.HasPrefix(x.op, "(_ sign_extend") {
			in := x.args[0]
			if int(in.sort.W) == w {
				return in
			}
			if int(in.sort.W) < w {
				return b.Extend(in, w, x.op[3] == 's')
			}
			return b.Extend(in, w, false)
		}
		return b.mk(&Term{op: fmt.Sprintf("(_ extract %d 0)", w-1), sort: SBV(w), args: []*Term{x}}, "")
	}
	if x.IsConst() {
		if signed {
			return b.BV(uint64(sext(x.u, x.sort.W)), w)
		}
		return b.BV(x.u, w)
	}
	if strings.HasPrefix(x.op, "(_ zero_extend") {
		return b.Extend(x.args[0], w, false)
	}
	op := "zero_extend"
	if signed {
		op = "sign_extend"
	}
	return b.mk(&Term{op: fmt.Sprintf("(_ %s %d)", op, w-int(x.sort.W)), sort: SBV(w), args: []*Term{x}}, "")
}

// ---- Int / Real ----

func (b *Builder) bounds(t *Term, lo, hi *big.Int) *Term {
	if t.sort.K == KInt && t.lo == nil && lo != nil {
		t.lo, t.hi = lo, hi
	}
	return t
}

// Arith handles + - * on Int and Real, / on Real.
func (b *Builder) Arith(op string, x, y *Term) *Term {
	if x.sort != y.sort {
		panic(fmt.Sprintf("Arith %s sorts %v %v", op, x.sort, y.sort))
	}
	if x.IsConst() && y.IsConst() {
		r := new(big.Rat)
		ok := true
		switch op {
		case "+":
			r.Add(x.q, y.q)
		case "-":
			r.Sub(x.q, y.q)
		case "*":
			r.Mul(x.q, y.q)
		case "/":
			if y.q.Sign() == 0 {
				ok = false
			} else {
				r.Quo(x.q, y.q)
			}
		}
		if ok {
			if x.sort.K == KInt {
				return b.IntBig(r.Num())
			}
			return b.Real(r)
		}
	}
	var lo, hi *big.Int
	if x.sort.K == KInt && x.lo != nil && y.lo != nil {
		switch op {
		case "+":
			lo, hi = new(big.Int).Add(x.lo, y.lo), new(big.Int).Add(x.hi, y.hi)
		case "-":
			lo, hi = new(big.Int).Sub(x.lo, y.hi), new(big.Int).Sub(x.hi, y.lo)
		case "*":
			c := []*big.Int{new(big.Int).Mul(x.lo, y.lo), new(big.Int).Mul(x.lo, y.hi), new(big.Int).Mul(x.hi, y.lo), new(big.Int).Mul(x.hi, y.hi)}
			lo, hi = c[0], c[0]
			for _, v := range c {
				lo, hi = minB(lo, v), maxB(hi, v)
			}
		}
	}
	isz := func(t *Term) bool { return t.IsConst() && t.q.Sign() == 0 }
	is1 := func(t *Term) bool { return t.IsConst() && t.q.IsInt() && t.q.Num().IsInt64() && t.q.Num().Int64() == 1 }
	switch op {
	case "+":
		if isz(x) {
			return y
		}
		if isz(y) {
			return x
		}
		if x.id > y.id {
			x, y = y, x
		}
	case "-":
		if isz(y) {
			return x
		}
		if x == y {
			if x.sort.K == KInt {
				return b.Int(0)
			}
			return b.Real(new(big.Rat))
		}
	case "*":
		if isz(x) || is1(y) {
			return x
		}
		if isz(y) || is1(x) {
			return y
		}
		if x.id > y.id {
			x, y = y, x
		}
	case "/":
		if is1(y) {
			return x
		}
		if y.IsConst() && y.q.Sign() != 0 {
			return b.Arith("*", x, b.Real(new(big.Rat).Inv(y.q)))
		}
	}
	return b.bounds(b.mk(&Term{op: op, sort: x.sort, args: []*Term{x, y}}, ""), lo, hi)
}

func (b *Builder) ACmp(op string, x, y *Term) *Term { // "<" "<="
	if x.IsConst() && y.IsConst() {
		c := x.q.Cmp(y.q)
		return b.Bool(c < 0 || (op == "<=" && c == 0))
	}
	if x == y {
		return b.Bool(op == "<=")
	}
	if x.lo != nil && y.lo != nil {
		c := x.hi.Cmp(y.lo)
		if c < 0 || (op == "<=" && c == 0) {
			return b.T
		}
		c = x.lo.Cmp(y.hi)
		if c > 0 || (op == "<" && c == 0) {
			return b.F
		}
	}
	return b.mk(&Term{op: op, sort: SBool, args: []*Term{x, y}}, "")
}

// IDiv/IMod: SMT euclidean div/mod with constant or symbolic positive divisor.
// linear adds k times x to the linear form m; the constant is under nil.
func (b *Builder) linear(x *Term, k *big.Int, m map[*Term]*big.Int, order *[]*Term) {
	switch {
	case x.IsConst():
		b.linAdd(nil, new(big.Int).Mul(k, x.q.Num()), m, order)
		return
	case x.op == "+" || x.op == "-" && len(x.args) == 2:
		b.linear(x.args[0], k, m, order)
		for _, a := range x.args[1:] {
			kk := k
			if x.op == "-" {
				kk = new(big.Int).Neg(k)
			}
			b.linear(a, kk, m, order)
		}
		return
	case x.op == "*" && len(x.args) == 2 && x.args[0].IsConst():
		b.linear(x.args[1], new(big.Int).Mul(k, x.args[0].q.Num()), m, order)
		return
	case x.op == "*" && len(x.args) == 2 && x.args[1].IsConst():
		b.linear(x.args[0], new(big.Int).Mul(k, x.args[1].q.Num()), m, order)
		return
	}
	b.linAdd(x, k, m, order)
}

func (b *Builder) linAdd(x *Term, k *big.Int, m map[*Term]*big.Int, order *[]*Term) {
	if o := m[x]; o != nil {
		k = new(big.Int).Add(k, o)
	} else {
		*order = append(*order, x)
	}
	m[x] = k
}

// splitMultiple writes the integer x as n*a + r; a is nil if nothing splits off.
func (b *Builder) splitMultiple(x *Term, n *big.Int) (a, r *Term) {
	if x.op != "+" && x.op != "-" && x.op != "*" {
		return nil, nil
	}
	m := map[*Term]*big.Int{}
	var order []*Term
	b.linear(x, big.NewInt(1), m, &order)
	a, r = nil, b.Int(0)
	add := func(s, t *Term) *Term {
		if s == nil {
			return t
		}
		return b.Arith("+", s, t)
	}
	for _, t := range order {
		k := m[t]
		if t == nil {
			continue
		}
		q, rest := new(big.Int).DivMod(k, n, new(big.Int))
		if rest.Sign() == 0 {
			if q.Sign() != 0 {
				a = add(a, b.Arith("*", b.IntBig(q), t))
			}
		} else {
			r = add(r, b.Arith("*", b.IntBig(k), t))
		}
	}
	if a == nil {
		return nil, nil
	}
	if c := m[nil]; c != nil {
		r = add(r, b.IntBig(c))
	}
	return a, r
}

func (b *Builder) IDivMod(op string, x, y *Term) *Term {
	if x.IsConst() && y.IsConst() && y.q.Sign() != 0 {
		q, m := new(big.Int).DivMod(x.q.Num(), y.q.Num(), new(big.Int))
		if op == "div" {
			return b.IntBig(q)
		}
		return b.IntBig(m)
	}
	if y.IsConst() && y.q.Sign() > 0 {
		// (y*a + r) div y = a + r div y
		if a, r := b.splitMultiple(x, y.q.Num()); a != nil {
			if op == "mod" {
				return b.IDivMod("mod", r, y)
			}
			return b.Arith("+", a, b.IDivMod("div", r, y))
		}
	}
	var lo, hi *big.Int
	if y.lo != nil && y.lo.Sign() > 0 {
		if op == "mod" {
			lo, hi = big.NewInt(0), new(big.Int).Sub(y.hi, big.NewInt(1))
		} else if x.lo != nil && x.lo.Sign() >= 0 {
			lo, hi = new(big.Int).Div(x.lo, y.hi), new(big.Int).Div(x.hi, y.lo)
		}
	}
	return b.bounds(b.mk(&Term{op: op, sort: SInt, args: []*Term{x, y}}, ""), lo, hi)
}

func (b *Builder) ToReal(x *Term) *Term {
	if x.IsConst() {
		return b.Real(x.q)
	}
	return b.mk(&Term{op: "to_real", sort: SReal, args: []*Term{x}}, "")
}
func (b *Builder) ToInt(x *Term) *Term { // floor
	if x.IsConst() {
		return b.IntBig(floorRat(x.q))
	}
	if x.op == "to_real" {
		return x.args[0]
	}
	return b.mk(&Term{op: "to_int", sort: SInt, args: []*Term{x}}, "")
}
func floorRat(q *big.Rat) *big.Int {
	r := new(big.Int)
	m := new(big.Int)
	r.DivMod(q.Num(), q.Denom(), m)
	return r
}

// ---- floating point ----

func (t *Term) fv() float64 {
	if t.sort.K == KFP32 {
		return float64(math.Float32frombits(uint32(t.u)))
	}
	return math.Float64frombits(t.u)
}

func (b *Builder) FPOp(op string, x, y *Term) *Term { // add sub mul div
	if x.sort != y.sort {
		panic("FPOp sorts")
	}
	if x.IsConst() && y.IsConst() && x.sort.K == KFP64 {
		a, c := x.fv(), y.fv()
		switch op {
		case "fp.add RNE":
			return b.FP(a + c)
		case "fp.sub RNE":
			return b.FP(a - c)
		case "fp.mul RNE":
			return b.FP(a * c)
		case "fp.div RNE":
			return b.FP(a / c)
		}
	}
	if x.IsConst() && y.IsConst() && x.sort.K == KFP32 {
		a, c := float32(x.fv()), float32(y.fv())
		switch op {
		case "fp.add RNE":
			return b.FP32(a + c)
		case "fp.sub RNE":
			return b.FP32(a - c)
		case "fp.mul RNE":
			return b.FP32(a * c)
		case "fp.div RNE":
			return b.FP32(a / c)
		}
	}
	switch op {
	case "fp.mul RNE":
		if x.IsConst() && x.fv() == 1 {
			return y
		}
		if y.IsConst() && y.fv() == 1 {
			return x
		}
		if x.id > y.id {
			x, y = y, x
		}
	case "fp.div RNE":
		if y.IsConst() && y.fv() == 1 {
			return x
		}
	case "fp.add RNE":
		if y.IsConst() && y.fv() == 0 && math.Signbit(y.fv()) {
			return x
		}
		if x.IsConst() && x.fv() == 0 && math.Signbit(x.fv()) {
			return y
		}
		if x.id > y.id {
			x, y = y, x
		}
	}
	return b.mk(&Term{op: op, sort: x.sort, args: []*Term{x, y}}, "")
}
func (b *Builder) FPCmp(op string, x, y *Term) *Term { // fp.lt fp.leq fp.eq
	if x.IsConst() && y.IsConst() {
		a, c := x.fv(), y.fv()
		switch op {
		case "fp.lt":
			return b.Bool(a < c)
		case "fp.leq":
			return b.Bool(a <= c)
		case "fp.eq":
			return b.Bool(a == c)
		}
	}
	if op == "fp.lt" && x == y {
		return b.F
	}
	if op == "fp.eq" && x.id > y.id {
		x, y = y, x
	}
	return b.mk(&Term{op: op, sort: SBool, args: []*Term{x, y}}, "")
}
func (b *Builder) FPUn(op string, x *Term) *Term {
	if x.IsConst() && x.sort.K == KFP64 {
		a := x.fv()
		switch op {
		case "fp.neg":
			return b.FP(-a)
		case "fp.abs":
			return b.FP(math.Abs(a))
		case "fp.sqrt RNE":
			return b.FP(math.Sqrt(a))
		case "fp.roundToIntegral RTZ":
			return b.FP(math.Trunc(a))
		case "fp.roundToIntegral RTN":
			return b.FP(math.Floor(a))
		case "fp.roundToIntegral RTP":
			return b.FP(math.Ceil(a))
		}
	}
	return b.mk(&Term{op: op, sort: x.sort, args: []*Term{x}}, "")
}
func (b *Builder) FPIsNaN(x *Term) *Term {
	if x.IsConst() {
		f := x.fv()
		return b.Bool(f != f)
	}
	return b.mk(&Term{op: "fp.isNaN", sort: SBool, args: []*Term{x}}, "")
}

// raw application (no folding)
func (b *Builder) App(op string, s Sort, args ...*Term) *Term {
	return b.mk(&Term{op: op, sort: s, args: args}, "")
}

// ---- printing ----

func (t *Term) constString() string {
	switch t.sort.K {
	case KBool:
		if t.u == 1 {
			return "true"
		}
		return "false"
	case KBV:
		return fmt.Sprintf("(_ bv%d %d)", t.u, t.sort.W)
	case KInt:
		n := t.q.Num()
		if n.Sign() < 0 {
			return "(- " + new(big.Int).Neg(n).String() + ")"
		}
		return n.String()
	case KReal:
		n, d := t.q.Num(), t.q.Denom()
		s := new(big.Int).Abs(n).String() + ".0"
		if d.Cmp(big.NewInt(1)) != 0 {
			s = "(/ " + s + " " + d.String() + ".0)"
		}
		if n.Sign() < 0 {
			s = "(- " + s + ")"
		}
		return s
	case KFP64:
		u := t.u
		if f := math.Float64frombits(u); f != f {
			return "(_ NaN 11 53)"
		}
		return fmt.Sprintf("(fp #b%01b #b%011b #b%052b)", u>>63, (u>>52)&0x7ff, u&(1<<52-1))
	case KFP32:
		u := t.u
		if f := math.Float32frombits(uint32(u)); f != f {
			return "(_ NaN 8 24)"
		}
		return fmt.Sprintf("(fp #b%01b #b%08b #b%023b)", (u>>31)&1, (u>>23)&0xff, u&(1<<23-1))
	}
	panic("const")
}

func quote(n string) string { return "|" + n + "|" }

// String renders a term in full (debugging only).
func (t *Term) String() string {
	switch t.op {
	case "":
		return t.constString()
	case "var":
		return t.name
	}
	var sb strings.Builder
	sb.WriteString("(" + t.op)
	if t.op == "uf" {
		sb.WriteString(" " + t.name)
	}
	for _, a := range t.args {
		sb.WriteString(" ")
		sb.WriteString(a.String())
		if sb.Len() > 2000 {
			sb.WriteString("...")
			break
		}
	}
	sb.WriteString(")")
	return sb.String()
}

var _ = bits.Len
