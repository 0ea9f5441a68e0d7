package main

import (
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// polyEqual recognises real terms that are the same polynomial over common
// atoms. It only ever spares the solver a query whose answer is "equal".
type poly map[string]*big.Rat

const polyMax = 400

func polyOf(t *Term, memo map[*Term]poly) poly {
	if p, ok := memo[t]; ok {
		return p
	}
	var r poly
	switch {
	case t.IsConst() && t.q != nil:
		r = poly{}
		if t.q.Sign() != 0 {
			r[""] = t.q
		}
	case t.op == "+" || t.op == "-":
		a, b := polyOf(t.args[0], memo), polyOf(t.args[1], memo)
		if a != nil && b != nil {
			r = poly{}
			for k, v := range a {
				r[k] = v
			}
			for k, v := range b {
				x := new(big.Rat).Set(v)
				if t.op == "-" {
					x.Neg(x)
				}
				if y, ok := r[k]; ok {
					x.Add(x, y)
				}
				if x.Sign() == 0 {
					delete(r, k)
				} else {
					r[k] = x
				}
			}
		}
	case t.op == "*":
		a, b := polyOf(t.args[0], memo), polyOf(t.args[1], memo)
		if a != nil && b != nil && len(a)*len(b) <= polyMax*4 {
			r = poly{}
			for k, v := range a {
				for l, w := range b {
					m := mulMono(k, l)
					x := new(big.Rat).Mul(v, w)
					if y, ok := r[m]; ok {
						x.Add(x, y)
					}
					if x.Sign() == 0 {
						delete(r, m)
					} else {
						r[m] = x
					}
				}
			}
		}
	default:
		r = poly{strconv.Itoa(int(t.id)): big.NewRat(1, 1)}
	}
	if len(r) > polyMax {
		r = nil
	}
	memo[t] = r
	return r
}

func mulMono(a, b string) string {
	if a == "" {
		return b
	}
	if b == "" {
		return a
	}
	s := append(strings.Split(a, ","), strings.Split(b, ",")...)
	sort.Strings(s)
	return strings.Join(s, ",")
}

func polyEqual(a, b *Term) bool {
	memo := map[*Term]poly{}
	p, q := polyOf(a, memo), polyOf(b, memo)
	if p == nil || q == nil || len(p) != len(q) {
		return false
	}
	for k, v := range p {
		w, ok := q[k]
		if !ok || v.Cmp(w) != 0 {
			return false
		}
	}
	return true
}

// ---- canonical forms ----
//
// canon maps real terms to a polynomial over canonical atoms. Products that
// would expand too far take their factors as atoms, named by the factor's own
// canonical form; quotients, uninterpreted functions and square roots are
// atoms named by the canonical forms of their operands. Terms with equal
// canonical forms are equal for all values (the converse does not hold).

const (
	canonProd = 64
	canonSum  = 256
)

type canonizer struct {
	memo  map[*Term]poly
	atoms map[string]string // serialized form -> atom name
	reps  map[string]*Term  // serialized form -> first term with it
	sqrts map[*Term]*Term   // square root variable -> operand
	keys  map[*Term]string
	signs map[*Term]int8
}

func newCanonizer() *canonizer {
	return &canonizer{memo: map[*Term]poly{}, atoms: map[string]string{}, reps: map[string]*Term{}, sqrts: map[*Term]*Term{}, keys: map[*Term]string{}, signs: map[*Term]int8{}}
}

func (p poly) key() string {
	ks := make([]string, 0, len(p))
	for k := range p {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		b.WriteString(k)
		b.WriteByte(':')
		b.WriteString(p[k].RatString())
		b.WriteByte(';')
	}
	return b.String()
}

func (c *canonizer) atom(kind string) string {
	n, ok := c.atoms[kind]
	if !ok {
		n = "@" + strconv.Itoa(len(c.atoms))
		c.atoms[kind] = n
	}
	return n
}

// pack replaces a polynomial of several monomials by coefficient * atom.
func (c *canonizer) pack(p poly) poly {
	if len(p) <= 1 {
		return p
	}
	lead := ""
	first := true
	for k := range p {
		if first || k < lead {
			lead, first = k, false
		}
	}
	co := p[lead]
	q := poly{}
	for k, v := range p {
		q[k] = new(big.Rat).Quo(v, co)
	}
	return poly{c.atom("p|" + q.key()): co}
}

func polyAdd(a, b poly, neg bool) poly {
	r := make(poly, len(a)+len(b))
	for k, v := range a {
		r[k] = v
	}
	for k, v := range b {
		x := new(big.Rat).Set(v)
		if neg {
			x.Neg(x)
		}
		if y, ok := r[k]; ok {
			x.Add(x, y)
		}
		if x.Sign() == 0 {
			delete(r, k)
		} else {
			r[k] = x
		}
	}
	return r
}

func polyMul(a, b poly) poly {
	r := poly{}
	for k, v := range a {
		for l, w := range b {
			m := mulMono(k, l)
			x := new(big.Rat).Mul(v, w)
			if y, ok := r[m]; ok {
				x.Add(x, y)
			}
			if x.Sign() == 0 {
				delete(r, m)
			} else {
				r[m] = x
			}
		}
	}
	return r
}

func (c *canonizer) of(t *Term) poly {
	if p, ok := c.memo[t]; ok {
		return p
	}
	var r poly
	switch {
	case t.IsConst() && t.q != nil:
		r = poly{}
		if t.q.Sign() != 0 {
			r[""] = t.q
		}
	case (t.op == "+" || t.op == "-") && len(t.args) == 2:
		a, b := c.of(t.args[0]), c.of(t.args[1])
		r = polyAdd(a, b, t.op == "-")
		if len(r) > canonSum {
			r = polyAdd(c.pack(a), c.pack(b), t.op == "-")
		}
	case t.op == "*" && len(t.args) == 2:
		a, b := c.of(t.args[0]), c.of(t.args[1])
		if len(a)*len(b) > canonProd {
			if len(a) >= len(b) {
				a = c.pack(a)
			} else {
				b = c.pack(b)
			}
		}
		if len(a)*len(b) > canonProd {
			a, b = c.pack(a), c.pack(b)
		}
		r = polyMul(a, b)
	case t.op == "/" && len(t.args) == 2:
		a, b := c.of(t.args[0]), c.pack(c.of(t.args[1]))
		if len(b) == 1 {
			for k, v := range b {
				inv := poly{"": new(big.Rat).Inv(v)}
				if k != "" {
					inv = poly{c.atom("inv|" + k): inv[""]}
				}
				r = polyMul(a, inv)
			}
		} else {
			r = poly{strconv.Itoa(int(t.id)): big.NewRat(1, 1)}
		}
	case t.op == "uf":
		k := "uf|" + t.name
		for _, a := range t.args {
			k += "|" + c.keyOf(a)
		}
		r = poly{c.atom(k): big.NewRat(1, 1)}
	default:
		r = poly{strconv.Itoa(int(t.id)): big.NewRat(1, 1)}
	}
	c.memo[t] = r
	return r
}

func (c *canonizer) keyOf(t *Term) string {
	if t.sort.K != KReal && t.sort.K != KInt {
		return "t" + strconv.Itoa(int(t.id))
	}
	if k, ok := c.keys[t]; ok {
		return k
	}
	k := c.of(t).key()
	c.keys[t] = k
	return k
}

// rep is the first term seen with t's canonical form.
func (c *canonizer) rep(t *Term) *Term {
	if t.IsConst() {
		return t
	}
	k := c.keyOf(t)
	if r, ok := c.reps[k]; ok && r.sort == t.sort {
		return r
	}
	c.reps[k] = t
	return t
}

func (c *canonizer) equal(a, b *Term) bool { return c.keyOf(a) == c.keyOf(b) }

// sign is 2 if t is positive for all values, 1 if it is not negative, else 0.
func (c *canonizer) sign(t *Term) int8 {
	if s, ok := c.signs[t]; ok {
		return s
	}
	var s int8
	switch {
	case t.IsConst() && t.q != nil:
		if t.q.Sign() > 0 {
			s = 2
		} else if t.q.Sign() == 0 {
			s = 1
		}
	case t.op == "+":
		a, b := c.sign(t.args[0]), c.sign(t.args[1])
		if a > 0 && b > 0 {
			s = a
			if b > a {
				s = b
			}
		}
	case t.op == "*":
		a, b := c.sign(t.args[0]), c.sign(t.args[1])
		switch {
		case a > 0 && b > 0:
			s = a
			if b < a {
				s = b
			}
		case t.args[0] == t.args[1] || c.equal(t.args[0], t.args[1]):
			s = 1
		}
	case t.op == "/":
		a, b := c.sign(t.args[0]), c.sign(t.args[1])
		if a > 0 && b == 2 {
			s = a
		}
	case t.op == "uf" && t.name == "logistic":
		s = 2
	case t.op == "var" && c.sqrts[t] != nil:
		s = c.sign(c.sqrts[t])
		if s == 0 {
			s = 1
		}
	}
	c.signs[t] = s
	return s
}
