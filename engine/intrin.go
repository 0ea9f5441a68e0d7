package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"math/bits"
	"os"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(fr *frame, fn *ssa.Function, a []Value) Value

const vpPath = modPath + "/zzverif/vp"

var intrTab = map[string]func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value{}

func (in *Interp) lookupIntrinsic(fn *ssa.Function) intrinsic {
	name := fn.String()
	if o := fn.Origin(); o != nil && o != fn {
		name = o.String()
		if i := strings.IndexByte(name, '['); i > 0 {
			if j := strings.LastIndexByte(name, ']'); j > i {
				name = name[:i] + name[j+1:]
			}
		}
	}
	f, ok := intrTab[name]
	if !ok {
		if strings.HasPrefix(name, vpPath+".") {
			f, ok = intrTab["vp."+name[len(vpPath)+1:]]
		}
		if !ok {
			return nil
		}
	}
	return func(fr *frame, fn *ssa.Function, a []Value) Value {
		return f(in, fr, fn, a)
	}
}

func reg(name string, f func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value) {
	intrTab[name] = f
}

func anySym(a ...Value) bool {
	for _, v := range a {
		switch v.(type) {
		case *Term, *SymStr, *Chunk:
			return true
		}
	}
	return false
}

var f64ti = &tinfo{k: tkFloat, w: 64}
var tF64 = types.Typ[types.Float64]
var tInt = types.Typ[types.Int]
var tByte = types.Typ[types.Uint8]
var tString = types.Typ[types.String]

func (in *Interp) str(v Value) string {
	switch s := v.(type) {
	case string:
		return s
	case *SymStr:
		var b []byte
		for _, x := range s.b {
			b = append(b, byte(in.concretizeInt(x, false)))
		}
		return string(b)
	}
	panic(unsupported(fmt.Sprintf("string expected, got %T", v)))
}

func (in *Interp) varName(name string) string {
	k := in.names[name]
	in.names[name] = k + 1
	return name + "#" + strconv.Itoa(k)
}

func (in *Interp) newVar(name string, s Sort, rng string) *Term {
	n := in.varName(name)
	t := in.b.Var(n+rng, s)
	in.inputs = append(in.inputs, inputVar{name: n, t: t})
	return t
}

func (in *Interp) intVar(name string, lo, hi int64, ti *tinfo) Value {
	if lo > hi {
		panic(pathEnd{kind: endAssume})
	}
	if lo == hi {
		n := in.varName(name)
		in.inputs = append(in.inputs, inputVar{name: n, v: lo})
		return lo
	}
	var t *Term
	if in.math {
		t = in.newVar(name, SInt, fmt.Sprintf(":%d:%d", lo, hi))
		t.lo, t.hi = big.NewInt(lo), big.NewInt(hi)
	} else {
		t = in.newVar(name, SBV(int(ti.w)), "")
	}
	ty := tInt
	if ti.k == tkUint {
		in.addPC(in.boolTerm(in.cmpInt(token.LEQ, ti, lo, t)))
		in.addPC(in.boolTerm(in.cmpInt(token.LEQ, ti, t, hi)))
		return t
	}
	_ = ty
	// addPC even when bounds make it trivially true for the builder
	if in.math {
		in.sol.Assert(in.b.App("<=", SBool, in.b.Int(lo), t))
		in.sol.Assert(in.b.App("<=", SBool, t, in.b.Int(hi)))
	} else {
		in.addPC(in.b.BVCmp("bvsle", in.b.BV(uint64(lo), int(ti.w)), t))
		in.addPC(in.b.BVCmp("bvsle", t, in.b.BV(uint64(hi), int(ti.w))))
	}
	return t
}

func (in *Interp) cmpInt(op token.Token, ti *tinfo, x, y Value) Value {
	return in.intSym(op, ti, x, y, tInt)
}

func (in *Interp) byteVar(name, alphabet string) *Term {
	var t *Term
	if in.math {
		t = in.newVar(name, SInt, ":0:255")
		t.lo, t.hi = big.NewInt(0), big.NewInt(255)
		in.sol.Assert(in.b.App("<=", SBool, in.b.Int(0), t))
		in.sol.Assert(in.b.App("<=", SBool, t, in.b.Int(255)))
	} else {
		t = in.newVar(name, SBV(8), "")
	}
	if alphabet != "" {
		c := in.b.F
		for i := 0; i < len(alphabet); i++ {
			c = in.b.Or(c, in.b.Eq(t, in.intConst(int64(alphabet[i]), t.sort)))
		}
		in.addPC(c)
	}
	return t
}

// realFun applies an uninterpreted real function (math mode) or FP function.
func (in *Interp) floatUF(name string, args ...Value) Value {
	var ts []*Term
	for _, a := range args {
		t := in.floatTerm(a, f64ti)
		if in.math {
			t = in.b.cn.rep(t)
		}
		ts = append(ts, t)
	}
	s := SFP64
	if in.math {
		s = SReal
	}
	return in.b.UF(name, s, ts...)
}

func (in *Interp) sqrt(v Value) Value {
	switch x := v.(type) {
	case float64:
		return math.Sqrt(x)
	case *Term:
		if !in.math {
			return in.norm(in.b.FPUn("fp.sqrt RNE", x), f64ti)
		}
		zero := in.b.Real(new(big.Rat))
		x = in.b.cn.rep(x)
		sg := in.b.cn.sign(x)
		if sg == 0 && in.branch(in.norm(in.b.ACmp("<", x, zero), nil)) {
			return math.NaN()
		}
		r := in.b.Var(fmt.Sprintf("sqrt!%d", x.id), SReal)
		in.b.cn.sqrts[r] = x
		pos := "<="
		if sg == 2 {
			pos = "<"
		}
		c := in.b.And(in.b.ACmp(pos, zero, r), in.b.Eq(in.b.Arith("*", r, r), x))
		if _, ok := in.known[c]; !ok {
			in.addPC(c)
		}
		return r
	}
	panic(unsupported("sqrt"))
}

func math1(name string, f func(float64) float64) {
	reg("math."+name, func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		if x, ok := a[0].(float64); ok {
			return f(x)
		}
		return in.floatUF("math."+name, a[0])
	})
}

func init() {
	math1("Exp", math.Exp)
	math1("Exp2", math.Exp2)
	math1("Expm1", math.Expm1)
	math1("Log", math.Log)
	math1("Log2", math.Log2)
	math1("Log10", math.Log10)
	math1("Log1p", math.Log1p)
	math1("Tanh", math.Tanh)
	math1("Sin", math.Sin)
	math1("Cos", math.Cos)
	math1("Cbrt", math.Cbrt)
	reg("math.Pow", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		x, ok1 := a[0].(float64)
		y, ok2 := a[1].(float64)
		if ok1 && ok2 {
			return math.Pow(x, y)
		}
		if ok2 {
			switch y {
			case 0:
				return 1.0
			case 1:
				return a[0]
			case 2:
				if in.math {
					return in.floatSym(token.MUL, f64ti, a[0], a[0])
				}
			}
		}
		if ok1 && x == 1 {
			return 1.0
		}
		return in.floatUF("math.Pow", a[0], a[1])
	})
	reg("math.Sqrt", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return in.sqrt(a[0]) })
	reg("math.sqrt", intrTab["math.Sqrt"])
	reg("math.Abs", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		switch x := a[0].(type) {
		case float64:
			return math.Abs(x)
		case *Term:
			if in.math {
				zero := in.b.Real(new(big.Rat))
				return in.norm(in.b.Ite(in.b.ACmp("<=", zero, x), x, in.b.Arith("*", in.b.Real(big.NewRat(-1, 1)), x)), f64ti)
			}
			return in.norm(in.b.FPUn("fp.abs", x), f64ti)
		}
		return nil
	})
	rnd := func(name string, f func(float64) float64, fp string) {
		reg("math."+name, func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			switch x := a[0].(type) {
			case float64:
				return f(x)
			case *Term:
				if !in.math {
					return in.norm(in.b.FPUn("fp.roundToIntegral "+fp, x), f64ti)
				}
				b := in.b
				zero := b.Real(new(big.Rat))
				neg := b.Real(big.NewRat(-1, 1))
				fl := b.ToReal(b.ToInt(x))
				ce := b.Arith("*", neg, b.ToReal(b.ToInt(b.Arith("*", neg, x))))
				switch name {
				case "Floor":
					return in.norm(fl, f64ti)
				case "Ceil":
					return in.norm(ce, f64ti)
				case "Trunc":
					return in.norm(b.Ite(b.ACmp("<=", zero, x), fl, ce), f64ti)
				}
			}
			panic(unsupported("math." + name))
		})
		low := strings.ToLower(name)
		reg("math."+low, intrTab["math."+name])
	}
	rnd("Floor", math.Floor, "RTN")
	rnd("Ceil", math.Ceil, "RTP")
	rnd("Trunc", math.Trunc, "RTZ")
	rnd("Round", math.Round, "RNA")
	reg("math.IsNaN", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		switch x := a[0].(type) {
		case float64:
			return x != x
		case *Term:
			if in.math {
				return false
			}
			return in.norm(in.b.FPIsNaN(x), nil)
		}
		return nil
	})
	reg("math.IsInf", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		sgn := in.concretizeInt(a[1], true)
		switch x := a[0].(type) {
		case float64:
			return math.IsInf(x, int(sgn))
		case *Term:
			if in.math {
				return false
			}
			p, n := in.b.FPCmp("fp.eq", x, in.b.FP(math.Inf(1))), in.b.FPCmp("fp.eq", x, in.b.FP(math.Inf(-1)))
			switch {
			case sgn > 0:
				return in.norm(p, nil)
			case sgn < 0:
				return in.norm(n, nil)
			}
			return in.norm(in.b.Or(p, n), nil)
		}
		return nil
	})
	reg("math.Max", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return in.minmax(a, true) })
	reg("math.Min", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return in.minmax(a, false) })
	reg("math.max", intrTab["math.Max"])
	reg("math.min", intrTab["math.Min"])
	reg("math.Mod", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		return math.Mod(conF(a[0]), conF(a[1]))
	})
	reg("math.FMA", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		if anySym(a...) {
			if in.math {
				return in.binop(token.ADD, tF64, in.binop(token.MUL, tF64, a[0], a[1], tF64), a[2], tF64)
			}
			panic(unsupported("math.FMA"))
		}
		return math.FMA(conF(a[0]), conF(a[1]), conF(a[2]))
	})
	reg("math.Hypot", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		if anySym(a...) {
			s := in.binop(token.ADD, tF64, in.binop(token.MUL, tF64, a[0], a[0], tF64), in.binop(token.MUL, tF64, a[1], a[1], tF64), tF64)
			return in.sqrt(s)
		}
		return math.Hypot(conF(a[0]), conF(a[1]))
	})
	reg("math.Float64bits", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		if x, ok := a[0].(float64); ok {
			return int64(math.Float64bits(x))
		}
		panic(unsupported("Float64bits of a symbolic value"))
	})
	reg("math.Float64frombits", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		return math.Float64frombits(uint64(in.concretizeInt(a[0], false)))
	})
	reg("math.Float32bits", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		return int64(math.Float32bits(float32(conF(a[0]))))
	})
	reg("math.Float32frombits", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		return float64(math.Float32frombits(uint32(in.concretizeInt(a[0], false))))
	})
	for _, n := range []string{"Float64bits", "Float64frombits", "Float32bits", "Float32frombits"} {
		reg("internal/strconv.f"+n[1:], intrTab["math."+n])
	}

	// bits
	// On symbolic bit-vectors these are their Go bodies.
	reg("math/bits.Mul64", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		if !in.math && anySym(a...) {
			return in.rawCall(fr, fn, a)
		}
		h, l := bits.Mul64(uint64(in.concretizeInt(a[0], false)), uint64(in.concretizeInt(a[1], false)))
		return Tuple{int64(h), int64(l)}
	})
	reg("math/bits.Len64", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		if !in.math && anySym(a...) {
			return in.rawCall(fr, fn, a)
		}
		return int64(bits.Len64(uint64(in.concretizeInt(a[0], false))))
	})
	reg("math/bits.Len", intrTab["math/bits.Len64"])
	reg("math/bits.TrailingZeros64", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		if !in.math && anySym(a...) {
			return in.rawCall(fr, fn, a)
		}
		return int64(bits.TrailingZeros64(uint64(in.concretizeInt(a[0], false))))
	})

	// runtime and friends
	reg("runtime.NumCPU", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return int64(runtime.NumCPU()) })
	reg("runtime.GOMAXPROCS", intrTab["runtime.NumCPU"])
	reg("runtime.Callers", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return int64(0) })
	reg("runtime.Caller", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		return Tuple{int64(0), "", int64(0), false}
	})
	reg("runtime.NumGoroutine", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return int64(len(in.sch.gs)) })
	nop := func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return in.zeroResult(fn) }
	for _, n := range []string{"runtime.GC", "runtime.KeepAlive", "runtime.SetFinalizer", "runtime/debug.FreeOSMemory", "runtime/pprof.StopCPUProfile", "runtime/pprof.StartCPUProfile",
		"(*strings.Builder).copyCheck", "internal/race.Acquire", "internal/race.Release", "internal/race.ReleaseMerge", "internal/race.Disable", "internal/race.Enable", "internal/race.Read", "internal/race.Write",
		"runtime/debug.SetGCPercent", "(*sync.Pool).Put", "internal/godebug.New", "(*internal/godebug.Setting).IncNonDefault", "runtime/pprof.WriteHeapProfile", "time.Sleep0",
		"internal/asan.Read", "internal/asan.Write", "internal/msan.Read", "internal/msan.Write"} {
		reg(n, nop)
	}
	reg("(*internal/godebug.Setting).Value", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return "" })
	reg("runtime.Gosched", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { in.sch.gosched(); return nil })
	reg("time.Sleep", intrTab["runtime.Gosched"])
	reg("time.Now", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		return Struct{int64(0), int64(63900000000), (*Value)(nil)}
	})
	reg("(time.Duration).String", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return "0s" })
	reg("(time.Time).String", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return "time" })

	// strings / bytes / unicode with symbolic contents
	reg("bufio.isSpace", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return in.isSpace(a[0]) })
	reg("unicode.IsSpace", intrTab["bufio.isSpace"])
	reg("strings.Fields", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		if s, ok := a[0].(string); ok {
			res := Slice{}
			for _, f := range strings.Fields(s) {
				res = append(res, f)
			}
			return res
		}
		bs := strBytes(a[0])
		res, start := Slice{}, -1
		for i := 0; i < len(bs); {
			n, space := 1, false
			if _, ok := bs[i].(*Chunk); !ok {
				end := i + 4
				if end > len(bs) {
					end = len(bs)
				}
				var r Value
				r, n = in.decodeRune(bs[i:end])
				space = in.branch(in.isSpace(r))
			}
			if space && start >= 0 {
				res = append(res, mkStr(bs[start:i]))
				start = -1
			} else if !space && start < 0 {
				start = i
			}
			i += n
		}
		if start >= 0 {
			res = append(res, mkStr(bs[start:]))
		}
		return res
	})
	reg("strings.ToLower", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		return in.toLower(a[0], 'A', 'Z', 32, strings.ToLower)
	})
	reg("strings.ToUpper", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		return in.toLower(a[0], 'a', 'z', -32, strings.ToUpper)
	})
	reg("strings.Clone", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return a[0] })
	reg("internal/stringslite.Clone", intrTab["strings.Clone"])
	dr := func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		var bs []Value
		if s, ok := a[0].(Slice); ok {
			bs = s
			if len(bs) > 4 {
				bs = bs[:4]
			}
		} else {
			bs = strBytes(a[0])
		}
		r, n := in.decodeRune(bs)
		return Tuple{r, int64(n)}
	}
	reg("unicode/utf8.DecodeRune", dr)
	reg("unicode/utf8.DecodeRuneInString", dr)
	reg("unicode/utf8.FullRune", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		s, _ := a[0].(Slice)
		if len(s) == 0 {
			return false
		}
		switch c := s[0].(type) {
		case *Chunk:
			return true
		case *Term:
			if in.branch(in.binop(token.LSS, tByte, c, int64(0x80), tByte)) {
				return true
			}
		}
		var b []byte
		for i := 0; i < len(s) && i < 4; i++ {
			b = append(b, byte(in.concretizeInt(s[i], false)))
		}
		return utf8.FullRune(b)
	})
	reg("unicode/utf8.RuneCountInString", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		if s, ok := a[0].(string); ok {
			return int64(utf8.RuneCountInString(s))
		}
		n := 0
		bs := strBytes(a[0])
		for p := 0; p < len(bs); n++ {
			_, w := in.decodeRune(bs[p:])
			p += w
		}
		return int64(n)
	})
	reg("unicode/utf8.RuneCount", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		n := 0
		bs, _ := a[0].(Slice)
		for p := 0; p < len(bs); n++ {
			_, w := in.decodeRune(bs[p:])
			p += w
		}
		return int64(n)
	})
	ib := func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		var bs []Value
		if s, ok := a[0].(Slice); ok {
			bs = s
		} else if s, ok := a[0].(string); ok {
			if c, ok := a[1].(int64); ok {
				return int64(strings.IndexByte(s, byte(c)))
			}
			bs = strBytes(s)
		} else {
			bs = strBytes(a[0])
		}
		ti := in.byteTI()
		for i, x := range bs {
			if in.branch(in.equalByte(ti, x, a[1])) {
				return int64(i)
			}
		}
		return int64(-1)
	}
	for _, n := range []string{"internal/bytealg.IndexByte", "internal/bytealg.IndexByteString", "bytes.IndexByte", "strings.IndexByte", "internal/stringslite.IndexByte"} {
		reg(n, ib)
	}
	lib := func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		var bs []Value
		if s, ok := a[0].(Slice); ok {
			bs = s
		} else {
			bs = strBytes(a[0])
		}
		for i := len(bs) - 1; i >= 0; i-- {
			if in.branch(in.equalByte(in.byteTI(), bs[i], a[1])) {
				return int64(i)
			}
		}
		return int64(-1)
	}
	reg("internal/bytealg.LastIndexByte", lib)
	reg("internal/bytealg.LastIndexByteString", lib)
	cnt := func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		var bs []Value
		if s, ok := a[0].(Slice); ok {
			bs = s
		} else {
			bs = strBytes(a[0])
		}
		n := int64(0)
		for _, x := range bs {
			if in.branch(in.equalByte(in.byteTI(), x, a[1])) {
				n++
			}
		}
		return n
	}
	reg("internal/bytealg.Count", cnt)
	reg("internal/bytealg.CountString", cnt)
	eqb := func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		x, _ := a[0].(Slice)
		y, _ := a[1].(Slice)
		return in.norm(in.strEq(&SymStr{x}, &SymStr{y}), nil)
	}
	reg("internal/bytealg.Equal", eqb)
	reg("bytes.Equal", eqb)
	idx := func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		x, ok1 := a[0].(string)
		y, ok2 := a[1].(string)
		if ok1 && ok2 {
			return int64(strings.Index(x, y))
		}
		p, q := in.bytesOf(a[0]), in.bytesOf(a[1])
		for i := 0; i+len(q) <= len(p); i++ {
			if in.branch(in.norm(in.strEq(&SymStr{p[i : i+len(q)]}, &SymStr{q}), nil)) {
				return int64(i)
			}
		}
		return int64(-1)
	}
	for _, n := range []string{"strings.Index", "bytes.Index", "internal/stringslite.Index", "internal/bytealg.Index", "internal/bytealg.IndexString"} {
		reg(n, idx)
	}
	cmp := func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		x, y := &SymStr{in.bytesOf(a[0])}, &SymStr{in.bytesOf(a[1])}
		if in.branch(in.norm(in.strLess(x, y), nil)) {
			return int64(-1)
		}
		if in.branch(in.norm(in.strEq(x, y), nil)) {
			return int64(0)
		}
		return int64(1)
	}
	for _, n := range []string{"internal/bytealg.Compare", "internal/bytealg.CompareString", "bytes.Compare", "strings.Compare"} {
		reg(n, cmp)
	}
	reg("internal/bytealg.MakeNoZero", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		n := in.concretizeInt(a[0], true)
		s := make(Slice, n)
		for i := range s {
			s[i] = int64(0)
		}
		return s
	})
	reg("internal/bytealg.HashStr", nil2)
	delete(intrTab, "internal/bytealg.HashStr")

	// strconv on printed symbolic numbers
	reg("strconv.ParseFloat", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		if s, ok := a[0].(string); ok {
			f, err := strconv.ParseFloat(s, int(in.concretizeInt(a[1], true)))
			if err == nil {
				return Tuple{f, Iface{}}
			}
			return in.rawCall(fr, fn, a)
		}
		if s, ok := a[0].(*SymStr); ok {
			if len(s.b) == 1 {
				if c, ok := s.b[0].(*Chunk); ok {
					return Tuple{in.chunkFloat(c), Iface{}}
				}
			}
			in.noChunk(s)
			return in.callIntr(fr, fn, []Value{in.str(s), a[1]})
		}
		panic(unsupported("ParseFloat"))
	})
	chunkInt := func(name string, tuple func(in *Interp, v Value) Value) {
		reg(name, func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			if s, ok := a[0].(*SymStr); ok {
				if len(s.b) == 1 {
					if c, ok := s.b[0].(*Chunk); ok && c.kind == 'd' {
						return tuple(in, c.t)
					}
				}
				in.noChunk(s)
			}
			return in.rawCall(fr, fn, a)
		})
	}
	okT := func(in *Interp, v Value) Value { return Tuple{v, Iface{}} }
	chunkInt("strconv.Atoi", okT)
	chunkInt("strconv.ParseInt", okT)
	chunkInt("strconv.ParseUint", okT)
	fmtInt := func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		if t, ok := a[0].(*Term); ok {
			return &SymStr{[]Value{&Chunk{t: t, kind: 'd', verb: "d"}}}
		}
		base := int64(10)
		if len(a) > 1 {
			base = in.concretizeInt(a[1], true)
		}
		return strconv.FormatInt(a[0].(int64), int(base))
	}
	reg("strconv.Itoa", fmtInt)
	reg("strconv.FormatInt", fmtInt)
	reg("strconv.FormatFloat", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		c, p := byte(in.concretizeInt(a[1], false)), int(in.concretizeInt(a[2], true))
		if x, ok := a[0].(float64); ok {
			return strconv.FormatFloat(x, c, p, int(in.concretizeInt(a[3], true)))
		}
		return &SymStr{[]Value{&Chunk{t: a[0], kind: 'f', prec: floatPrec(c, p), verb: fmt.Sprintf("%c%d", c, p)}}}
	})
	reg("strconv.AppendFloat", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		s, _ := a[0].(Slice)
		c, p := byte(in.concretizeInt(a[2], false)), int(in.concretizeInt(a[3], true))
		var add []Value
		if x, ok := a[1].(float64); ok {
			add = strBytes(strconv.FormatFloat(x, c, p, int(in.concretizeInt(a[4], true))))
		} else {
			add = []Value{&Chunk{t: a[1], kind: 'f', prec: floatPrec(c, p), verb: fmt.Sprintf("%c%d", c, p)}}
		}
		return Slice(append(append(make([]Value, 0, len(s)+len(add)), s...), add...))
	})
	reg("strconv.AppendInt", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		s, _ := a[0].(Slice)
		var add []Value
		if x, ok := a[1].(int64); ok {
			add = strBytes(strconv.FormatInt(x, int(in.concretizeInt(a[2], true))))
		} else {
			add = []Value{&Chunk{t: a[1], kind: 'd', verb: "d"}}
		}
		return Slice(append(append(make([]Value, 0, len(s)+len(add)), s...), add...))
	})

	// sort
	reg("sort.SliceStable", sortSlice)
	reg("sort.Slice", sortSlice)
	reg("internal/reflectlite.Swapper", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		s, _ := a[0].(Iface).v.(Slice)
		return &Native{"swapper", func(fr *frame, b []Value) Value {
			i, j := b[0].(int64), b[1].(int64)
			s[i], s[j] = s[j], s[i]
			return nil
		}}
	})
	reg("reflect.Swapper", intrTab["internal/reflectlite.Swapper"])

	// errors
	reg("errors.Is", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		return in.errorsIs(fr, a[0].(Iface), a[1].(Iface), 0)
	})
	reg("errors.As", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		tgt := a[1].(Iface)
		p, ok := tgt.v.(*Value)
		if !ok {
			in.goPanicStr("errors: target must be a non-nil pointer")
		}
		et := tgt.t.Underlying().(*types.Pointer).Elem()
		e := a[0].(Iface)
		for i := 0; e.t != nil && i < 50; i++ {
			if it, isI := et.Underlying().(*types.Interface); isI {
				if in.w.implements(e.t, it) {
					*p = e
					return true
				}
			} else if types.Identical(e.t, et) {
				*p = e.v
				return true
			}
			u := in.w.lookupMethod(e.t, nil, "Unwrap")
			if u == nil {
				return false
			}
			r, _ := in.callValue(fr, u, []Value{e.v}).(Iface)
			e = r
		}
		return false
	})

	// vp
	reg("vp.Int", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		return in.intVar(in.str(a[0]), in.concretizeInt(a[1], true), in.concretizeInt(a[2], true), in.ti(tInt))
	})
	reg("vp.AnyInt", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		return in.intVar(in.str(a[0]), math.MinInt64, math.MaxInt64, in.ti(tInt))
	})
	reg("vp.Uint64", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		if in.math {
			t := in.newVar(in.str(a[0]), SInt, ":u64")
			t.lo, t.hi = big.NewInt(0), in.ti(types.Typ[types.Uint64]).max
			in.sol.Assert(in.b.App("<=", SBool, in.b.Int(0), t))
			in.sol.Assert(in.b.App("<=", SBool, t, in.b.IntBig(t.hi)))
			return t
		}
		return in.newVar(in.str(a[0]), SBV(64), "")
	})
	reg("vp.Byte", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		return in.byteVar(in.str(a[0]), in.str(a[1]))
	})
	reg("vp.String", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		n := int(in.concretizeInt(a[1], true))
		if n == 0 {
			return ""
		}
		name, al := in.str(a[0]), in.str(a[2])
		b := make([]Value, n)
		for i := range b {
			b[i] = in.byteVar(name, al)
		}
		return &SymStr{b}
	})
	reg("vp.Bool", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		return in.newVar(in.str(a[0]), SBool, "")
	})
	reg("vp.Float", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		lo, hi := conF(a[1]), conF(a[2])
		b := in.b
		if in.math {
			t := in.newVar(in.str(a[0]), SReal, "")
			in.addPC(b.ACmp("<=", in.floatTerm(lo, f64ti), t))
			in.addPC(b.ACmp("<=", t, in.floatTerm(hi, f64ti)))
			if x := &in.inputs[len(in.inputs)-1]; x.t == t {
				x.lo, x.hi = lo, hi
			}
			return t
		}
		t := in.newVar(in.str(a[0]), SFP64, "")
		in.addPC(b.FPCmp("fp.leq", b.FP(lo), t))
		in.addPC(b.FPCmp("fp.leq", t, b.FP(hi)))
		return t
	})
	reg("vp.AnyFloat", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		if in.math {
			return in.newVar(in.str(a[0]), SReal, "")
		}
		return in.newVar(in.str(a[0]), SFP64, "")
	})
	reg("vp.Choose", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		n := int(in.concretizeInt(a[1], true))
		v := int64(in.choose(n))
		in.inputs = append(in.inputs, inputVar{name: in.varName(in.str(a[0])), v: v})
		return v
	})
	reg("vp.Fix", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return in.concretizeInt(a[0], true) })
	reg("vp.FixString", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return in.str(a[0]) })
	reg("vp.Assume", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { in.assume(a[0]); return nil })
	reg("vp.Assert", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		in.assert(a[0], in.msg(a[1]))
		return nil
	})
	reg("vp.Fail", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		in.assert(false, in.msg(a[0]))
		return nil
	})
	reg("vp.Skip", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		panic(pathEnd{kind: endAssume})
	})
	reg("vp.Logistic", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		if x, ok := a[0].(float64); ok {
			return 1 / (1 + math.Exp(-x))
		}
		t := in.floatUF("logistic", a[0])
		if in.math {
			r := t.(*Term)
			c := in.b.And(in.b.ACmp("<", in.b.Real(new(big.Rat)), r), in.b.ACmp("<", r, in.b.Real(big.NewRat(1, 1))))
			if _, ok := in.known[c]; !ok {
				in.addPC(c)
			}
		}
		return t
	})
	reg("vp.Reach", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		in.reached[in.str(a[0])] = true
		return nil
	})
	reg("vp.Near", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return in.near(a[0], a[1]) })
	reg("vp.SameFloat", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return in.sameDatum(a[0], a[1]) })
	reg("vp.And", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		var acc Value = true
		s, _ := a[0].(Slice)
		for _, x := range s {
			acc = in.andV(acc, x)
		}
		return acc
	})
	reg("vp.Or", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		acc := in.b.F
		s, _ := a[0].(Slice)
		for _, x := range s {
			acc = in.b.Or(acc, in.boolTerm(x))
		}
		return in.norm(acc, nil)
	})
	reg("vp.Implies", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		return in.norm(in.b.Or(in.b.Not(in.boolTerm(a[0])), in.boolTerm(a[1])), nil)
	})
	reg("vp.IteFloat", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		return in.norm(in.b.Ite(in.boolTerm(a[0]), in.floatTerm(a[1], f64ti), in.floatTerm(a[2], f64ti)), f64ti)
	})
	reg("vp.IteInt", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		ti := in.ti(tInt)
		return in.norm(in.b.Ite(in.boolTerm(a[0]), in.intTerm(a[1], ti), in.intTerm(a[2], ti)), ti)
	})
	reg("vp.Same", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		return in.deepEq(a[0], a[1], 0)
	})
	reg("vp.Param", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		if v, ok := in.h.Params[in.str(a[0])]; ok {
			return v
		}
		return a[1]
	})
	reg("vp.Symbolic", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return true })
	reg("vp.CaptureStdout", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		save := in.stdout
		in.stdout = nil
		in.callValue(fr, a[0], nil)
		r := mkStr(in.stdout)
		in.stdout = save
		return r
	})
	reg("vp.Yield", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		if in.sch.yield {
			in.sch.yieldPoint()
		} else if in.sch.explore && len(in.sch.gs) > 1 {
			in.sch.point()
		}
		return nil
	})
	reg("vp.Go", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		in.sch.spawn(a[0], nil)
		if in.sch.yield {
			in.sch.yieldPoint()
		}
		return nil
	})
	reg("vp.Settle", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		s := in.sch
		for i := 0; i < 1000 && len(s.runq) > 0; i++ {
			if s.yield {
				k := 0
				for j, g := range s.runq {
					if g.id < s.runq[k].id {
						k = j
					}
				}
				s.handTo(k)
				continue
			}
			s.gosched()
		}
		return nil
	})
	reg("vp.Observe", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		in.observe(in.str(a[0]), a[1])
		return nil
	})
	reg("vp.TempDir", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		in.fs.mkdirAll("/vptmp")
		return "/vptmp"
	})
	reg("vp.SetStdin", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		s, _ := a[0].(Slice)
		in.fs.stdin = append([]Value(nil), s...)
		return nil
	})
	reg("vp.Trace", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		fmt.Fprintf(os.Stderr, "TRACE %v\n", showVal(a[0]))
		return nil
	})
	reg("(*github.com/peterh/liner.State).Prompt", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		if len(in.fs.stdin) > 0 {
			l := in.fs.stdin[0]
			in.fs.stdin = in.fs.stdin[1:]
			return Tuple{l, Iface{}}
		}
		return Tuple{"", in.loadGlobal("io", "EOF")}
	})
	reg("(*github.com/peterh/liner.State).PromptWithSuggestion", intrTab["(*github.com/peterh/liner.State).Prompt"])
	reg("(*github.com/peterh/liner.State).Close", nop)
	reg("(*github.com/peterh/liner.State).AppendHistory", nop)
	reg("(*github.com/peterh/liner.State).SetCtrlCAborts", nop)
	reg("github.com/peterh/liner.NewLiner", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		p := new(Value)
		*p = in.zero(fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem())
		return p
	})
	_ = sort.Ints
	_ = unicode.IsSpace
}

func nil2(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return nil }

func conF(v Value) float64 {
	if f, ok := v.(float64); ok {
		return f
	}
	panic(unsupported("concrete float expected"))
}

func (in *Interp) msg(v Value) string {
	switch s := v.(type) {
	case string:
		return s
	case *SymStr:
		return "(symbolic message)"
	}
	return fmt.Sprint(v)
}

func (in *Interp) noChunk(s *SymStr) {
	for _, b := range s.b {
		if _, ok := b.(*Chunk); ok {
			panic(unsupported("parsing text that embeds a printed symbolic number"))
		}
	}
}

// rawCall interprets fn's body although it has an intrinsic.
func (in *Interp) rawCall(fr *frame, fn *ssa.Function, a []Value) Value {
	save := in.intr[fn]
	in.intr[fn] = nil
	defer func() { in.intr[fn] = save }()
	return in.callEnv(fr, fn, a, nil)
}

func (in *Interp) callIntr(fr *frame, fn *ssa.Function, a []Value) Value {
	return in.callEnv(fr, fn, a, nil)
}

func floatPrec(c byte, p int) int {
	if c == 'f' && p >= 0 {
		return p
	}
	if p < 0 || (c == 'g' || c == 'G' || c == 'e') && p >= 16 {
		return -1
	}
	return -2 // significant digits: unsupported rounding
}

// chunkFloat is the value a printed number parses back to: the exact value,
// or some value within half a unit of the last printed decimal.
func (in *Interp) chunkFloat(c *Chunk) Value {
	if c.kind == 'd' {
		return in.convert(tInt, tF64, c.t)
	}
	if c.prec == -1 {
		return c.t
	}
	if c.prec < 0 {
		panic(unsupported("number printed with significant-digit precision " + c.verb))
	}
	if !in.math {
		panic(unsupported("rounded printing in bits mode"))
	}
	x := in.floatTerm(c.t, f64ti)
	r := in.b.UF(fmt.Sprintf("round%d", c.prec), SReal, x)
	h := in.b.Real(new(big.Rat).SetFrac(big.NewInt(1), new(big.Int).Mul(big.NewInt(2), new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(c.prec)), nil))))
	d := in.b.Arith("-", r, x)
	cc := in.b.And(in.b.ACmp("<=", d, h), in.b.ACmp("<=", in.b.Arith("-", in.b.Real(new(big.Rat)), h), d))
	if _, ok := in.known[cc]; !ok {
		in.addPC(cc)
	}
	return r
}

func (in *Interp) minmax(a []Value, max bool) Value {
	x, ok1 := a[0].(float64)
	y, ok2 := a[1].(float64)
	if ok1 && ok2 {
		if max {
			return math.Max(x, y)
		}
		return math.Min(x, y)
	}
	p, q := a[0], a[1]
	if max {
		p, q = q, p
	}
	// p < q ? p : q  (NaN: propagate)
	if !in.math {
		for _, v := range a {
			if t, ok := v.(*Term); ok {
				if in.branch(in.norm(in.b.FPIsNaN(t), nil)) {
					return math.NaN()
				}
			} else if f := v.(float64); f != f {
				return f
			}
		}
	}
	if in.branch(in.binop(token.LSS, tF64, a[0], a[1], tF64)) == !max {
		return a[0]
	}
	return a[1]
}

func (in *Interp) equalByte(ti *tinfo, x, y Value) Value {
	a, ok1 := x.(int64)
	b, ok2 := y.(int64)
	if ok1 && ok2 {
		return a == b
	}
	if _, ok := x.(*Chunk); ok {
		if b, ok := y.(int64); ok {
			return b >= '0' && b <= '9' && b == '1'
		}
	}
	return in.eqInt(ti, x, y)
}

func (in *Interp) bytesOf(v Value) []Value {
	if s, ok := v.(Slice); ok {
		return s
	}
	return strBytes(v)
}

func (in *Interp) isSpace(r Value) Value {
	switch x := r.(type) {
	case int64:
		return unicode.IsSpace(rune(x))
	case *Chunk:
		return false
	case *Term:
		ti := in.ti(types.Typ[types.Int32])
		if in.branch(in.intSym(token.LSS, ti, x, int64(128), tInt)) {
			acc := in.b.F
			for _, c := range []int64{' ', '\t', '\n', '\v', '\f', '\r'} {
				acc = in.b.Or(acc, in.b.Eq(x, in.intTerm(c, ti)))
			}
			return in.norm(acc, nil)
		}
		return unicode.IsSpace(rune(in.concretizeInt(x, true)))
	}
	panic(unsupported("isSpace"))
}

func (in *Interp) toLower(v Value, lo, hi, d int64, host func(string) string) Value {
	s, ok := v.(*SymStr)
	if !ok {
		return host(v.(string))
	}
	ti := in.byteTI()
	out := make([]Value, len(s.b))
	for i, x := range s.b {
		switch c := x.(type) {
		case *Chunk:
			out[i] = c
		case int64:
			if c >= 0x80 {
				return host(in.str(v))
			}
			out[i] = int64(host(string(rune(c)))[0])
		case *Term:
			if !in.branch(in.intSym(token.LSS, ti, c, int64(0x80), tInt)) {
				return host(in.str(v))
			}
			if in.math {
				rng := in.b.And(in.b.ACmp("<=", in.b.Int(lo), c), in.b.ACmp("<=", c, in.b.Int(hi)))
				out[i] = in.norm(in.b.bounds(in.b.Ite(rng, in.b.Arith("+", c, in.b.Int(d)), c), big.NewInt(0), big.NewInt(255)), ti)
				continue
			}
			rng := in.b.And(in.b.BVCmp("bvule", in.b.BV(uint64(lo), 8), c), in.b.BVCmp("bvule", c, in.b.BV(uint64(hi), 8)))
			out[i] = in.norm(in.b.Ite(rng, in.b.BVOp("bvadd", c, in.b.BV(uint64(d), 8)), c), ti)
		}
	}
	return mkStr(out)
}

func sortSlice(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
	s, _ := a[0].(Iface).v.(Slice)
	// insertion sort in place, as the library does for short slices; the
	// less function reads the slice itself
	for i := 1; i < len(s); i++ {
		for j := i; j > 0; j-- {
			if !in.branch(in.callValue(fr, a[1], []Value{int64(j), int64(j - 1)})) {
				break
			}
			x, y := copyVal(s[j]), copyVal(s[j-1])
			storeTo(&s[j], y)
			storeTo(&s[j-1], x)
		}
	}
	return nil
}

func (in *Interp) errorsIs(fr *frame, e, t Iface, depth int) Value {
	for i := 0; i < 50; i++ {
		if e.t == nil || t.t == nil {
			return e.t == nil && t.t == nil
		}
		if types.Comparable(t.t) && types.Identical(e.t, t.t) && in.branch(in.equal(e.t, e.v, t.v)) {
			return true
		}
		if m := in.w.lookupMethod(e.t, nil, "Is"); m != nil {
			if in.branch(in.callValue(fr, m, []Value{e.v, t})) {
				return true
			}
		}
		u := in.w.lookupMethod(e.t, nil, "Unwrap")
		if u == nil {
			return false
		}
		switch r := in.callValue(fr, u, []Value{e.v}).(type) {
		case Iface:
			if r.t == nil {
				return false
			}
			e = r
		case Slice:
			for _, x := range r {
				if in.errorsIs(fr, x.(Iface), t, depth+1) == true {
					return true
				}
			}
			return false
		}
	}
	return false
}

// near: equality of floats up to 1e-6 (math mode) or exactly (bits mode, NaN == NaN).
func (in *Interp) near(x, y Value) Value {
	if a, ok := x.(float64); ok {
		if b, ok := y.(float64); ok {
			return nearF(a, b)
		}
	}
	if !in.math {
		return in.sameDatum(x, y)
	}
	if _, s := isSpecial(x); s {
		return false
	}
	if _, s := isSpecial(y); s {
		return false
	}
	p, q := in.floatTerm(x, f64ti), in.floatTerm(y, f64ti)
	if p == q {
		return true
	}
	if polyEqual(p, q) || in.b.cn.equal(p, q) {
		return true
	}
	d := in.b.Arith("-", p, q)
	eps := in.b.Real(big.NewRat(1, 1000000))
	neg := in.b.Real(big.NewRat(-1, 1000000))
	return in.norm(in.b.And(in.b.ACmp("<=", d, eps), in.b.ACmp("<=", neg, d)), nil)
}

func nearF(a, b float64) bool {
	if a == b || a != a && b != b {
		return true
	}
	d := math.Abs(a - b)
	return d <= 1e-9 || d <= 1e-9*math.Max(math.Abs(a), math.Abs(b))
}

func (in *Interp) sameDatum(x, y Value) Value {
	a, ok1 := x.(float64)
	b, ok2 := y.(float64)
	if ok1 && ok2 {
		return a == b || a != a && b != b
	}
	if in.math {
		return in.equal(tF64, x, y)
	}
	p, q := in.floatTerm(x, f64ti), in.floatTerm(y, f64ti)
	return in.norm(in.b.Or(in.b.FPCmp("fp.eq", p, q), in.b.And(in.b.FPIsNaN(p), in.b.FPIsNaN(q))), nil)
}

// deepEq: structural equality; floats are compared as data (NaN == NaN).
func (in *Interp) deepEq(x, y Value, depth int) Value {
	if depth > 50 {
		panic(unsupported("deep equality too deep"))
	}
	switch a := x.(type) {
	case Iface:
		b, ok := y.(Iface)
		if !ok {
			return false
		}
		if a.t == nil || b.t == nil {
			return a.t == nil && b.t == nil
		}
		if !types.Identical(a.t, b.t) {
			return false
		}
		switch in.ti(a.t).k {
		case tkFloat:
			return in.sameDatum(a.v, b.v)
		case tkBool, tkInt, tkUint, tkString:
			return in.equal(a.t, a.v, b.v)
		}
		return in.deepEqT(a.t, a.v, b.v, depth+1)
	}
	panic(unsupported(fmt.Sprintf("deepEq %T", x)))
}

func (in *Interp) deepEqT(t types.Type, x, y Value, depth int) Value {
	if depth > 60 {
		panic(unsupported("deep equality too deep"))
	}
	ti := in.ti(t)
	switch ti.k {
	case tkFloat:
		return in.sameDatum(x, y)
	case tkStruct:
		s := ti.u.(*types.Struct)
		a, b := x.(Struct), y.(Struct)
		var acc Value = true
		for i := range a {
			acc = in.andV(acc, in.deepEqT(s.Field(i).Type(), a[i], b[i], depth+1))
			if acc == false {
				return false
			}
		}
		return acc
	case tkArray:
		e := ti.u.(*types.Array).Elem()
		return in.seqEq(e, x.(Array), y.(Array), depth)
	case tkSlice:
		a, _ := x.(Slice)
		b, _ := y.(Slice)
		if len(a) != len(b) {
			return false
		}
		return in.seqEq(ti.u.(*types.Slice).Elem(), a, b, depth)
	case tkPtr:
		a, _ := x.(*Value)
		b, _ := y.(*Value)
		if a == b {
			return true
		}
		if a == nil || b == nil {
			return false
		}
		return in.deepEqT(ti.u.(*types.Pointer).Elem(), *a, *b, depth+1)
	case tkMap:
		a, _ := x.(*Map)
		b, _ := y.(*Map)
		na, nb := 0, 0
		if a != nil {
			na = a.n
		}
		if b != nil {
			nb = b.n
		}
		if na != nb {
			return false
		}
		if na == 0 {
			return true
		}
		var acc Value = true
		for i, k := range a.keys {
			if a.dead[i] {
				continue
			}
			j := in.mapFind(b, k)
			if j < 0 {
				return false
			}
			acc = in.andV(acc, in.deepEqT(ti.u.(*types.Map).Elem(), *a.vals[i], *b.vals[j], depth+1))
			if acc == false {
				return false
			}
		}
		return acc
	case tkIface:
		return in.deepEq(x, y, depth+1)
	case tkFunc:
		return isNilFn(x) && isNilFn(y)
	}
	return in.equal(t, x, y)
}

func (in *Interp) seqEq(e types.Type, a, b []Value, depth int) Value {
	if len(a) != len(b) {
		return false
	}
	var acc Value = true
	for i := range a {
		acc = in.andV(acc, in.deepEqT(e, a[i], b[i], depth+1))
		if acc == false {
			return false
		}
	}
	return acc
}

func (in *Interp) loadGlobal(pkg, name string) Value {
	p := in.w.pkgs[pkg]
	if p == nil {
		panic(unsupported("package " + pkg + " not loaded"))
	}
	g := p.Var(name)
	if g == nil {
		panic(unsupported("global " + pkg + "." + name))
	}
	return *in.global(g)
}

func (in *Interp) newError(fr *frame, msg Value) Value {
	p := in.w.pkgs["errors"]
	return in.callValue(fr, p.Func("New"), []Value{msg})
}

func (in *Interp) panicText(v Value) string {
	i, ok := v.(Iface)
	if !ok {
		return fmt.Sprintf("%v", v)
	}
	if i.t == in.w.runtimeErrT {
		return "runtime error: " + in.msg(i.v)
	}
	switch x := i.v.(type) {
	case string, int64, float64, bool:
		return fmt.Sprint(x)
	}
	if i.t == nil {
		return "nil"
	}
	return i.t.String()
}

func showVal(v Value) string {
	switch x := v.(type) {
	case Iface:
		return showVal(x.v)
	case *Term:
		return x.String()
	case *SymStr:
		return fmt.Sprintf("sym%v", showVal(Slice(x.b)))
	case Slice:
		var s []string
		for _, e := range x {
			s = append(s, showVal(e))
		}
		return "[" + strings.Join(s, " ") + "]"
	case Struct:
		var s []string
		for _, e := range x {
			s = append(s, showVal(e))
		}
		return "{" + strings.Join(s, " ") + "}"
	case *Value:
		if x == nil {
			return "nil"
		}
		return "&" + showVal(*x)
	}
	return fmt.Sprintf("%v", v)
}

func hostStack() string {
	b := make([]byte, 6000)
	n := runtime.Stack(b, false)
	return string(b[:n])
}
