package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is the interpreter's value representation.
//
//	bool, int64 (every integer type, normalised to its width), float64 (also
//	float32), complex128, string       concrete scalars
//	*Term                              symbolic bool / integer / float
//	*Chunk                             one opaque byte standing for a printed symbolic number
//	*SymStr                            string with at least one symbolic byte
//	*Value                             pointer
//	*SymAddr                           pointer to an element at a symbolic index
//	Struct, Array, Slice, *Map, *Chan, Iface, *Closure, *ssa.Function, *ssa.Builtin, Tuple
//	*Native                            host-implemented closure
type Value = any

type (
	Struct []Value
	Array  []Value
	Tuple  []Value
)

// Slice of nil is represented by Slice(nil).
type Slice []Value

type Iface struct {
	t types.Type
	v Value
}

type Closure struct {
	fn  *ssa.Function
	env []Value
}

type Native struct {
	name string
	f    func(fr *frame, args []Value) Value
}

type SymStr struct{ b []Value }

// Chunk is an opaque run of non-space bytes: the text a symbolic number was
// printed as. It occupies a single byte position.
type Chunk struct {
	t    Value  // the number (Term)
	kind byte   // 'd' or 'f'
	prec int    // digits after the point, -1 = exact
	verb string // for equality
}

type SymAddr struct {
	base []Value
	idx  *Term
	ti   *tinfo
}

type UnsafePtr struct {
	p Value // the underlying typed pointer
}

type Map struct {
	keyT    types.Type
	keys    []Value
	vals    []*Value
	dead    []bool
	n       int
	idx     map[any]int
	sym     bool // some key is symbolic
	version int
}

type mapIter struct {
	m    *Map
	pos  int
	left []int // maporder=all
	all  bool
}

type strIter struct {
	s   Value
	pos int
}

// hkey is a Go-comparable key for concrete values.
type compKey struct{ s string }

func hashKey(v Value) (any, bool) {
	switch x := v.(type) {
	case bool, int64, float64, string, *Value, *Chan, *Map, nil:
		return x, true
	case Iface:
		k, ok := hashKey(x.v)
		if !ok {
			return nil, false
		}
		if x.t == nil {
			return compKey{"nil"}, true
		}
		return compKey{fmt.Sprintf("I%s|%T|%v", x.t.String(), k, k)}, true
	case Struct:
		var sb strings.Builder
		for _, e := range x {
			k, ok := hashKey(e)
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sb, "%T:%v;", k, k)
		}
		return compKey{"S" + sb.String()}, true
	case Array:
		var sb strings.Builder
		for _, e := range x {
			k, ok := hashKey(e)
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sb, "%T:%v;", k, k)
		}
		return compKey{"A" + sb.String()}, true
	}
	return nil, false
}

// ---- types ----

type tkind uint8

const (
	tkOther tkind = iota
	tkBool
	tkInt // signed
	tkUint
	tkFloat
	tkComplex
	tkString
	tkUnsafe
	tkStruct
	tkArray
	tkSlice
	tkPtr
	tkMap
	tkChan
	tkFunc
	tkIface
	tkTuple
)

type tinfo struct {
	k   tkind
	w   uint8 // bits for ints/floats
	u   types.Type
	min *big.Int
	max *big.Int
}

func (in *Interp) ti(t types.Type) *tinfo {
	if x, ok := in.tis[t]; ok {
		return x
	}
	x := &tinfo{u: t.Underlying()}
	switch u := x.u.(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			x.k = tkBool
		case types.Int, types.Int64, types.UntypedInt:
			x.k, x.w = tkInt, 64
		case types.Int32, types.UntypedRune:
			x.k, x.w = tkInt, 32
		case types.Int16:
			x.k, x.w = tkInt, 16
		case types.Int8:
			x.k, x.w = tkInt, 8
		case types.Uint, types.Uint64, types.Uintptr:
			x.k, x.w = tkUint, 64
		case types.Uint32:
			x.k, x.w = tkUint, 32
		case types.Uint16:
			x.k, x.w = tkUint, 16
		case types.Uint8:
			x.k, x.w = tkUint, 8
		case types.Float64, types.UntypedFloat:
			x.k, x.w = tkFloat, 64
		case types.Float32:
			x.k, x.w = tkFloat, 32
		case types.Complex128, types.Complex64, types.UntypedComplex:
			x.k = tkComplex
		case types.String, types.UntypedString:
			x.k = tkString
		case types.UnsafePointer:
			x.k = tkUnsafe
		}
	case *types.Struct:
		x.k = tkStruct
	case *types.Array:
		x.k = tkArray
	case *types.Slice:
		x.k = tkSlice
	case *types.Pointer:
		x.k = tkPtr
	case *types.Map:
		x.k = tkMap
	case *types.Chan:
		x.k = tkChan
	case *types.Signature:
		x.k = tkFunc
	case *types.Interface:
		x.k = tkIface
	case *types.Tuple:
		x.k = tkTuple
	}
	one := big.NewInt(1)
	if x.k == tkInt {
		x.max = new(big.Int).Sub(new(big.Int).Lsh(one, uint(x.w-1)), one)
		x.min = new(big.Int).Neg(new(big.Int).Lsh(one, uint(x.w-1)))
	} else if x.k == tkUint {
		x.min = big.NewInt(0)
		x.max = new(big.Int).Sub(new(big.Int).Lsh(one, uint(x.w)), one)
	}
	in.tis[t] = x
	return x
}

func (in *Interp) zero(t types.Type) Value {
	ti := in.ti(t)
	switch ti.k {
	case tkBool:
		return false
	case tkInt, tkUint:
		return int64(0)
	case tkFloat:
		return float64(0)
	case tkComplex:
		return complex128(0)
	case tkString:
		return ""
	case tkUnsafe:
		return UnsafePtr{}
	case tkStruct:
		s := ti.u.(*types.Struct)
		r := make(Struct, s.NumFields())
		for i := range r {
			r[i] = in.zero(s.Field(i).Type())
		}
		return r
	case tkArray:
		a := ti.u.(*types.Array)
		r := make(Array, a.Len())
		in.fillZero(r, a.Elem())
		return r
	case tkSlice:
		return Slice(nil)
	case tkPtr:
		return (*Value)(nil)
	case tkMap:
		return (*Map)(nil)
	case tkChan:
		return (*Chan)(nil)
	case tkFunc:
		return nil
	case tkIface:
		return Iface{}
	case tkTuple:
		tt := ti.u.(*types.Tuple)
		r := make(Tuple, tt.Len())
		for i := range r {
			r[i] = in.zero(tt.At(i).Type())
		}
		return r
	}
	panic(unsupported("zero of " + t.String()))
}

func (in *Interp) fillZero(r []Value, elem types.Type) {
	if len(r) == 0 {
		return
	}
	switch in.ti(elem).k {
	case tkStruct, tkArray:
		for i := range r {
			r[i] = in.zero(elem)
		}
	default:
		z := in.zero(elem)
		for i := range r {
			r[i] = z
		}
	}
}

// copyVal copies aggregate values.
func copyVal(v Value) Value {
	switch x := v.(type) {
	case Struct:
		r := make(Struct, len(x))
		for i, e := range x {
			r[i] = copyVal(e)
		}
		return r
	case Array:
		r := make(Array, len(x))
		for i, e := range x {
			r[i] = copyVal(e)
		}
		return r
	}
	return v
}

func (in *Interp) load(addr Value) Value {
	switch p := addr.(type) {
	case *Value:
		if p == nil {
			in.nilDeref()
		}
		v := *p
		switch v.(type) {
		case Struct, Array:
			return copyVal(v)
		}
		return v
	case *SymAddr:
		return in.selectElem(p.base, p.idx, p.ti)
	}
	panic(unsupported(fmt.Sprintf("load through %T", addr)))
}

func (in *Interp) store(addr Value, v Value) {
	switch p := addr.(type) {
	case *Value:
		if p == nil {
			in.nilDeref()
		}
		storeTo(p, v)
		return
	case *SymAddr:
		i := in.concretizeInt(p.idx, false)
		storeTo(&p.base[i], v)
		return
	}
	panic(unsupported(fmt.Sprintf("store through %T", addr)))
}

func storeTo(p *Value, v Value) {
	switch x := v.(type) {
	case Struct:
		if d, ok := (*p).(Struct); ok && len(d) == len(x) {
			for i := range x {
				storeTo(&d[i], x[i])
			}
			return
		}
		*p = copyVal(v)
	case Array:
		if d, ok := (*p).(Array); ok && len(d) == len(x) {
			for i := range x {
				storeTo(&d[i], x[i])
			}
			return
		}
		*p = copyVal(v)
	default:
		*p = v
	}
}

// ---- strings ----

func strLen(v Value) int {
	switch s := v.(type) {
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	}
	panic(unsupported(fmt.Sprintf("len of string %T", v)))
}

func strBytes(v Value) []Value {
	switch s := v.(type) {
	case string:
		r := make([]Value, len(s))
		for i := 0; i < len(s); i++ {
			r[i] = int64(s[i])
		}
		return r
	case *SymStr:
		return s.b
	}
	panic(unsupported(fmt.Sprintf("bytes of %T", v)))
}

func mkStr(b []Value) Value {
	for _, x := range b {
		if _, ok := x.(int64); !ok {
			return &SymStr{append([]Value(nil), b...)}
		}
	}
	r := make([]byte, len(b))
	for i, x := range b {
		r[i] = byte(x.(int64))
	}
	return string(r)
}

func catStr(a, b Value) Value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x + y
		}
		if x == "" {
			return b
		}
	}
	if y, ok := b.(string); ok && y == "" {
		return a
	}
	r := append([]Value(nil), strBytes(a)...)
	return &SymStr{append(r, strBytes(b)...)}
}

func mkBytesSlice(s string) Slice {
	r := make(Slice, len(s))
	for i := 0; i < len(s); i++ {
		r[i] = int64(s[i])
	}
	return r
}
