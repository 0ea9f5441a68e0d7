package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A formatter for the interpreted program: fmt itself works by reflection,
// which the encoder does not model.

type fmtSpec struct {
	flags string
	width int
	prec  int
	hasW  bool
	hasP  bool
	verb  byte
}

func (s fmtSpec) String() string {
	r := "%" + s.flags
	if s.hasW {
		r += fmt.Sprint(s.width)
	}
	if s.hasP {
		r += "." + fmt.Sprint(s.prec)
	}
	return r + string(s.verb)
}

func (in *Interp) sprintf(fr *frame, format string, args []Value) (out []Value, wrapped []Value) {
	k := 0
	lit := func(s string) { out = append(out, strBytes(s)...) }
	for i := 0; i < len(format); {
		c := format[i]
		if c != '%' {
			j := strings.IndexByte(format[i:], '%')
			if j < 0 {
				j = len(format) - i
			}
			lit(format[i : i+j])
			i += j
			continue
		}
		i++
		var s fmtSpec
		for i < len(format) && strings.IndexByte("+-# 0", format[i]) >= 0 {
			s.flags += string(format[i])
			i++
		}
		num := func() (int, bool) {
			if i < len(format) && format[i] == '*' {
				i++
				if k < len(args) {
					n := in.concretizeInt(args[k].(Iface).v, true)
					k++
					return int(n), true
				}
				return 0, false
			}
			n, ok := 0, false
			for i < len(format) && format[i] >= '0' && format[i] <= '9' {
				n = n*10 + int(format[i]-'0')
				ok = true
				i++
			}
			return n, ok
		}
		s.width, s.hasW = num()
		if s.hasW && s.width < 0 {
			s.flags += "-"
			s.width = -s.width
		}
		if i < len(format) && format[i] == '.' {
			i++
			s.prec, _ = num()
			s.hasP = true
		}
		if i >= len(format) {
			lit("%!(NOVERB)")
			break
		}
		s.verb = format[i]
		i++
		if s.verb == '%' {
			lit("%")
			continue
		}
		if k >= len(args) {
			lit("%!" + string(s.verb) + "(MISSING)")
			continue
		}
		a, _ := args[k].(Iface)
		k++
		if s.verb == 'w' {
			wrapped = append(wrapped, a)
			s.verb = 'v'
		}
		out = append(out, in.fmtVal(fr, s, a, 0)...)
	}
	if k < len(args) {
		lit("%!(EXTRA ")
		for n, v := range args[k:] {
			if n > 0 {
				lit(", ")
			}
			a, _ := v.(Iface)
			if a.t == nil {
				lit("<nil>")
				continue
			}
			lit(a.t.String() + "=")
			out = append(out, in.fmtVal(fr, fmtSpec{verb: 'v'}, a, 0)...)
		}
		lit(")")
	}
	return
}

func pad(s fmtSpec, b []Value) []Value {
	if !s.hasW || len(b) >= s.width {
		return b
	}
	p := strBytes(strings.Repeat(" ", s.width-len(b)))
	if strings.Contains(s.flags, "-") {
		return append(append([]Value{}, b...), p...)
	}
	return append(p, b...)
}

func (in *Interp) strMethod(t types.Type, name string) *ssa.Function {
	m := in.w.lookupMethod(t, nil, name)
	if m == nil {
		return nil
	}
	sig := m.Signature
	if sig.Params().Len() != 0 || sig.Results().Len() != 1 || in.ti(sig.Results().At(0).Type()).k != tkString {
		return nil
	}
	return m
}

func (in *Interp) fmtVal(fr *frame, s fmtSpec, a Iface, depth int) []Value {
	if depth > 20 {
		return strBytes("...")
	}
	if a.t == nil {
		if s.verb == 'v' || s.verb == 's' && depth > 0 {
			return strBytes(fmt.Sprintf(s.String(), nil))
		}
		return strBytes("%!" + string(s.verb) + "(<nil>)")
	}
	if s.verb == 'T' {
		return pad(s, strBytes(types.TypeString(a.t, func(p *types.Package) string { return p.Name() })))
	}
	sharp := strings.Contains(s.flags, "#")
	if strings.IndexByte("vsxXq", s.verb) >= 0 && !sharp {
		m := in.strMethod(a.t, "Error")
		if m == nil {
			m = in.strMethod(a.t, "String")
		}
		if m != nil {
			if p, ok := a.v.(*Value); ok && p == nil {
				return strBytes("<nil>")
			}
			str := in.callValue(fr, m, []Value{copyVal(a.v)})
			return in.fmtStr(s, str)
		}
	}
	ti := in.ti(a.t)
	switch ti.k {
	case tkBool:
		b := in.branch(a.v)
		return strBytes(fmt.Sprintf(s.String(), b))
	case tkInt, tkUint:
		if x, ok := a.v.(int64); ok {
			return strBytes(fmt.Sprintf(s.String(), hostInt(x, ti)))
		}
		if t, ok := a.v.(*Term); ok && (s.verb == 'd' || s.verb == 'v') {
			return []Value{&Chunk{t: t, kind: 'd', verb: "d"}}
		}
		return strBytes(fmt.Sprintf(s.String(), hostInt(in.concretizeInt(a.v, ti.k == tkInt), ti)))
	case tkFloat:
		if x, ok := a.v.(float64); ok {
			if ti.w == 32 {
				return strBytes(fmt.Sprintf(s.String(), float32(x)))
			}
			return strBytes(fmt.Sprintf(s.String(), x))
		}
		p := -2
		switch s.verb {
		case 'f', 'F':
			p = 6
			if s.hasP {
				p = s.prec
			}
		case 'v', 'g', 'G':
			p = -1
			if s.hasP && s.prec < 17 {
				p = -2
			}
		case 'e', 'E':
			if s.hasP && s.prec >= 16 {
				p = -1
			}
		case 'd', 's', 'q', 't', 'c':
			return strBytes("%!" + string(s.verb) + "(float64=?)")
		}
		return []Value{&Chunk{t: a.v, kind: 'f', prec: p, verb: s.String()}}
	case tkComplex:
		return strBytes(fmt.Sprintf(s.String(), a.v))
	case tkString:
		return in.fmtStr(s, a.v)
	case tkPtr:
		p, _ := a.v.(*Value)
		if p == nil {
			return strBytes("<nil>")
		}
		e := ti.u.(*types.Pointer).Elem()
		switch in.ti(e).k {
		case tkStruct, tkArray, tkSlice, tkMap:
			if depth == 0 {
				return append(strBytes("&"), in.fmtVal(fr, s, Iface{e, *p}, depth+1)...)
			}
		}
		return strBytes("0xc000010000")
	case tkSlice, tkArray:
		var els []Value
		var et types.Type
		if ti.k == tkSlice {
			sl, _ := a.v.(Slice)
			els, et = sl, ti.u.(*types.Slice).Elem()
			if in.ti(et).k == tkUint && in.ti(et).w == 8 && (s.verb == 's' || s.verb == 'q' || s.verb == 'x') {
				return in.fmtStr(s, mkStr(els))
			}
		} else {
			els, et = a.v.(Array), ti.u.(*types.Array).Elem()
		}
		out := strBytes("[")
		for i, e := range els {
			if i > 0 {
				out = append(out, int64(' '))
			}
			out = append(out, in.fmtElem(fr, s, et, e, depth)...)
		}
		return append(out, int64(']'))
	case tkStruct:
		st := ti.u.(*types.Struct)
		out := strBytes("{")
		for i, e := range a.v.(Struct) {
			if i > 0 {
				out = append(out, int64(' '))
			}
			if strings.Contains(s.flags, "+") || sharp {
				out = append(out, strBytes(st.Field(i).Name()+":")...)
			}
			out = append(out, in.fmtElem(fr, s, st.Field(i).Type(), e, depth)...)
		}
		return append(out, int64('}'))
	case tkMap:
		m, _ := a.v.(*Map)
		out := strBytes("map[")
		if m != nil {
			mt := ti.u.(*types.Map)
			first := true
			for i, k := range m.keys {
				if m.dead[i] {
					continue
				}
				if !first {
					out = append(out, int64(' '))
				}
				first = false
				out = append(out, in.fmtElem(fr, s, mt.Key(), k, depth)...)
				out = append(out, int64(':'))
				out = append(out, in.fmtElem(fr, s, mt.Elem(), *m.vals[i], depth)...)
			}
		}
		return append(out, int64(']'))
	case tkFunc, tkChan, tkUnsafe:
		return strBytes("0xc000020000")
	}
	panic(unsupported("formatting " + a.t.String()))
}

func (in *Interp) fmtElem(fr *frame, s fmtSpec, t types.Type, v Value, depth int) []Value {
	if in.ti(t).k == tkIface {
		i, _ := v.(Iface)
		if i.t == nil {
			return strBytes("<nil>")
		}
		return in.fmtVal(fr, s, i, depth+1)
	}
	return in.fmtVal(fr, s, Iface{t, v}, depth+1)
}

func hostInt(x int64, ti *tinfo) any {
	if ti.k == tkInt {
		switch ti.w {
		case 8:
			return int8(x)
		case 16:
			return int16(x)
		case 32:
			return int32(x)
		}
		return x
	}
	switch ti.w {
	case 8:
		return uint8(x)
	case 16:
		return uint16(x)
	case 32:
		return uint32(x)
	}
	return uint64(x)
}

func (in *Interp) fmtStr(s fmtSpec, v Value) []Value {
	if x, ok := v.(string); ok {
		return strBytes(fmt.Sprintf(s.String(), x))
	}
	b := strBytes(v)
	switch s.verb {
	case 'v', 's':
		if s.hasP && s.prec < len(b) {
			b = b[:s.prec]
		}
		return pad(s, b)
	case 'q':
		r := strBytes("\"")
		r = append(r, b...)
		return pad(s, append(r, int64('"')))
	}
	return strBytes(fmt.Sprintf(s.String(), in.str(v)))
}

func (in *Interp) sprint(fr *frame, args []Value, ln bool) []Value {
	var out []Value
	prevStr := true
	for i, v := range args {
		a, _ := v.(Iface)
		isStr := a.t != nil && in.ti(a.t).k == tkString
		if i > 0 && (ln || !isStr && !prevStr) {
			out = append(out, int64(' '))
		}
		out = append(out, in.fmtVal(fr, fmtSpec{verb: 'v'}, a, 0)...)
		prevStr = isStr
	}
	if ln {
		out = append(out, int64('\n'))
	}
	return out
}

func (in *Interp) writeTo(fr *frame, w Value, b []Value) Value {
	i, _ := w.(Iface)
	if i.t == nil {
		in.nilDeref()
	}
	m := in.w.lookupMethod(i.t, nil, "Write")
	if m == nil {
		panic(unsupported("Write of " + i.t.String()))
	}
	return in.callValue(fr, m, []Value{copyVal(i.v), Slice(append(make([]Value, 0, len(b)), b...))})
}

func vargs(v Value) []Value {
	s, _ := v.(Slice)
	return s
}

func init() {
	reg("fmt.Sprintf", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		o, _ := in.sprintf(fr, in.str(a[0]), vargs(a[1]))
		return mkStr(o)
	})
	reg("fmt.Sprint", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		return mkStr(in.sprint(fr, vargs(a[0]), false))
	})
	reg("fmt.Sprintln", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		return mkStr(in.sprint(fr, vargs(a[0]), true))
	})
	reg("fmt.Fprintf", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		o, _ := in.sprintf(fr, in.str(a[1]), vargs(a[2]))
		return in.writeTo(fr, a[0], o)
	})
	reg("fmt.Fprint", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		return in.writeTo(fr, a[0], in.sprint(fr, vargs(a[1]), false))
	})
	reg("fmt.Fprintln", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		return in.writeTo(fr, a[0], in.sprint(fr, vargs(a[1]), true))
	})
	out := func(in *Interp, fr *frame, b []Value) Value {
		return in.writeTo(fr, Iface{in.w.fileT, in.stdFile(1)}, b)
	}
	reg("fmt.Printf", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		o, _ := in.sprintf(fr, in.str(a[0]), vargs(a[1]))
		return out(in, fr, o)
	})
	reg("fmt.Print", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		return out(in, fr, in.sprint(fr, vargs(a[0]), false))
	})
	reg("fmt.Println", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		return out(in, fr, in.sprint(fr, vargs(a[0]), true))
	})
	app := func(b Value, o []Value) Value {
		s, _ := b.(Slice)
		return Slice(append(append(make([]Value, 0, len(s)+len(o)), s...), o...))
	}
	reg("fmt.Appendf", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		o, _ := in.sprintf(fr, in.str(a[1]), vargs(a[2]))
		return app(a[0], o)
	})
	reg("fmt.Append", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		return app(a[0], in.sprint(fr, vargs(a[1]), false))
	})
	reg("fmt.Appendln", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		return app(a[0], in.sprint(fr, vargs(a[1]), true))
	})
	reg("fmt.Errorf", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		o, w := in.sprintf(fr, in.str(a[0]), vargs(a[1]))
		if len(w) == 0 {
			return in.newError(fr, mkStr(o))
		}
		t := in.w.pkgs["fmt"].Type("wrapError").Type()
		p := new(Value)
		*p = Struct{mkStr(o), w[0]}
		return Iface{in.w.ptrTo(t), p}
	})
}
