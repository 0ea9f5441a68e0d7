package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

var tokADD = token.ADD

const modPath = "github.com/ynqa/wego"

// opd is a decoded operand.
type opd struct {
	slot int32 // >=0: environment slot
	kind uint8 // 0 env, 1 const, 2 zero aggregate, 3 global, 4 none
	c    Value
	t    types.Type
	g    *ssa.Global
}

type ins struct {
	i   ssa.Instruction
	op  []opd
	dst int32
	a   int32 // scratch
	t   types.Type
	pos token.Pos
}

type fnCode struct {
	fn     *ssa.Function
	nslots int
	blocks [][]ins
	nphi   []int
	name   string
	inMod  bool
	params []int32
	fvs    []int32
	locals []int32
	count  int64
}

type dec struct {
	k byte
	v int64
}

type deferred struct {
	fn    Value
	args  []Value
	instr *ssa.Defer
	tail  *deferred
}

type frame struct {
	in        *Interp
	caller    *frame
	code      *fnCode
	env       []Value
	block     int
	prev      int
	defers    *deferred
	result    Value
	panicking bool
	panicV    any
	g         *G
	done      bool
}

type Interp struct {
	prog *ssa.Program
	w    *World
	b    *Builder
	sol  *Solver
	h    *Harness

	math bool

	tis    map[types.Type]*tinfo
	codes  map[*ssa.Function]*fnCode
	intr   map[*ssa.Function]intrinsic
	meths  map[methKey]*ssa.Function
	stdG   map[*ssa.Global]*Value
	stdI   map[*ssa.Package]int
	tables map[string]*tableInfo

	// per path
	pathG   map[*ssa.Global]*Value
	pathI   map[*ssa.Package]int
	prefix  []dec
	decs    []dec
	alts    [][]dec
	steps   int64
	known   map[*Term]bool
	r32     map[*Term]*Term // math mode: real -> nearest 32-bit number
	fpb     map[*Term]fpRange
	names   map[string]int
	inputs  []inputVar
	schedV  []int64
	ended   *pathEnd
	model   Model
	stdout  []Value
	capture []int
	fs      *vfs
	hooks   map[string]Value
	reached map[string]bool
	uncert  bool
	inconcl []string
	probe   func(msg string, nc *Term) bool // tries inputs of the path natively where the solver gives up
	nassert int
	vcls    string

	// scheduler
	sch     *Sched
	mutexes map[*Value]*mutexState
	wgs     map[*Value]*wgState
	smaps   map[*Value]*Map
	files   map[*Value]*vfile
	stdio   [3]*Value
	obs     []obsVal

	maxSteps int64
	depth    int
	trace    bool
	cover    map[*fnCode]int64
}

type inputVar struct {
	name string
	t    *Term // nil for choose
	v    int64

	lo, hi float64 // of a real number
}

type methKey struct {
	t types.Type
	m *types.Func
}

func NewInterp(w *World, h *Harness) *Interp {
	in := &Interp{prog: w.prog, w: w, h: h, math: h.Mode == "math"}
	in.b = NewBuilder()
	in.sol = NewSolver(in.b, h.TimeoutMs)
	in.tis = map[types.Type]*tinfo{}
	in.codes = map[*ssa.Function]*fnCode{}
	in.intr = map[*ssa.Function]intrinsic{}
	in.meths = map[methKey]*ssa.Function{}
	in.stdG = map[*ssa.Global]*Value{}
	in.stdI = map[*ssa.Package]int{}
	in.tables = map[string]*tableInfo{}
	in.cover = map[*fnCode]int64{}
	in.trace = os.Getenv("VP_TRACE") != ""
	return in
}

func (in *Interp) reset(prefix []dec) {
	if in.b.n > 3000000 { // keep memory bounded
		in.sol.Close()
		in.b = NewBuilder()
		in.sol = NewSolver(in.b, in.h.TimeoutMs)
		in.stdG = map[*ssa.Global]*Value{}
		in.stdI = map[*ssa.Package]int{}
		in.tables = map[string]*tableInfo{}
		in.codes = map[*ssa.Function]*fnCode{}
	}
	in.sol.Reset()
	in.pathG = map[*ssa.Global]*Value{}
	in.pathI = map[*ssa.Package]int{}
	in.prefix = prefix
	in.decs = make([]dec, 0, len(prefix)+16)
	in.alts = nil
	in.steps = 0
	in.known = map[*Term]bool{}
	in.r32 = nil
	in.fpb = nil
	in.names = map[string]int{}
	in.inputs = nil
	in.schedV = nil
	in.ended = nil
	in.model = nil
	in.stdout = nil
	in.capture = nil
	in.fs = newVFS()
	in.mutexes = map[*Value]*mutexState{}
	in.wgs = map[*Value]*wgState{}
	in.smaps = map[*Value]*Map{}
	in.files = map[*Value]*vfile{}
	in.obs = nil
	in.hooks = map[string]Value{}
	in.reached = map[string]bool{}
	in.uncert = false
	in.inconcl = nil
	in.nassert = 0
	in.depth = 0
	in.maxSteps = in.h.MaxSteps
}

func persistent(p *ssa.Package) bool {
	path := p.Pkg.Path()
	return path != modPath && !strings.HasPrefix(path, modPath+"/")
}

// ---- code preparation ----

func (in *Interp) code(fn *ssa.Function) *fnCode {
	if c, ok := in.codes[fn]; ok {
		return c
	}
	c := &fnCode{fn: fn, name: fn.String()}
	if p := fnPkg(fn); p != nil {
		c.inMod = strings.HasPrefix(p.Path(), modPath) && !strings.HasPrefix(p.Path(), modPath+"/zzverif")
	}
	slots := map[ssa.Value]int32{}
	n := int32(0)
	alloc := func(v ssa.Value) int32 {
		s := n
		slots[v] = s
		n++
		return s
	}
	for _, p := range fn.Params {
		c.params = append(c.params, alloc(p))
	}
	for _, p := range fn.FreeVars {
		c.fvs = append(c.fvs, alloc(p))
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				alloc(v)
			}
		}
	}
	for _, l := range fn.Locals {
		c.locals = append(c.locals, slots[l])
	}
	mk := func(v ssa.Value) opd {
		if v == nil {
			return opd{slot: -1, kind: 4}
		}
		switch x := v.(type) {
		case *ssa.Const:
			switch in.ti(x.Type()).k {
			case tkStruct, tkArray:
				return opd{slot: -1, kind: 2, t: x.Type()}
			}
			return opd{slot: -1, kind: 1, c: in.constVal(x)}
		case *ssa.Global:
			return opd{slot: -1, kind: 3, g: x}
		case *ssa.Function, *ssa.Builtin:
			return opd{slot: -1, kind: 1, c: v}
		}
		s, ok := slots[v]
		if !ok {
			panic(fmt.Sprintf("no slot for %v in %v", v, fn))
		}
		return opd{slot: s}
	}
	c.blocks = make([][]ins, len(fn.Blocks))
	c.nphi = make([]int, len(fn.Blocks))
	var rands []*ssa.Value
	for bi, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if _, ok := i.(*ssa.DebugRef); ok {
				continue
			}
			x := ins{i: i, dst: -1, pos: i.Pos()}
			if v, ok := i.(ssa.Value); ok {
				x.dst = slots[v]
				x.t = v.Type()
			}
			if _, ok := i.(*ssa.Phi); ok {
				c.nphi[bi]++
			}
			rands = i.Operands(rands[:0])
			x.op = make([]opd, len(rands))
			for k, r := range rands {
				x.op[k] = mk(*r)
			}
			c.blocks[bi] = append(c.blocks[bi], x)
		}
	}
	c.nslots = int(n)
	in.codes[fn] = c
	return c
}

func fnPkg(fn *ssa.Function) *types.Package {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg
	}
	if o := fn.Object(); o != nil {
		return o.Pkg()
	}
	if fn.Origin() != nil && fn.Origin() != fn {
		return fnPkg(fn.Origin())
	}
	return nil
}

func (fr *frame) get(o *opd) Value {
	switch o.kind {
	case 0:
		return fr.env[o.slot]
	case 1:
		return o.c
	case 2:
		return fr.in.zero(o.t)
	case 3:
		return fr.in.global(o.g)
	}
	return nil
}

func (in *Interp) global(g *ssa.Global) *Value {
	if persistent(g.Pkg) {
		if p, ok := in.stdG[g]; ok {
			in.ensureInit(g.Pkg)
			return p
		}
	} else if p, ok := in.pathG[g]; ok {
		in.ensureInit(g.Pkg)
		return p
	}
	in.ensureInit(g.Pkg)
	m := in.pathG
	if persistent(g.Pkg) {
		m = in.stdG
	}
	if p, ok := m[g]; ok {
		return p
	}
	p := new(Value)
	if v, ok := in.globalOverride(g); ok {
		*p = v
	} else {
		*p = in.zero(g.Type().Underlying().(*types.Pointer).Elem())
		if skipInit[g.Pkg.Pkg.Path()] && initialised(g) {
			panic(unsupported("global " + g.String() + " of a package that is not initialised"))
		}
	}
	m[g] = p
	return p
}

// initialised reports whether the package initialiser sets g.
func initialised(g *ssa.Global) bool {
	f := g.Pkg.Func("init")
	if f == nil {
		return false
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if s, ok := i.(*ssa.Store); ok && s.Addr == g {
				return true
			}
		}
	}
	return false
}

var skipInit = map[string]bool{
	"runtime": true, "syscall": true, "internal/poll": true, "os": true, "reflect": true, "internal/cpu": true,
	"os/signal": true, "net": true, "testing": true, "internal/godebug": true, "internal/godebugs": true, "time": true, "fmt": true,
	"runtime/pprof": true, "sync": true, "sync/atomic": true, "unsafe": true, "internal/bytealg": true, "crypto/rand": true,
	"log": true, "math/rand": true, "math/rand/v2": true, "internal/reflectlite": true, "internal/runtime/atomic": true,
	"internal/testlog": true, "internal/syscall/unix": true, "io/ioutil": true, "path/filepath": true, "text/template": true, "html/template": true,
}

// ensureInit runs the package initialiser the first time something of the
// package is touched (imports are initialised lazily in the same way).
func (in *Interp) ensureInit(p *ssa.Package) {
	m := in.pathI
	pers := persistent(p)
	if pers {
		m = in.stdI
	}
	if m[p] != 0 {
		return
	}
	m[p] = 1
	if skipInit[p.Pkg.Path()] || strings.HasPrefix(p.Pkg.Path(), "internal/runtime") {
		m[p] = 2
		return
	}
	f := p.Func("init")
	if f == nil {
		m[p] = 2
		return
	}
	if pers {
		// initialise on the side: no decisions may be taken
		saveSteps := in.steps
		func() {
			defer func() {
				if r := recover(); r != nil {
					if e, ok := r.(pathEnd); ok && e.kind == endUnsupported {
						if os.Getenv("VP_DEBUG") != "" {
							fmt.Fprintln(os.Stderr, "init of", p.Pkg.Path(), "incomplete:", e.msg)
						}
						return
					}
					panic(r)
				}
			}()
			in.call(nil, f, nil, true)
		}()
		in.steps = saveSteps
	} else {
		in.call(nil, f, nil, true)
	}
	m[p] = 2
}

// ---- calls ----

func (in *Interp) callValue(fr *frame, fn Value, args []Value) Value {
	switch f := fn.(type) {
	case *ssa.Function:
		if f == nil {
			in.nilDeref()
		}
		return in.call(fr, f, args, false)
	case *Closure:
		if f == nil {
			in.nilDeref()
		}
		return in.callEnv(fr, f.fn, args, f.env)
	case *Native:
		return f.f(fr, args)
	case *ssa.Builtin:
		return in.builtin(fr, f, args, nil)
	case nil:
		in.nilDeref()
	}
	panic(unsupported(fmt.Sprintf("call of %T", fn)))
}

func (in *Interp) call(fr *frame, fn *ssa.Function, args []Value, isInit bool) Value {
	return in.callEnv(fr, fn, args, nil)
}

func (in *Interp) callEnv(caller *frame, fn *ssa.Function, args []Value, env []Value) Value {
	if x, ok := in.intr[fn]; ok {
		if x != nil {
			return x(caller, fn, args)
		}
	} else {
		x := in.lookupIntrinsic(fn)
		in.intr[fn] = x
		if x != nil {
			return x(caller, fn, args)
		}
	}
	if fn.Blocks == nil {
		panic(unsupported("no body: " + fn.String()))
	}
	// Imports are initialised lazily: skip the calls to other init functions.
	if fn.Name() == "init" && fn.Synthetic == "package initializer" && caller != nil && fn.Pkg != nil && caller.code.fn.Pkg != fn.Pkg {
		return nil
	}
	code := in.code(fn)
	fr := &frame{in: in, caller: caller, code: code, prev: -1}
	if caller != nil {
		fr.g = caller.g
	} else if in.sch != nil {
		fr.g = in.sch.cur
	}
	in.depth++
	if in.depth > 6000 {
		in.depth = 0
		panic(pathEnd{kind: endViolation, cls: "hang", msg: "call stack deeper than 6000 frames"})
	}
	fr.env = make([]Value, code.nslots)
	for i, s := range code.params {
		fr.env[s] = args[i]
	}
	for i, s := range code.fvs {
		fr.env[s] = env[i]
	}
	for i, l := range fn.Locals {
		p := new(Value)
		*p = in.zero(l.Type().Underlying().(*types.Pointer).Elem())
		fr.env[code.locals[i]] = p
	}
	for !fr.done {
		in.runFrame(fr)
	}
	in.depth--
	return fr.result
}

func (in *Interp) runFrame(fr *frame) {
	ok := false
	depth := in.depth
	defer func() {
		if ok {
			return
		}
		r := recover()
		switch p := r.(type) {
		case pathEnd:
			panic(r)
		case goPanic:
			in.depth = depth
			fr.panicking = true
			fr.panicV = p
			in.runDefers(fr) // may re-panic
			if fr.panicking {
				panic(fr.panicV)
			}
			// recovered
			if fr.code.fn.Recover == nil {
				fr.result = in.zeroResult(fr.code.fn)
				fr.done = true
				return
			}
			fr.block = fr.code.fn.Recover.Index
			fr.prev = -1
		default:
			panic(r) // host bug
		}
	}()
	in.exec(fr)
	ok = true
}

func (in *Interp) zeroResult(fn *ssa.Function) Value {
	res := fn.Signature.Results()
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return in.zero(res.At(0).Type())
	}
	return in.zero(res)
}

func (in *Interp) runDefers(fr *frame) {
	for d := fr.defers; d != nil; d = fr.defers {
		fr.defers = d.tail
		in.runDefer(fr, d)
	}
}

func (in *Interp) runDefer(fr *frame, d *deferred) {
	ok := false
	depth := in.depth
	defer func() {
		if ok {
			return
		}
		r := recover()
		if p, isP := r.(goPanic); isP {
			in.depth = depth
			// a deferred call panicked: it replaces the current panic
			fr.panicking = true
			fr.panicV = p
			return
		}
		panic(r)
	}()
	in.callValueD(fr, d)
	ok = true
}

func (in *Interp) callValueD(fr *frame, d *deferred) {
	if b, ok := d.fn.(*ssa.Builtin); ok {
		in.builtin(fr, b, d.args, nil)
		return
	}
	in.callValue(fr, d.fn, d.args)
}

// doRecover implements recover() called from fr's function.
func (in *Interp) doRecover(fr *frame) Value {
	// recover() must be called directly by a deferred function of a panicking frame
	if fr != nil && fr.caller != nil && fr.caller.panicking && !fr.panicking {
		fr.caller.panicking = false
		p := fr.caller.panicV.(goPanic)
		fr.caller.panicV = nil
		if i, ok := p.v.(Iface); ok {
			return i
		}
		return Iface{}
	}
	return Iface{}
}

func (in *Interp) goPanicStr(msg string) {
	panic(goPanic{in.runtimeError(msg)})
}

func (in *Interp) nilDeref() {
	in.goPanicStr("invalid memory address or nil pointer dereference")
}

func (in *Interp) runtimeError(msg string) Value {
	if t := in.w.runtimeErrT; t != nil {
		return Iface{t, msg}
	}
	return Iface{types.Typ[types.String], "runtime error: " + msg}
}

// ---- execution ----

var execLock sync.Mutex

func (in *Interp) exec(fr *frame) {
	code := fr.code
	in.cover[code]++
	for {
		blk := code.blocks[fr.block]
		i := 0
		if n := code.nphi[fr.block]; n > 0 {
			b := code.fn.Blocks[fr.block]
			pi := -1
			for k, p := range b.Preds {
				if p.Index == fr.prev {
					pi = k
					break
				}
			}
			var tmp [8]Value
			vals := tmp[:0]
			for k := 0; k < n; k++ {
				vals = append(vals, fr.get(&blk[k].op[pi]))
			}
			for k := 0; k < n; k++ {
				fr.env[blk[k].dst] = vals[k]
			}
			i = n
		}
		in.steps += int64(len(blk))
		if in.steps > in.maxSteps {
			panic(pathEnd{kind: endViolation, cls: "hang", msg: fmt.Sprintf("more than %d instructions executed (in %s)", in.maxSteps, code.name)})
		}
	instrs:
		for ; i < len(blk); i++ {
			x := &blk[i]
			switch s := x.i.(type) {
			case *ssa.UnOp:
				fr.env[x.dst] = in.unop(fr, s, x)
			case *ssa.BinOp:
				fr.env[x.dst] = in.binop(s.Op, s.X.Type(), fr.get(&x.op[0]), fr.get(&x.op[1]), s.Y.Type())
			case *ssa.Call:
				fr.env[x.dst] = in.callInstr(fr, &s.Call, x)
			case *ssa.Store:
				in.store(fr.get(&x.op[0]), fr.get(&x.op[1]))
			case *ssa.FieldAddr:
				p, ok := fr.get(&x.op[0]).(*Value)
				if !ok {
					panic(unsupported("field of symbolic element"))
				}
				if p == nil {
					in.nilDeref()
				}
				fr.env[x.dst] = &(*p).(Struct)[s.Field]
			case *ssa.IndexAddr:
				fr.env[x.dst] = in.indexAddr(fr.get(&x.op[0]), fr.get(&x.op[1]), s.Index.Type(), s.Type().Underlying().(*types.Pointer).Elem())
			case *ssa.If:
				fr.prev = fr.block
				if in.branch(fr.get(&x.op[0])) {
					fr.block = s.Block().Succs[0].Index
				} else {
					fr.block = s.Block().Succs[1].Index
				}
				break instrs
			case *ssa.Jump:
				fr.prev = fr.block
				fr.block = s.Block().Succs[0].Index
				break instrs
			case *ssa.Return:
				switch len(x.op) {
				case 0:
				case 1:
					fr.result = fr.get(&x.op[0])
				default:
					t := make(Tuple, len(x.op))
					for k := range x.op {
						t[k] = fr.get(&x.op[k])
					}
					fr.result = t
				}
				fr.done = true
				return
			case *ssa.Phi:
				panic("phi")
			case *ssa.Extract:
				fr.env[x.dst] = fr.get(&x.op[0]).(Tuple)[s.Index]
			case *ssa.Field:
				fr.env[x.dst] = fr.get(&x.op[0]).(Struct)[s.Field]
			case *ssa.Index:
				fr.env[x.dst] = in.indexVal(fr.get(&x.op[0]), fr.get(&x.op[1]), s.Index.Type(), s.Type())
			case *ssa.Slice:
				fr.env[x.dst] = in.slice(fr.get(&x.op[0]), fr.get(&x.op[1]), fr.get(&x.op[2]), fr.get(&x.op[3]))
			case *ssa.Alloc:
				if s.Heap {
					p := new(Value)
					*p = in.zero(s.Type().Underlying().(*types.Pointer).Elem())
					fr.env[x.dst] = p
				} else {
					p := fr.env[x.dst].(*Value)
					*p = in.zero(s.Type().Underlying().(*types.Pointer).Elem())
				}
			case *ssa.MakeSlice:
				fr.env[x.dst] = in.makeSlice(s.Type(), fr.get(&x.op[0]), fr.get(&x.op[1]))
			case *ssa.MakeInterface:
				fr.env[x.dst] = Iface{s.X.Type(), copyVal(fr.get(&x.op[0]))}
			case *ssa.ChangeInterface:
				fr.env[x.dst] = fr.get(&x.op[0])
			case *ssa.ChangeType:
				fr.env[x.dst] = fr.get(&x.op[0])
			case *ssa.Convert:
				fr.env[x.dst] = in.convert(s.X.Type(), s.Type(), fr.get(&x.op[0]))
			case *ssa.MultiConvert:
				fr.env[x.dst] = in.convert(s.X.Type(), s.Type(), fr.get(&x.op[0]))
			case *ssa.SliceToArrayPointer:
				fr.env[x.dst] = in.sliceToArrPtr(s, fr.get(&x.op[0]))
			case *ssa.MakeClosure:
				cl := &Closure{fn: s.Fn.(*ssa.Function), env: make([]Value, len(s.Bindings))}
				for k := range s.Bindings {
					cl.env[k] = fr.get(&x.op[k+1])
				}
				fr.env[x.dst] = cl
			case *ssa.MakeMap:
				fr.env[x.dst] = &Map{keyT: s.Type().Underlying().(*types.Map).Key(), idx: map[any]int{}}
			case *ssa.MapUpdate:
				in.mapSet(fr.get(&x.op[0]), fr.get(&x.op[1]), fr.get(&x.op[2]))
			case *ssa.Lookup:
				fr.env[x.dst] = in.lookup(s, fr.get(&x.op[0]), fr.get(&x.op[1]))
			case *ssa.Range:
				fr.env[x.dst] = in.rangeIter(fr.get(&x.op[0]))
			case *ssa.Next:
				fr.env[x.dst] = in.next(s, fr.get(&x.op[0]))
			case *ssa.TypeAssert:
				fr.env[x.dst] = in.typeAssert(s, fr.get(&x.op[0]))
			case *ssa.Panic:
				v := fr.get(&x.op[0])
				panic(goPanic{v})
			case *ssa.Defer:
				fn, args := in.prepCall(fr, &s.Call, x.op)
				target := fr
				if s.DeferStack != nil {
					o := &x.op[len(x.op)-1]
					if f, ok := fr.get(o).(*frame); ok {
						target = f
					}
				}
				target.defers = &deferred{fn: fn, args: args, instr: s, tail: target.defers}
			case *ssa.RunDefers:
				in.runDefers(fr)
				if fr.panicking {
					p := fr.panicV
					panic(p)
				}
			case *ssa.Go:
				fn, args := in.prepCall(fr, &s.Call, x.op)
				in.sch.spawn(fn, args)
			case *ssa.MakeChan:
				n := in.concretizeInt(fr.get(&x.op[0]), true)
				if n < 0 {
					in.goPanicStr("makechan: size out of range")
				}
				fr.env[x.dst] = &Chan{cap: int(n), elem: s.Type().Underlying().(*types.Chan).Elem()}
			case *ssa.Send:
				ch, _ := fr.get(&x.op[0]).(*Chan)
				in.sch.send(ch, copyVal(fr.get(&x.op[1])))
			case *ssa.Select:
				fr.env[x.dst] = in.selectInstr(fr, s, x)
			default:
				panic(unsupported(fmt.Sprintf("instruction %T", x.i)))
			}
		}
	}
}

// prepCall evaluates a call's target and arguments. Operand order of
// CallCommon is: Value, Args...
func (in *Interp) prepCall(fr *frame, c *ssa.CallCommon, op []opd) (Value, []Value) {
	v := fr.get(&op[0])
	n := len(c.Args)
	if c.IsInvoke() {
		rv, ok := v.(Iface)
		if !ok || rv.t == nil {
			in.nilDeref()
		}
		fn := in.findMethod(rv.t, c.Method)
		if fn == nil {
			panic(unsupported("method " + c.Method.Name() + " of " + rv.t.String()))
		}
		args := make([]Value, 0, n+1)
		args = append(args, copyVal(rv.v))
		for k := 0; k < n; k++ {
			args = append(args, copyVal(fr.get(&op[k+1])))
		}
		return fn, args
	}
	args := make([]Value, n)
	for k := 0; k < n; k++ {
		args[k] = copyVal(fr.get(&op[k+1]))
	}
	return v, args
}

func (in *Interp) findMethod(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{t, m}
	if f, ok := in.meths[k]; ok {
		return f
	}
	f := in.w.lookupMethod(t, m.Pkg(), m.Name())
	in.meths[k] = f
	return f
}

func (in *Interp) callInstr(fr *frame, c *ssa.CallCommon, x *ins) Value {
	fn, args := in.prepCall(fr, c, x.op)
	if b, ok := fn.(*ssa.Builtin); ok {
		return in.builtin(fr, b, args, c)
	}
	if in.trace {
		if f, ok := fn.(*ssa.Function); ok {
			fmt.Fprintf(os.Stderr, "%*scall %s @%s\n", in.depth, "", f, in.prog.Fset.Position(x.pos))
		}
	}
	return in.callValue(fr, fn, args)
}
