package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type mutexState struct {
	locked  bool
	readers int
	waitq   []*G
}

type wgState struct {
	n     int64
	waitq []*G
}

func (in *Interp) mutex(v Value) *mutexState {
	p, _ := v.(*Value)
	if p == nil {
		in.nilDeref()
	}
	m := in.mutexes[p]
	if m == nil {
		m = &mutexState{}
		in.mutexes[p] = m
	}
	return m
}

func (in *Interp) wgOf(v Value) *wgState {
	p, _ := v.(*Value)
	if p == nil {
		in.nilDeref()
	}
	m := in.wgs[p]
	if m == nil {
		m = &wgState{}
		in.wgs[p] = m
	}
	return m
}

func (m *mutexState) wake(s *Sched) {
	q := m.waitq
	m.waitq = nil
	for _, g := range q {
		s.ready(g)
	}
}

func (in *Interp) lock(m *mutexState) {
	s := in.sch
	s.point()
	for m.locked || m.readers > 0 {
		m.waitq = append(m.waitq, s.cur)
		s.block("mutex lock")
	}
	m.locked = true
}

func (in *Interp) fatal(msg string) { // runtime fatal error (not recoverable)
	panic(pathEnd{kind: endViolation, cls: "panic", msg: "fatal error: " + msg})
}

func (in *Interp) unlock(m *mutexState) {
	if !m.locked {
		in.fatal("sync: unlock of unlocked mutex")
	}
	m.locked = false
	m.wake(in.sch)
	in.sch.point()
}

func (in *Interp) wgAdd(w *wgState, d int64) {
	w.n += d
	if w.n < 0 {
		panic(goPanic{Iface{types.Typ[types.String], "sync: negative WaitGroup counter"}})
	}
	if w.n == 0 {
		q := w.waitq
		w.waitq = nil
		for _, g := range q {
			in.sch.ready(g)
		}
	}
}

// symmetric helper for atomics on an address
func (in *Interp) atomicReg(names []string, t types.Type) {}

func init() {
	type F = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value
	lock := func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { in.lock(in.mutex(a[0])); return nil }
	unlock := func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		in.unlock(in.mutex(a[0]))
		return nil
	}
	try := func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		m := in.mutex(a[0])
		in.sch.point()
		if m.locked || m.readers > 0 {
			return false
		}
		m.locked = true
		return true
	}
	reg("(*sync.Mutex).Lock", lock)
	reg("(*sync.Mutex).Unlock", unlock)
	reg("(*sync.Mutex).TryLock", try)
	reg("(*sync.RWMutex).Lock", lock)
	reg("(*sync.RWMutex).Unlock", unlock)
	reg("(*sync.RWMutex).TryLock", try)
	reg("(*sync.RWMutex).RLock", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		m := in.mutex(a[0])
		in.sch.point()
		for m.locked {
			m.waitq = append(m.waitq, in.sch.cur)
			in.sch.block("rwmutex rlock")
		}
		m.readers++
		return nil
	})
	reg("(*sync.RWMutex).RUnlock", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		m := in.mutex(a[0])
		if m.readers <= 0 {
			in.fatal("sync: RUnlock of unlocked RWMutex")
		}
		m.readers--
		if m.readers == 0 {
			m.wake(in.sch)
		}
		in.sch.point()
		return nil
	})
	reg("(*sync.WaitGroup).Add", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		in.sch.point()
		in.wgAdd(in.wgOf(a[0]), in.concretizeInt(a[1], true))
		return nil
	})
	reg("(*sync.WaitGroup).Done", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		in.sch.point()
		in.wgAdd(in.wgOf(a[0]), -1)
		return nil
	})
	reg("(*sync.WaitGroup).Wait", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		w := in.wgOf(a[0])
		in.sch.point()
		for w.n > 0 {
			w.waitq = append(w.waitq, in.sch.cur)
			in.sch.block("WaitGroup.Wait")
		}
		return nil
	})
	reg("(*sync.WaitGroup).Go", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		w := in.wgOf(a[0])
		in.wgAdd(w, 1)
		f := a[1]
		in.sch.spawn(&Native{"wg.Go", func(fr *frame, _ []Value) Value {
			in.callValue(fr, f, nil)
			in.wgAdd(w, -1)
			return nil
		}}, nil)
		return nil
	})
	reg("(*sync.Once).Do", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		p := a[0].(*Value)
		m := in.mutex(p)
		s := in.sch
		s.point()
		for m.locked {
			m.waitq = append(m.waitq, s.cur)
			s.block("once")
		}
		if m.readers > 0 { // done
			return nil
		}
		m.locked = true
		defer func() {
			m.locked = false
			m.readers = 1
			if r := recover(); r != nil {
				panic(r)
			}
			m.wake(s)
		}()
		in.callValue(fr, a[1], nil)
		return nil
	})
	reg("(*sync.Pool).Get", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		p := (*a[0].(*Value)).(Struct)
		st := fn.Signature.Recv().Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "New" && !isNilFn(p[i]) {
				return in.callValue(fr, p[i], nil)
			}
		}
		return Iface{}
	})
	reg("(*sync.Cond).Wait", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		st := (*a[0].(*Value)).(Struct)
		var L Iface
		for _, f := range st {
			if i, ok := f.(Iface); ok && i.t != nil {
				L = i
			}
		}
		w := in.wgOf(a[0])
		in.callValue(fr, in.w.lookupMethod(L.t, nil, "Unlock"), []Value{L.v})
		w.waitq = append(w.waitq, in.sch.cur)
		in.sch.block("cond wait")
		in.callValue(fr, in.w.lookupMethod(L.t, nil, "Lock"), []Value{L.v})
		return nil
	})
	sig := func(all bool) F {
		return func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			w := in.wgOf(a[0])
			in.sch.point()
			for len(w.waitq) > 0 {
				g := w.waitq[0]
				w.waitq = w.waitq[1:]
				in.sch.ready(g)
				if !all {
					break
				}
			}
			return nil
		}
	}
	reg("(*sync.Cond).Signal", sig(false))
	reg("(*sync.Cond).Broadcast", sig(true))

	// sync.Map
	smap := func(in *Interp, v Value) *Map {
		p := v.(*Value)
		m := in.smaps[p]
		if m == nil {
			m = &Map{keyT: types.NewInterfaceType(nil, nil), idx: map[any]int{}}
			in.smaps[p] = m
		}
		return m
	}
	reg("(*sync.Map).Load", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		in.sch.point()
		m := smap(in, a[0])
		if i := in.mapFind(m, a[1]); i >= 0 {
			return Tuple{*m.vals[i], true}
		}
		return Tuple{Iface{}, false}
	})
	reg("(*sync.Map).Store", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		in.sch.point()
		in.mapSet(smap(in, a[0]), a[1], a[2])
		return nil
	})
	reg("(*sync.Map).LoadOrStore", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		in.sch.point()
		m := smap(in, a[0])
		if i := in.mapFind(m, a[1]); i >= 0 {
			return Tuple{*m.vals[i], true}
		}
		in.mapSet(m, a[1], a[2])
		return Tuple{a[2], false}
	})
	reg("(*sync.Map).Delete", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		in.mapDelete(smap(in, a[0]), a[1])
		return nil
	})
	reg("(*sync.Map).Range", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		m := smap(in, a[0])
		for i := 0; i < len(m.keys); i++ {
			if m.dead[i] {
				continue
			}
			if !in.branch(in.callValue(fr, a[1], []Value{m.keys[i], *m.vals[i]})) {
				break
			}
		}
		return nil
	})

	// atomics
	for _, k := range []struct {
		n string
		t types.Type
	}{{"Int32", types.Typ[types.Int32]}, {"Int64", types.Typ[types.Int64]}, {"Uint32", types.Typ[types.Uint32]}, {"Uint64", types.Typ[types.Uint64]}, {"Uintptr", types.Typ[types.Uintptr]}} {
		t := k.t
		reg("sync/atomic.Load"+k.n, func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			in.sch.point()
			return in.load(a[0])
		})
		reg("sync/atomic.Store"+k.n, func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			in.sch.point()
			in.store(a[0], a[1])
			return nil
		})
		reg("sync/atomic.Add"+k.n, func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			in.sch.point()
			v := in.binop(tokADD, t, in.load(a[0]), a[1], t)
			in.store(a[0], v)
			return v
		})
		reg("sync/atomic.Swap"+k.n, func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			in.sch.point()
			o := in.load(a[0])
			in.store(a[0], a[1])
			return o
		})
		reg("sync/atomic.CompareAndSwap"+k.n, func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			in.sch.point()
			if in.branch(in.equal(t, in.load(a[0]), a[1])) {
				in.store(a[0], a[2])
				return true
			}
			return false
		})
	}
	last := func(in *Interp, v Value) *Value {
		p := v.(*Value)
		if p == nil {
			in.nilDeref()
		}
		s := (*p).(Struct)
		return &s[len(s)-1]
	}
	reg("(*sync/atomic.Pointer).Load", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		in.sch.point()
		v := *last(in, a[0])
		if u, ok := v.(UnsafePtr); ok {
			if u.p == nil {
				return (*Value)(nil)
			}
			return u.p
		}
		return v
	})
	reg("(*sync/atomic.Pointer).Store", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		in.sch.point()
		*last(in, a[0]) = a[1]
		return nil
	})
	reg("(*sync/atomic.Pointer).CompareAndSwap", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		in.sch.point()
		l := last(in, a[0])
		v := *l
		if u, ok := v.(UnsafePtr); ok {
			v = u.p
			if v == nil {
				v = (*Value)(nil)
			}
		}
		if v == a[1] {
			*l = a[2]
			return true
		}
		return false
	})
	reg("(*sync/atomic.Value).Load", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		in.sch.point()
		return *last(in, a[0])
	})
	reg("(*sync/atomic.Value).Store", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		in.sch.point()
		*last(in, a[0]) = a[1]
		return nil
	})
}
