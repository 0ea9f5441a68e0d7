package main

import (
	"fmt"
	"go/types"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Interpreted goroutines run on host goroutines, one at a time: the token is
// handed over explicitly.

type G struct {
	id      int
	wake    chan bool // false: killed
	state   int       // 0 runnable, 1 blocked, 2 finished
	why     string
	val     Value // received value / select result
	ok      bool
	selIdx  int
	panicCl bool // woken by close while sending
}

type Sched struct {
	in      *Interp
	gs      []*G
	cur     *G
	runq    []*G
	done    chan struct{}
	ended   bool
	wg      sync.WaitGroup
	explore bool // fork on scheduling choices
	yield   bool // fork at vp.Yield only
	yieldN  int64
	preempt int // remaining preemptions
}

type waiter struct {
	g    *G
	val  Value // value to send
	sel  int   // case index, -1 for plain ops
	dead *bool // shared by the cases of one select
}

type Chan struct {
	cap    int
	elem   types.Type
	buf    []Value
	closed bool
	recvq  []*waiter
	sendq  []*waiter
}

type killed struct{}

// run executes main as goroutine 0 and returns when the path has ended.
func (in *Interp) runPath(main *ssa.Function) {
	s := &Sched{in: in, done: make(chan struct{}), explore: in.h.Sched == "explore", yield: in.h.Sched == "yield", preempt: in.h.Preempt}
	in.sch = s
	g := &G{id: 0, wake: make(chan bool, 1)}
	s.gs = append(s.gs, g)
	s.cur = g
	s.start(g, main, nil)
	g.wake <- true
	<-s.done
	// kill the rest
	for _, x := range s.gs {
		select {
		case x.wake <- false:
		default:
		}
	}
	s.wg.Wait()
}

func (s *Sched) finish(e pathEnd) {
	if s.ended {
		return
	}
	s.ended = true
	s.in.ended = &e
	close(s.done)
}

func (s *Sched) start(g *G, fn Value, args []Value) {
	s.wg.Add(1)
	go func() {
		defer s.wg.Done()
		if !<-g.wake {
			return
		}
		defer func() {
			r := recover()
			switch p := r.(type) {
			case nil:
				return
			case killed:
				return
			case pathEnd:
				s.finish(p)
			case goPanic:
				s.finish(pathEnd{kind: endViolation, cls: "panic", msg: "panic: " + s.in.panicText(p.v)})
			default:
				s.finish(pathEnd{kind: endUnsupported, msg: fmt.Sprintf("internal: %v\n%s", r, hostStack())})
			}
		}()
		fr := &frame{in: s.in, g: g, code: &fnCode{}}
		_ = fr
		s.in.callValue(nil, fn, args)
		if g.id == 0 {
			s.finish(pathEnd{kind: endDone})
			return
		}
		g.state = 2
		s.dispatch()
	}()
}

func (s *Sched) spawn(fn Value, args []Value) {
	if isNilFn(fn) {
		s.in.goPanicStr("go of nil func value")
	}
	g := &G{id: len(s.gs), wake: make(chan bool, 1)}
	s.gs = append(s.gs, g)
	s.start(g, fn, args)
	s.runq = append(s.runq, g)
	s.point()
}

// dispatch passes the token to some runnable goroutine (the caller no longer runs).
func (s *Sched) dispatch() {
	if s.ended {
		return
	}
	if len(s.runq) == 0 {
		msg := "all goroutines are blocked:"
		for _, g := range s.gs {
			if g.state == 1 {
				msg += fmt.Sprintf(" [%d: %s]", g.id, g.why)
			}
		}
		s.finish(pathEnd{kind: endViolation, cls: "deadlock", msg: msg})
		return
	}
	k := 0
	if s.explore && len(s.runq) > 1 {
		k = s.in.choose(len(s.runq))
		s.in.schedV = append(s.in.schedV, int64(s.runq[k].id))
	}
	if s.yield {
		for i, g := range s.runq {
			if g.id < s.runq[k].id {
				k = i
			}
		}
	}
	g := s.runq[k]
	s.runq = append(s.runq[:k:k], s.runq[k+1:]...)
	s.cur = g
	g.wake <- true
}

// block suspends the running goroutine until somebody makes it ready.
func (s *Sched) block(why string) {
	g := s.cur
	g.state = 1
	g.why = why
	d := s.in.depth
	s.dispatch()
	if !<-g.wake {
		panic(killed{})
	}
	s.in.depth = d
	g.state = 0
}

func (s *Sched) ready(g *G) {
	g.state = 0
	s.runq = append(s.runq, g)
}

// point is a scheduling point: in exploration mode another runnable goroutine
// may be preferred.
func (s *Sched) point() {
	if !s.explore || s.preempt <= 0 || len(s.runq) == 0 {
		return
	}
	k := s.in.choose(len(s.runq) + 1)
	if k == 0 {
		return
	}
	s.preempt--
	g := s.cur
	o := s.runq[k-1]
	s.runq = append(s.runq[:k-1:k-1], s.runq[k:]...)
	s.runq = append(s.runq, g)
	s.in.schedV = append(s.in.schedV, int64(o.id))
	s.cur = o
	d := s.in.depth
	o.wake <- true
	if !<-g.wake {
		panic(killed{})
	}
	s.in.depth = d
}

// yieldPoint is vp.Yield in the mode that explores schedules at these points only.
func (s *Sched) yieldPoint() {
	if len(s.gs) < 2 {
		return
	}
	s.yieldN++
	if s.preempt <= 0 || len(s.runq) == 0 {
		return
	}
	k := s.in.choose(len(s.runq) + 1)
	if k == 0 {
		return
	}
	s.preempt--
	s.in.schedV = append(s.in.schedV, s.yieldN, int64(s.runq[k-1].id))
	s.handTo(k - 1)
}

// handTo passes the token to runq[k] and waits for it to come back.
func (s *Sched) handTo(k int) {
	g := s.cur
	o := s.runq[k]
	s.runq = append(s.runq[:k:k], s.runq[k+1:]...)
	s.runq = append(s.runq, g)
	s.cur = o
	d := s.in.depth
	o.wake <- true
	if !<-g.wake {
		panic(killed{})
	}
	s.in.depth = d
}

// gosched lets everybody else run first.
func (s *Sched) gosched() {
	if len(s.runq) == 0 {
		return
	}
	g := s.cur
	s.runq = append(s.runq, g)
	d := s.in.depth
	s.dispatch()
	if !<-g.wake {
		panic(killed{})
	}
	s.in.depth = d
}

func (c *Chan) popRecv() *waiter {
	for len(c.recvq) > 0 {
		w := c.recvq[0]
		c.recvq = c.recvq[1:]
		if w.dead != nil {
			if *w.dead {
				continue
			}
			*w.dead = true
		}
		return w
	}
	return nil
}

func (c *Chan) popSend() *waiter {
	for len(c.sendq) > 0 {
		w := c.sendq[0]
		c.sendq = c.sendq[1:]
		if w.dead != nil {
			if *w.dead {
				continue
			}
			*w.dead = true
		}
		return w
	}
	return nil
}

func (c *Chan) hasRecv() bool {
	for _, w := range c.recvq {
		if w.dead == nil || !*w.dead {
			return true
		}
	}
	return false
}

func (c *Chan) hasSend() bool {
	for _, w := range c.sendq {
		if w.dead == nil || !*w.dead {
			return true
		}
	}
	return false
}

// trySend performs a send if possible.
func (s *Sched) trySend(c *Chan, v Value) bool {
	if c.closed {
		panic(goPanic{s.in.plainError("send on closed channel")})
	}
	if w := c.popRecv(); w != nil {
		w.g.val, w.g.ok, w.g.selIdx = v, true, w.sel
		s.ready(w.g)
		return true
	}
	if len(c.buf) < c.cap {
		c.buf = append(c.buf, v)
		return true
	}
	return false
}

func (s *Sched) tryRecv(c *Chan) (Value, bool, bool) {
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = c.buf[1:]
		if w := c.popSend(); w != nil {
			c.buf = append(c.buf, w.val)
			w.g.selIdx = w.sel
			w.g.panicCl = false
			s.ready(w.g)
		}
		return v, true, true
	}
	if w := c.popSend(); w != nil {
		w.g.selIdx = w.sel
		w.g.panicCl = false
		s.ready(w.g)
		return w.val, true, true
	}
	if c.closed {
		return nil, false, true
	}
	return nil, false, false
}

func (s *Sched) send(c *Chan, v Value) {
	s.point()
	if c == nil {
		s.block("send on nil channel")
	}
	if s.trySend(c, v) {
		return
	}
	g := s.cur
	c.sendq = append(c.sendq, &waiter{g: g, val: v, sel: -1})
	s.block("chan send")
	if g.panicCl {
		g.panicCl = false
		panic(goPanic{s.in.plainError("send on closed channel")})
	}
}

func (s *Sched) recv(c *Chan) (Value, bool) {
	s.point()
	if c == nil {
		s.block("receive from nil channel")
	}
	if v, ok, done := s.tryRecv(c); done {
		return v, ok
	}
	g := s.cur
	c.recvq = append(c.recvq, &waiter{g: g, sel: -1})
	s.block("chan receive")
	v := g.val
	g.val = nil
	return v, g.ok
}

func (s *Sched) closeCh(c *Chan) {
	s.point()
	if c == nil {
		panic(goPanic{s.in.plainError("close of nil channel")})
	}
	if c.closed {
		panic(goPanic{s.in.plainError("close of closed channel")})
	}
	c.closed = true
	for w := c.popRecv(); w != nil; w = c.popRecv() {
		w.g.val, w.g.ok, w.g.selIdx = nil, false, w.sel
		s.ready(w.g)
	}
	for w := c.popSend(); w != nil; w = c.popSend() {
		w.g.panicCl = true
		w.g.selIdx = w.sel
		s.ready(w.g)
	}
}

func (in *Interp) selectInstr(fr *frame, sel *ssa.Select, x *ins) Value {
	s := in.sch
	s.point()
	// operand order: Chan, Send, Chan, Send, ...
	n := len(sel.States)
	chans := make([]*Chan, n)
	sends := make([]Value, n)
	k := 0
	for i, st := range sel.States {
		chans[i], _ = fr.get(&x.op[k]).(*Chan)
		k++
		if st.Dir == types.SendOnly {
			sends[i] = copyVal(fr.get(&x.op[k]))
		}
		k++
	}
	nrecv := 0
	for _, st := range sel.States {
		if st.Dir == types.RecvOnly {
			nrecv++
		}
	}
	result := func(idx int, v Value, ok bool) Value {
		t := Tuple{int64(idx), ok}
		for i, st := range sel.States {
			if st.Dir == types.RecvOnly {
				if i == idx && v != nil && ok {
					t = append(t, v)
				} else if i == idx && !ok {
					t = append(t, in.zero(st.Chan.Type().Underlying().(*types.Chan).Elem()))
				} else {
					t = append(t, in.zero(st.Chan.Type().Underlying().(*types.Chan).Elem()))
				}
			}
		}
		return t
	}
	// ready cases
	var rd []int
	for i, st := range sel.States {
		c := chans[i]
		if c == nil {
			continue
		}
		if st.Dir == types.SendOnly {
			if c.closed || c.hasRecv() || len(c.buf) < c.cap {
				rd = append(rd, i)
			}
		} else if len(c.buf) > 0 || c.hasSend() || c.closed {
			rd = append(rd, i)
		}
	}
	if len(rd) > 0 {
		i := rd[0]
		if s.explore && len(rd) > 1 {
			i = rd[in.choose(len(rd))]
		}
		if sel.States[i].Dir == types.SendOnly {
			s.trySend(chans[i], sends[i])
			return result(i, nil, false)
		}
		v, ok, _ := s.tryRecv(chans[i])
		return result(i, v, ok)
	}
	if !sel.Blocking {
		return result(-1, nil, false)
	}
	g := s.cur
	dead := false
	for i, st := range sel.States {
		c := chans[i]
		if c == nil {
			continue
		}
		w := &waiter{g: g, sel: i, dead: &dead, val: sends[i]}
		if st.Dir == types.SendOnly {
			c.sendq = append(c.sendq, w)
		} else {
			c.recvq = append(c.recvq, w)
		}
	}
	g.ok, g.val = false, nil
	s.block("select")
	if g.panicCl {
		g.panicCl = false
		panic(goPanic{in.plainError("send on closed channel")})
	}
	v := g.val
	g.val = nil
	return result(g.selIdx, v, g.ok)
}
