package main

import (
	"fmt"
	"math"
	"math/big"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Harness is one entry point with its encoding parameters.
type Harness struct {
	Name      string         `json:"name"` // function
	What      string         `json:"what"`
	Mode      string         `json:"mode"` // math or bits
	TimeoutMs int            `json:"timeout_ms"`
	OneShotS  int            `json:"oneshot_s"`
	MaxSteps  int64          `json:"max_steps"`
	MapOrder  string         `json:"map_order"`
	Sched     string         `json:"sched"`
	Preempt   int            `json:"preempt"`
	BudgetS   int            `json:"budget_s"`
	Replays   int            `json:"replays"` // native repetitions of one vector
	Reach     []string       `json:"reach"`   // labels some path must reach
	ParamsRaw map[string]int `json:"params"`
	Validate  int            `json:"validate"` // completed paths re-run natively
	Optional  bool           `json:"optional"` // entry may be missing

	Params map[string]Value `json:"-"`
}

type Vector struct {
	Prop    string            `json:"property"`
	Harness string            `json:"harness"`
	Params  map[string]int    `json:"params"`
	Vars    map[string]string `json:"vars"`
	Sched   []int64           `json:"sched"`
	Expect  string            `json:"expect"`
}

type violation struct {
	msg, cls string
	vec      *Vector
	path     string // replay file
	native   string
}

type HarnessResult struct {
	h           *Harness
	paths       int
	completed   int
	assumed     int
	infeasible  int
	unsupported map[string]int
	inconcl     map[string]int
	decisions   int64
	asserts     int64
	steps       int64
	complete    bool // worklist emptied
	reached     map[string]bool
	viol        *violation
	known       map[string]*violation
	unrepro     map[string]int
	validated   int
	mismatches  []string
	funcs       map[string]int64
	samples     []any
	wall        float64
	schedules   int
}

type explorer struct {
	w    *World
	h    *Harness
	r    *Runner
	kf   []knownFinding
	prop string

	mu     sync.Mutex
	cond   *sync.Cond
	stack  [][]dec
	active int
	stop   bool
	res    *HarnessResult
	tried  map[string]int
	nval   int
	reprob int // pending replays
}

func explore(w *World, h *Harness, main *ssa.Function, r *Runner, prop string, kf []knownFinding, workers int) *HarnessResult {
	e := &explorer{w: w, h: h, r: r, kf: kf, prop: prop, tried: map[string]int{}}
	e.cond = sync.NewCond(&e.mu)
	e.res = &HarnessResult{h: h, unsupported: map[string]int{}, inconcl: map[string]int{}, reached: map[string]bool{}, known: map[string]*violation{}, unrepro: map[string]int{}, funcs: map[string]int64{}}
	e.stack = [][]dec{{}}
	t0 := time.Now()
	timer := time.AfterFunc(time.Duration(h.BudgetS)*time.Second, func() {
		e.mu.Lock()
		e.stop = true
		e.cond.Broadcast()
		e.mu.Unlock()
	})
	var wg sync.WaitGroup
	var ins []*Interp
	for i := 0; i < workers; i++ {
		in := NewInterp(w, h)
		ins = append(ins, in)
		wg.Add(1)
		go func(id int) {
			defer wg.Done()
			e.worker(in, main, id)
		}(i)
	}
	wg.Wait()
	timer.Stop()
	e.res.complete = len(e.stack) == 0
	for _, in := range ins {
		for c, n := range in.cover {
			if c.inMod {
				e.res.funcs[c.name] += n
			}
		}
		in.sol.Close()
	}
	e.res.wall = time.Since(t0).Seconds()
	return e.res
}

func (e *explorer) pop() ([]dec, bool) {
	e.mu.Lock()
	defer e.mu.Unlock()
	for {
		if e.stop {
			return nil, false
		}
		if n := len(e.stack); n > 0 {
			p := e.stack[n-1]
			e.stack = e.stack[:n-1]
			e.active++
			return p, true
		}
		if e.active == 0 {
			e.cond.Broadcast()
			return nil, false
		}
		e.cond.Wait()
	}
}

func (e *explorer) worker(in *Interp, main *ssa.Function, id int) {
	for {
		p, ok := e.pop()
		if !ok {
			return
		}
		in.reset(p)
		in.probe = func(msg string, nc *Term) bool { return e.probe(in, msg, nc) }
		t0 := time.Now()
		in.runPath(main)
		if d := time.Since(t0); d > 5*time.Second && os.Getenv("VP_DEBUG") != "" {
			fmt.Fprintf(os.Stderr, "SLOW path %.1fs: %v\n", d.Seconds(), in.decs)
		}
		e.finishPath(in)
	}
}

func (e *explorer) finishPath(in *Interp) {
	end := in.ended
	r := e.res
	e.mu.Lock()
	r.paths++
	r.decisions += int64(len(in.decs) - len(in.prefix))
	r.asserts += int64(in.nassert)
	r.steps += in.steps
	for l := range in.reached {
		if end.kind == endDone || end.kind == endViolation {
			r.reached[l] = true
		}
	}
	for _, m := range in.inconcl {
		r.inconcl[m]++
	}
	if in.sch != nil && in.sch.explore {
		r.schedules++
	}
	var todo string
	switch end.kind {
	case endDone:
		r.completed++
		if e.nval < e.h.Validate && (r.completed <= 2 || r.completed%7 == 0) && e.r != nil {
			e.nval++
			todo = "validate"
		}
	case endAssume:
		r.assumed++
	case endInfeasible:
		r.infeasible++
	case endUnsupported:
		r.unsupported[firstLine(end.msg)]++
		if os.Getenv("VP_DEBUG") != "" && r.unsupported[firstLine(end.msg)] == 1 {
			fmt.Fprintln(os.Stderr, "UNSUPPORTED:", end.msg)
		}
	case endViolation:
		todo = "violation"
	}
	e.stack = append(e.stack, in.alts...)
	e.mu.Unlock()

	switch todo {
	case "violation":
		e.handleViolation(in, end)
	case "validate":
		e.validate(in)
	}

	e.mu.Lock()
	e.active--
	e.cond.Broadcast()
	e.mu.Unlock()
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	if len(s) > 160 {
		return s[:160]
	}
	return s
}

func (in *Interp) vector(prop string, h *Harness, m Model) *Vector {
	v := &Vector{Prop: prop, Harness: h.Name, Params: h.ParamsRaw, Vars: map[string]string{}, Sched: in.schedV}
	for _, x := range in.inputs {
		if x.t == nil {
			v.Vars[x.name] = strconv.FormatInt(x.v, 10)
			continue
		}
		q, ok := m[x.t.name]
		if !ok {
			continue
		}
		switch q.Sort.K {
		case KBool:
			v.Vars[x.name] = strconv.FormatBool(q.U == 1)
		case KBV:
			v.Vars[x.name] = strconv.FormatUint(q.U, 10)
			if q.Sort.W == 64 {
				v.Vars[x.name] = strconv.FormatInt(int64(q.U), 10)
			}
		case KInt:
			v.Vars[x.name] = q.Q.Num().String()
		case KReal:
			f, _ := q.Q.Float64()
			v.Vars[x.name] = strconv.FormatFloat(f, 'g', -1, 64)
		case KFP64:
			f := math.Float64frombits(q.U)
			if math.IsNaN(f) || math.IsInf(f, 0) {
				v.Vars[x.name] = fmt.Sprintf("bits:%d", q.U)
			} else {
				v.Vars[x.name] = strconv.FormatFloat(f, 'g', -1, 64)
			}
		}
	}
	return v
}

// spread adds constraints that differ from the last model, to get another one.
func (in *Interp) anotherModel(neg *Term, last Model, k int) (Model, bool) {
	c := neg
	n := 0
	for i := len(in.inputs) - 1; i >= 0; i-- {
		x := in.inputs[(i+k*7)%len(in.inputs)]
		if x.t == nil || x.t.sort.K != KReal && x.t.sort.K != KInt {
			continue
		}
		q, ok := last[x.t.name]
		if !ok {
			continue
		}
		var ne *Term
		if x.t.sort.K == KReal {
			d := in.b.Real(new(big.Rat).Add(q.Q, big.NewRat(int64(1+k%5), 7)))
			if (i+k)%2 == 0 {
				ne = in.b.ACmp("<=", d, x.t)
			} else {
				d = in.b.Real(new(big.Rat).Sub(q.Q, big.NewRat(int64(1+k%3), 9)))
				ne = in.b.ACmp("<=", x.t, d)
			}
		} else {
			ne = in.b.Not(in.b.Eq(x.t, in.b.IntBig(q.Q.Num())))
		}
		cc := ne
		if c != nil {
			cc = in.b.And(c, ne)
		}
		if r, m := in.sol.Check(cc, true); r == Sat {
			last = m
			c = cc
			n++
			if n >= 2 {
				break
			}
		}
	}
	if n == 0 {
		return nil, false
	}
	return last, true
}

func (e *explorer) handleViolation(in *Interp, end *pathEnd) {
	key := end.cls + ":" + firstLine(end.msg)
	e.mu.Lock()
	if e.res.viol != nil || e.tried[key] >= 10 && e.isKnown(end.msg) == nil || e.tried[key] >= 3 && e.isKnown(end.msg) != nil && e.res.known[e.isKnown(end.msg).key] != nil {
		e.mu.Unlock()
		return
	}
	e.tried[key]++
	e.mu.Unlock()
	m := in.model
	if m == nil {
		var res Res
		res, m = in.sol.Check(nil, true)
		if res == Unknown {
			res, m, _ = in.sol.OneShot(nil, true, time.Duration(e.h.OneShotS)*time.Second)
		}
		if res == Unsat {
			e.mu.Lock()
			e.res.infeasible++
			e.mu.Unlock()
			return
		}
		if res == Unknown {
			e.mu.Lock()
			e.res.inconcl["no model for: "+key]++
			e.mu.Unlock()
			return
		}
	}
	for k := 0; k < 4; k++ {
		v := in.vector(e.prop, e.h, m)
		v.Expect = end.cls + ": " + end.msg
		if e.r == nil {
			e.report(end, v, "(not replayed)")
			return
		}
		o := e.r.run(v, e.h)
		if os.Getenv("VP_DEBUG") != "" {
			fmt.Fprintf(os.Stderr, "REPLAY %s: %s -> %s\n", key, v.Vars, o)
		}
		if o.fail {
			end2 := *end
			if o.msg != "" {
				end2.msg = o.msg
			}
			e.report(&end2, v, o.String())
			return
		}
		var neg *Term
		nm, ok := in.anotherModel(neg, m, k)
		if !ok || in.model != nil && k > 2 {
			break
		}
		m = nm
	}
	e.mu.Lock()
	e.res.unrepro[key]++
	e.mu.Unlock()
}

// probe is called where the solver gives up on an assertion: inputs that follow
// the path are tried natively, so that a violation it cannot find symbolically
// is not lost: those for which the path condition and the negated assertion, nc,
// evaluate to true, then a few models of the path condition. It decides nothing
// if none of them fails. It tells whether one of them is a violation.
func (e *explorer) probe(in *Interp, msg string, nc *Term) bool {
	e.mu.Lock()
	n := e.tried["probe:"+msg]
	skip := e.r == nil || e.res.viol != nil || n >= 40
	e.tried["probe:"+msg]++
	e.mu.Unlock()
	if skip {
		return false
	}
	try := func(m Model) bool {
		v := in.vector(e.prop, e.h, m)
		v.Expect = "assert: " + msg
		o := e.r.run(v, e.h)
		if os.Getenv("VP_DEBUG") != "" {
			fmt.Fprintf(os.Stderr, "PROBE %s: %s -> %s\n", msg, v.Vars, o)
		}
		if o.fail {
			end := &pathEnd{kind: endViolation, cls: "assert", msg: msg}
			if o.msg != "" {
				end.msg = o.msg
			}
			e.report(end, v, o.String())
		}
		return o.fail
	}
	for _, m := range in.numeric(nc, 3) {
		if try(m) {
			return true
		}
	}
	if n >= 6 {
		return false
	}
	res, m := in.sol.Check(nil, true)
	for k := 0; k < 4 && res == Sat; k++ {
		if try(m) {
			return true
		}
		nm, ok := in.anotherModel(nil, m, k)
		if !ok {
			break
		}
		m = nm
	}
	return false
}

func (e *explorer) isKnown(msg string) *knownFinding {
	for i := range e.kf {
		if e.kf[i].prop == e.prop && strings.Contains(msg, "["+e.kf[i].key+"]") {
			return &e.kf[i]
		}
	}
	return nil
}

func (e *explorer) report(end *pathEnd, v *Vector, native string) {
	e.mu.Lock()
	defer e.mu.Unlock()
	vi := &violation{msg: end.msg, cls: end.cls, vec: v, native: native}
	if k := e.isKnown(end.msg); k != nil {
		if e.res.known[k.key] == nil {
			e.res.known[k.key] = vi
		}
		return
	}
	if e.res.viol == nil {
		e.res.viol = vi
		e.stop = true
		e.cond.Broadcast()
	}
}

// validate runs the native code on a model of a completed path and compares
// the observed values.
func (e *explorer) validate(in *Interp) {
	res, m := in.sol.Check(nil, true)
	if res != Sat {
		return
	}
	v := in.vector(e.prop, e.h, m)
	v.Expect = "ok"
	o := e.r.run(v, e.h)
	e.mu.Lock()
	defer e.mu.Unlock()
	if o.assumeFailed {
		return // rounding of the model moved it out of the assumptions
	}
	if len(e.res.samples) < 3 {
		e.res.samples = append(e.res.samples, map[string]any{"harness": e.h.Name, "inputs": v.Vars, "params": v.Params, "native": o.String()})
	}
	if o.fail {
		e.res.mismatches = append(e.res.mismatches, fmt.Sprintf("%s: %v: native run says %s", e.h.Name, v.Vars, o))
		return
	}
	e.res.validated++
}

func sortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
