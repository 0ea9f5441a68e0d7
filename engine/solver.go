package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"math"
	"math/big"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

type Res int

const (
	Sat Res = iota
	Unsat
	Unknown
)

func (r Res) String() string { return [...]string{"sat", "unsat", "unknown"}[r] }

// Stats over all workers.
var (
	statQueries  atomic.Int64
	statSat      atomic.Int64
	statUnsat    atomic.Int64
	statUnknown  atomic.Int64
	statSolverNs atomic.Int64
	statOneShot  atomic.Int64
)

type Solver struct {
	b        *Builder
	cmd      *exec.Cmd
	in       *bufio.Writer
	inc      io.WriteCloser
	out      *bufio.Reader
	emitted  map[*Term]string
	vars     []*Term // declared on this path
	ufdone   map[string]bool
	pc       []*Term
	timeout  int // ms
	dead     bool
	deadline time.Time
}

func NewSolver(b *Builder, timeoutMs int) *Solver {
	s := &Solver{b: b, timeout: timeoutMs}
	s.start()
	return s
}

func (s *Solver) start() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
	s.cmd = exec.Command("z3-new", "-in", "-memory:3000")
	w, _ := s.cmd.StdinPipe()
	r, _ := s.cmd.StdoutPipe()
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.inc = w
	s.in = bufio.NewWriterSize(w, 1<<16)
	s.out = bufio.NewReaderSize(r, 1<<16)
	fmt.Fprintf(s.in, "(set-option :print-success false)(set-option :timeout %d)\n", s.timeout)
	s.dead = false
	s.emitted = map[*Term]string{}
	s.ufdone = map[string]bool{}
	s.vars = nil
	s.pc = nil
	fmt.Fprintln(s.in, "(push 1)")
}

func (s *Solver) Close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.inc.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

// Reset starts a new path.
func (s *Solver) Reset() {
	if s.dead {
		s.start()
		return
	}
	fmt.Fprintln(s.in, "(pop 1)(push 1)")
	s.emitted = map[*Term]string{}
	s.ufdone = map[string]bool{}
	s.vars = nil
	s.pc = nil
}

func (s *Solver) ref(t *Term) string {
	if t.op == "" {
		return t.constString()
	}
	if n, ok := s.emitted[t]; ok {
		return n
	}
	s.define(s.in, t, s.emitted, s.ufdone, &s.vars)
	return s.emitted[t]
}

// define writes declarations/definitions of t and its subterms.
func (s *Solver) define(w io.Writer, t *Term, em map[*Term]string, ufd map[string]bool, vars *[]*Term) {
	// iterative post-order to survive deep DAGs
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if f.t.op == "" || em[f.t] != "" {
			st = st[:len(st)-1]
			continue
		}
		if f.i < len(f.t.args) {
			a := f.t.args[f.i]
			f.i++
			if a.op != "" && em[a] == "" {
				st = append(st, fr{a, 0})
			}
			continue
		}
		x := f.t
		st = st[:len(st)-1]
		if x.op == "var" {
			n := quote(x.name)
			fmt.Fprintf(w, "(declare-const %s %s)\n", n, x.sort)
			em[x] = n
			*vars = append(*vars, x)
			continue
		}
		op := x.op
		if op == "uf" {
			op = quote(x.name)
			if !ufd[x.name] {
				ufd[x.name] = true
				fmt.Fprintln(w, s.b.ufs[x.name])
			}
		}
		n := "t" + strconv.Itoa(int(x.id))
		var sb strings.Builder
		for _, a := range x.args {
			sb.WriteByte(' ')
			if a.op == "" {
				sb.WriteString(a.constString())
			} else {
				sb.WriteString(em[a])
			}
		}
		fmt.Fprintf(w, "(define-fun %s () %s (%s%s))\n", n, x.sort, op, sb.String())
		em[x] = n
	}
}

func (s *Solver) Assert(t *Term) {
	s.pc = append(s.pc, t)
	r := s.ref(t)
	fmt.Fprintf(s.in, "(assert %s)\n", r)
}

func (s *Solver) readLine() (string, error) {
	s.in.Flush()
	type rl struct {
		l string
		e error
	}
	ch := make(chan rl, 1)
	go func() {
		l, e := s.out.ReadString('\n')
		ch <- rl{l, e}
	}()
	select {
	case r := <-ch:
		return strings.TrimSpace(r.l), r.e
	case <-time.After(time.Duration(s.timeout)*time.Millisecond*2 + 10*time.Second):
		s.cmd.Process.Kill()
		r := <-ch
		_ = r
		return "", fmt.Errorf("solver hung")
	}
}

// Check asks for satisfiability of pc ∧ c. If wantModel and sat, values of all
// path variables are returned.
func (s *Solver) Check(c *Term, wantModel bool) (Res, Model) {
	if c != nil && c.IsConst() {
		if c.u == 0 {
			return Unsat, nil
		}
		c = nil
	}
	statQueries.Add(1)
	t0 := time.Now()
	defer func() { statSolverNs.Add(int64(time.Since(t0))) }()
	if s.dead {
		return s.count(Unknown), nil
	}
	if c != nil {
		r := s.ref(c)
		fmt.Fprintf(s.in, "(push 1)(assert %s)(check-sat)\n", r)
	} else {
		fmt.Fprintln(s.in, "(push 1)(check-sat)")
	}
	l, err := s.readLine()
	if err != nil {
		if os.Getenv("VP_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "solver died:", err, l)
		}
		s.dead = true
		return s.count(Unknown), nil
	}
	res := Unknown
	switch l {
	case "sat":
		res = Sat
	case "unsat":
		res = Unsat
	case "unknown":
	default:
		if strings.Contains(l, "(error") {
			fmt.Fprintln(os.Stderr, "SOLVER ERROR:", l)
			s.dead = true
			return s.count(Unknown), nil
		}
	}
	var m Model
	if res == Sat && wantModel {
		m = s.getModel(func(q string) string {
			fmt.Fprintln(s.in, q)
			return s.readSexp()
		}, s.vars)
	}
	fmt.Fprintln(s.in, "(pop 1)")
	return s.count(res), m
}

// Enumerate lists every value x can take under the path condition. It returns
// Unsat when the list is complete, Sat when there are more than max values.
func (s *Solver) Enumerate(x *Term, max int) ([]MVal, Res) {
	t0 := time.Now()
	defer func() { statSolverNs.Add(int64(time.Since(t0))) }()
	if s.dead {
		return nil, Unknown
	}
	r := s.ref(x)
	fmt.Fprintln(s.in, "(push 1)")
	var out []MVal
	res := Unknown
loop:
	for {
		statQueries.Add(1)
		fmt.Fprintln(s.in, "(check-sat)")
		l, err := s.readLine()
		if err != nil {
			s.dead = true
			return nil, s.count(Unknown)
		}
		switch l {
		case "unsat":
			res = s.count(Unsat)
			break loop
		case "sat":
			s.count(Sat)
			if len(out) >= max {
				res = Sat
				break loop
			}
			fmt.Fprintf(s.in, "(get-value (%s))\n", r)
			sx, _ := parseSexp(s.readSexp())
			if s.dead || len(sx.list) != 1 || len(sx.list[0].list) != 2 {
				return nil, Unknown
			}
			mv, ok := parseVal(x.sort, sx.list[0].list[1])
			if !ok {
				break loop
			}
			out = append(out, mv)
			var c *Term
			if x.sort.K == KInt {
				c = s.b.IntBig(mv.Q.Num())
			} else {
				c = s.b.BV(mv.U, int(x.sort.W))
			}
			fmt.Fprintf(s.in, "(assert (not (= %s %s)))\n", r, c.constString())
		case "unknown":
			s.count(Unknown)
			break loop
		default:
			if strings.Contains(l, "(error") {
				fmt.Fprintln(os.Stderr, "SOLVER ERROR:", l)
			}
			s.dead = true
			return nil, s.count(Unknown)
		}
	}
	fmt.Fprintln(s.in, "(pop 1)")
	return out, res
}

func (s *Solver) count(r Res) Res {
	switch r {
	case Sat:
		statSat.Add(1)
	case Unsat:
		statUnsat.Add(1)
	default:
		statUnknown.Add(1)
	}
	return r
}

func (s *Solver) readSexp() string {
	var sb strings.Builder
	depth := 0
	for {
		l, err := s.readLine()
		if err != nil {
			s.dead = true
			return ""
		}
		inbar := false
		for _, c := range l {
			switch {
			case c == '|':
				inbar = !inbar
			case inbar:
			case c == '(':
				depth++
			case c == ')':
				depth--
			}
		}
		sb.WriteString(l)
		sb.WriteByte(' ')
		if depth <= 0 {
			return sb.String()
		}
	}
}

// Model maps variable names to values.
type Model map[string]MVal

type MVal struct {
	Sort Sort
	U    uint64
	Q    *big.Rat
}

func (s *Solver) getModel(ask func(string) string, vars []*Term) Model {
	m := Model{}
	if len(vars) == 0 {
		return m
	}
	var sb strings.Builder
	sb.WriteString("(get-value (")
	for _, v := range vars {
		sb.WriteString(quote(v.name))
		sb.WriteByte(' ')
	}
	sb.WriteString("))")
	out := ask(sb.String())
	x, _ := parseSexp(out)
	byName := map[string]*Term{}
	for _, v := range vars {
		byName[v.name] = v
	}
	for _, p := range x.list {
		if len(p.list) != 2 {
			continue
		}
		n := strings.Trim(p.list[0].atom, "|")
		v := byName[n]
		if v == nil {
			continue
		}
		if mv, ok := parseVal(v.sort, p.list[1]); ok {
			m[n] = mv
		}
	}
	return m
}

type sexp struct {
	atom string
	list []*sexp
}

func parseSexp(s string) (*sexp, string) {
	s = strings.TrimLeft(s, " \t\r\n")
	if s == "" {
		return &sexp{}, ""
	}
	if s[0] == '(' {
		s = s[1:]
		x := &sexp{}
		for {
			s = strings.TrimLeft(s, " \t\r\n")
			if s == "" {
				return x, ""
			}
			if s[0] == ')' {
				return x, s[1:]
			}
			var y *sexp
			y, s = parseSexp(s)
			x.list = append(x.list, y)
		}
	}
	if s[0] == '|' {
		i := strings.IndexByte(s[1:], '|')
		return &sexp{atom: s[:i+2]}, s[i+2:]
	}
	i := 0
	for i < len(s) && !strings.ContainsRune(" \t\r\n()", rune(s[i])) {
		i++
	}
	return &sexp{atom: s[:i]}, s[i:]
}

func parseBits(a string) (uint64, bool) {
	if strings.HasPrefix(a, "#x") {
		u, err := strconv.ParseUint(a[2:], 16, 64)
		return u, err == nil
	}
	if strings.HasPrefix(a, "#b") {
		u, err := strconv.ParseUint(a[2:], 2, 64)
		return u, err == nil
	}
	return 0, false
}

func parseRat(x *sexp) (*big.Rat, bool) {
	if x.atom != "" {
		a := strings.TrimSuffix(x.atom, "?")
		r, ok := new(big.Rat).SetString(a)
		return r, ok
	}
	if len(x.list) == 2 && x.list[0].atom == "-" {
		r, ok := parseRat(x.list[1])
		if !ok {
			return nil, false
		}
		return r.Neg(r), true
	}
	if len(x.list) == 3 && x.list[0].atom == "/" {
		p, ok1 := parseRat(x.list[1])
		q, ok2 := parseRat(x.list[2])
		if !ok1 || !ok2 || q.Sign() == 0 {
			return nil, false
		}
		return p.Quo(p, q), true
	}
	// (root-obj (+ (^ x 2) (- 2)) 2): approximate numerically
	if len(x.list) == 3 && x.list[0].atom == "root-obj" {
		return rootObj(x)
	}
	return nil, false
}

// rootObj evaluates (root-obj poly k): k-th real root of poly in x.
func rootObj(x *sexp) (*big.Rat, bool) {
	var ev func(e *sexp, v float64) float64
	ev = func(e *sexp, v float64) float64 {
		if e.atom != "" {
			if e.atom == "x" {
				return v
			}
			f, _ := strconv.ParseFloat(e.atom, 64)
			return f
		}
		switch e.list[0].atom {
		case "+":
			r := 0.0
			for _, a := range e.list[1:] {
				r += ev(a, v)
			}
			return r
		case "*":
			r := 1.0
			for _, a := range e.list[1:] {
				r *= ev(a, v)
			}
			return r
		case "-":
			if len(e.list) == 2 {
				return -ev(e.list[1], v)
			}
			return ev(e.list[1], v) - ev(e.list[2], v)
		case "^":
			return math.Pow(ev(e.list[1], v), ev(e.list[2], v))
		case "/":
			return ev(e.list[1], v) / ev(e.list[2], v)
		}
		return math.NaN()
	}
	k, _ := strconv.Atoi(x.list[2].atom)
	n := 0
	const R, N = 1e4, 400000
	prev := ev(x.list[1], -R)
	for i := 1; i <= N; i++ {
		a := -R + (2*R)*float64(i-1)/N
		c := -R + (2*R)*float64(i)/N
		cur := ev(x.list[1], c)
		if prev == 0 || prev*cur < 0 {
			n++
			if n == k {
				lo, hi := a, c
				for j := 0; j < 200; j++ {
					m := (lo + hi) / 2
					if ev(x.list[1], m)*prev > 0 {
						lo = m
					} else {
						hi = m
					}
				}
				return new(big.Rat).SetFloat64((lo + hi) / 2), true
			}
		}
		prev = cur
	}
	return nil, false
}

func parseVal(s Sort, x *sexp) (MVal, bool) {
	switch s.K {
	case KBool:
		if x.atom == "true" {
			return MVal{Sort: s, U: 1}, true
		}
		return MVal{Sort: s, U: 0}, true
	case KBV:
		if u, ok := parseBits(x.atom); ok {
			return MVal{Sort: s, U: u}, true
		}
		if len(x.list) == 3 && strings.HasPrefix(x.list[1].atom, "bv") {
			u, err := strconv.ParseUint(x.list[1].atom[2:], 10, 64)
			return MVal{Sort: s, U: u}, err == nil
		}
	case KInt, KReal:
		q, ok := parseRat(x)
		if ok {
			return MVal{Sort: s, Q: q}, true
		}
	case KFP64, KFP32:
		eb, sb := uint(11), uint(52)
		if s.K == KFP32 {
			eb, sb = 8, 23
		}
		if len(x.list) == 4 && x.list[0].atom == "fp" {
			a, ok1 := parseBits(x.list[1].atom)
			e, ok2 := parseBits(x.list[2].atom)
			m, ok3 := parseBits(x.list[3].atom)
			return MVal{Sort: s, U: a<<(eb+sb) | e<<sb | m}, ok1 && ok2 && ok3
		}
		if len(x.list) == 4 && x.list[0].atom == "_" {
			all := uint64(1)<<eb - 1
			switch x.list[1].atom {
			case "+zero":
				return MVal{Sort: s, U: 0}, true
			case "-zero":
				return MVal{Sort: s, U: 1 << (eb + sb)}, true
			case "+oo":
				return MVal{Sort: s, U: all << sb}, true
			case "-oo":
				return MVal{Sort: s, U: 1<<(eb+sb) | all<<sb}, true
			case "NaN":
				return MVal{Sort: s, U: all<<sb | 1<<(sb-1)}, true
			}
		}
	}
	return MVal{}, false
}

// OneShot decides pc ∧ c with fresh solver processes (z3 and cvc5 in
// parallel), for queries the incremental solver gave up on.
func (s *Solver) OneShot(c *Term, wantModel bool, limit time.Duration) (Res, Model, string) {
	statOneShot.Add(1)
	t0 := time.Now()
	defer func() { statSolverNs.Add(int64(time.Since(t0))) }()
	var buf bytes.Buffer
	em, ufd := map[*Term]string{}, map[string]bool{}
	var vars []*Term
	for _, p := range append(append([]*Term{}, s.pc...), c) {
		if p == nil || p.op == "" {
			continue
		}
		s.define(&buf, p, em, ufd, &vars)
		fmt.Fprintf(&buf, "(assert %s)\n", em[p])
	}
	buf.WriteString("(check-sat)\n")
	if wantModel && len(vars) > 0 {
		buf.WriteString("(get-value (")
		for _, v := range vars {
			buf.WriteString(quote(v.name) + " ")
		}
		buf.WriteString("))\n")
	}
	script := "(set-option :produce-models true)(set-logic ALL)\n" + buf.String()
	if d := os.Getenv("VP_DUMP"); d != "" {
		os.WriteFile(fmt.Sprintf("%s/q%d.smt2", d, statOneShot.Load()), []byte(script), 0644)
	}
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	type ans struct {
		r   Res
		out string
		who string
	}
	ch := make(chan ans, 3)
	run := func(who string, args ...string) {
		cmd := exec.CommandContext(ctx, args[0], args[1:]...)
		cmd.Stdin = strings.NewReader(script)
		out, _ := cmd.Output()
		o := string(out)
		first := o
		if i := strings.IndexByte(o, '\n'); i >= 0 {
			first = o[:i]
		}
		r := Unknown
		switch strings.TrimSpace(first) {
		case "sat":
			r = Sat
		case "unsat":
			r = Unsat
		}
		if r == Unsat && strings.Contains(strings.SplitN(o, "\n", 2)[0], "error") {
			r = Unknown
		}
		ch <- ans{r, o, who}
	}
	go run("z3", "z3-new", "-in", "-memory:3000")
	go run("cvc5", "cvc5", "--lang=smt2", "--produce-models")
	n := 2
	for i := 0; i < n; i++ {
		a := <-ch
		if a.r == Unknown {
			continue
		}
		cancel()
		var m Model
		if a.r == Sat && wantModel {
			rest := ""
			if j := strings.IndexByte(a.out, '\n'); j >= 0 {
				rest = a.out[j+1:]
			}
			m = s.getModel(func(string) string { return rest }, vars)
		}
		return s.count(a.r), m, a.who
	}
	return s.count(Unknown), nil, ""
}
