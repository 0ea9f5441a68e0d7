// Package vp is the interface between a harness and the two ways it is run:
// symbolically (the engine gives every function below its meaning) and
// natively (this code: inputs come from a vector file).
package vp

import (
	"encoding/json"
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Hooks holds replacements for hooked functions of the repository.
var Hooks = map[string]any{}

type vector struct {
	Harness string            `json:"harness"`
	Params  map[string]int    `json:"params"`
	Vars    map[string]string `json:"vars"`
	Sched   []int             `json:"sched"`
}

var (
	vec   vector
	names = map[string]int{}
	mu    sync.Mutex
)

func next(name string) (string, bool) {
	mu.Lock()
	defer mu.Unlock()
	k := names[name]
	names[name] = k + 1
	v, ok := vec.Vars[name+"#"+strconv.Itoa(k)]
	return v, ok
}

// Int is an arbitrary integer in [lo, hi].
func Int(name string, lo, hi int) int {
	if lo > hi {
		Skip()
	}
	if s, ok := next(name); ok {
		n, _ := strconv.ParseInt(s, 10, 64)
		if int(n) < lo || int(n) > hi {
			Skip()
		}
		return int(n)
	}
	if lo > 0 || hi < 0 {
		return lo
	}
	return 0
}

// AnyInt is an arbitrary int.
func AnyInt(name string) int { return Int(name, math.MinInt64, math.MaxInt64) }

// Uint64 is an arbitrary uint64.
func Uint64(name string) uint64 {
	if s, ok := next(name); ok {
		if strings.HasPrefix(s, "-") {
			n, _ := strconv.ParseInt(s, 10, 64)
			return uint64(n)
		}
		n, _ := strconv.ParseUint(s, 10, 64)
		return n
	}
	return 0
}

// Byte is an arbitrary byte of the alphabet (any byte if it is empty).
func Byte(name, alphabet string) byte {
	if s, ok := next(name); ok {
		n, _ := strconv.ParseUint(s, 10, 8)
		if alphabet != "" && strings.IndexByte(alphabet, byte(n)) < 0 {
			Skip()
		}
		return byte(n)
	}
	if alphabet != "" {
		return alphabet[0]
	}
	return 0
}

// String is an arbitrary string of n bytes.
func String(name string, n int, alphabet string) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = Byte(name, alphabet)
	}
	return string(b)
}

func Bool(name string) bool {
	s, _ := next(name)
	return s == "true"
}

func parseFloat(s string) float64 {
	if strings.HasPrefix(s, "bits:") {
		u, _ := strconv.ParseUint(s[5:], 10, 64)
		return math.Float64frombits(u)
	}
	f, _ := strconv.ParseFloat(s, 64)
	return f
}

// Float is an arbitrary number in [lo, hi].
func Float(name string, lo, hi float64) float64 {
	if s, ok := next(name); ok {
		return parseFloat(s)
	}
	if lo > 0 || hi < 0 {
		return lo
	}
	return 0
}

// AnyFloat is an arbitrary float64 (bits mode: including NaN and infinities).
func AnyFloat(name string) float64 {
	if s, ok := next(name); ok {
		return parseFloat(s)
	}
	return 0
}

// Choose forks over 0..n-1.
func Choose(name string, n int) int {
	s, _ := next(name)
	k, _ := strconv.Atoi(s)
	return k
}

// Fix forks over the values of x.
func Fix(x int) int             { return x }
func FixString(s string) string { return s }

func die(code int, msg string) {
	fmt.Fprintln(os.Stderr, msg)
	os.Exit(code)
}

func Assume(c bool) {
	if !c {
		Skip()
	}
}

// Skip abandons the path.
func Skip() { die(0, "VP-ASSUME") }

func Assert(c bool, msg string) {
	if !c {
		Fail(msg)
	}
}

func Fail(msg string) {
	die(3, "VP-FAIL: "+strings.ReplaceAll(msg, "\n", " "))
}

func Reach(label string) {}

func Near(a, b float64) bool {
	if a == b || a != a && b != b {
		return true
	}
	d := math.Abs(a - b)
	return d <= 1e-9 || d <= 1e-9*math.Max(math.Abs(a), math.Abs(b))
}

func SameFloat(a, b float64) bool { return a == b || a != a && b != b }

func And(c ...bool) bool {
	for _, x := range c {
		if !x {
			return false
		}
	}
	return true
}

func Or(c ...bool) bool {
	for _, x := range c {
		if x {
			return true
		}
	}
	return false
}

func Implies(a, b bool) bool { return !a || b }

func IteFloat(c bool, a, b float64) float64 {
	if c {
		return a
	}
	return b
}

func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// Same compares deeply; NaN equals NaN, nil slices equal empty ones.
func Same(a, b any) bool { return same(reflect.ValueOf(a), reflect.ValueOf(b)) }

func same(a, b reflect.Value) bool {
	if a.IsValid() != b.IsValid() {
		return false
	}
	if !a.IsValid() {
		return true
	}
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Float32, reflect.Float64:
		return SameFloat(a.Float(), b.Float())
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !same(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !same(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Ptr:
		if a.Pointer() == b.Pointer() {
			return true
		}
		if a.IsNil() || b.IsNil() {
			return false
		}
		return same(a.Elem(), b.Elem())
	case reflect.Interface:
		return same(a.Elem(), b.Elem())
	case reflect.Map:
		if a.Len() != b.Len() {
			return false
		}
		for _, k := range a.MapKeys() {
			v := b.MapIndex(k)
			if !v.IsValid() || !same(a.MapIndex(k), v) {
				return false
			}
		}
		return true
	case reflect.String:
		return a.String() == b.String()
	case reflect.Bool:
		return a.Bool() == b.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() == b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return a.Uint() == b.Uint()
	case reflect.Func:
		return a.IsNil() && b.IsNil()
	}
	return false
}

// Logistic is 1/(1+exp(-x)); symbolically an unknown function into (0,1).
func Logistic(x float64) float64 { return 1 / (1 + math.Exp(-x)) }

// Param is an encoding bound set in the harness configuration.
func Param(name string, def int) int {
	if v, ok := vec.Params[name]; ok {
		return v
	}
	return def
}

func Symbolic() bool { return false }

// CaptureStdout runs f and returns what it printed.
func CaptureStdout(f func()) string {
	old := os.Stdout
	r, w, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	os.Stdout = w
	ch := make(chan string)
	go func() {
		b, _ := io.ReadAll(r)
		ch <- string(b)
	}()
	func() {
		defer func() {
			os.Stdout = old
			w.Close()
		}()
		f()
	}()
	return <-ch
}

// Panics runs f and reports whether it panicked.
func Panics(f func()) (p bool) {
	defer func() {
		if r := recover(); r != nil {
			p = true
		}
	}()
	f()
	return false
}

func Observe(label string, v any) {}
func Trace(v any)                 {}

var tmpDir string

// TempDir is a scratch directory.
func TempDir() string {
	if tmpDir == "" {
		d, err := os.MkdirTemp("", "vp")
		if err != nil {
			panic(err)
		}
		tmpDir = d
	}
	return tmpDir
}

// Files lists everything in a directory, directories with a slash at the end.
func Files(dir string) []string {
	var fs []string
	filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err == nil && p != dir {
			r, _ := filepath.Rel(dir, p)
			if i.IsDir() {
				r += "/"
			}
			fs = append(fs, r)
		}
		return nil
	})
	sort.Strings(fs)
	return fs
}

// SetStdin makes the given lines the standard input.
func SetStdin(lines ...string) {
	r, w, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	for _, l := range lines {
		io.WriteString(w, l+"\n")
	}
	w.Close()
	os.Stdin = r
}

// ---- controlled goroutines: Go starts one, Yield is a switching point ----

type task struct {
	wake chan bool
	done bool
}

var (
	tasks   []*task
	curTask int
	schedI  int
	ctl     bool
)

func ensureCtl() {
	if !ctl {
		ctl = true
		tasks = []*task{{wake: make(chan bool, 1)}}
	}
}

// Go starts f as a goroutine of the controlled schedule.
func Go(f func()) {
	ensureCtl()
	t := &task{wake: make(chan bool, 1)}
	tasks = append(tasks, t)
	go func() {
		<-t.wake
		f()
		t.done = true
		// the turn passes to whatever the schedule says next, else the lowest
		switchTo(pick(-1))
	}()
	Yield()
}

func pick(self int) int {
	for schedI < len(vec.Sched) {
		n := vec.Sched[schedI]
		schedI++
		if n < len(tasks) && !tasks[n].done {
			return n
		}
	}
	if self >= 0 {
		return self
	}
	for i, t := range tasks {
		if !t.done {
			return i
		}
	}
	return -1
}

func switchTo(n int) {
	if n < 0 {
		return
	}
	curTask = n
	tasks[n].wake <- true
}

// Yield is a scheduling point.
func Yield() {
	if !ctl {
		Jitter() // the goroutines are not ours: delay them instead
		return
	}
	if len(tasks) < 2 {
		return
	}
	me := curTask
	yieldN++
	if len(yieldAt) == 0 {
		return
	}
	n, ok := yieldAt[yieldN]
	if !ok || n == me || n >= len(tasks) || tasks[n].done {
		return
	}
	switchTo(n)
	<-tasks[me].wake
}

var (
	yieldN  int
	yieldAt = map[int]int{}
)

var (
	jitterOnce sync.Once
	jitterAt   map[int64]bool
	jitterN    atomic.Int64
)

// Jitter delays a goroutine at some of its calls (VP_JITTER lists which), in
// native runs that look for a schedule.
func Jitter() {
	jitterOnce.Do(func() {
		jitterAt = map[int64]bool{}
		for _, f := range strings.Split(os.Getenv("VP_JITTER"), ",") {
			if n, err := strconv.ParseInt(f, 10, 64); err == nil {
				jitterAt[n] = true
			}
		}
	})
	if n := jitterN.Add(1); jitterAt[n] {
		time.Sleep(15 * time.Millisecond)
	}
}

// Settle waits until every goroutine of the schedule has finished or blocks.
func Settle() {
	if !ctl {
		for i := 0; i < 20; i++ {
			runtime.Gosched()
			time.Sleep(100 * time.Microsecond)
		}
		return
	}
	me := curTask
	for {
		n := -1
		for i, t := range tasks {
			if i != me && !t.done {
				n = i
				break
			}
		}
		if n < 0 {
			return
		}
		switchTo(n)
		<-tasks[me].wake
	}
}

// Main runs one harness on the vector in file.
func Main(file string, hs map[string]func()) {
	b, err := os.ReadFile(file)
	if err != nil {
		die(9, err.Error())
	}
	if err := json.Unmarshal(b, &vec); err != nil {
		die(9, err.Error())
	}
	for i := 0; i+1 < len(vec.Sched); i += 2 {
		yieldAt[vec.Sched[i]] = vec.Sched[i+1]
	}
	h, ok := hs[vec.Harness]
	if !ok {
		die(9, "no harness "+vec.Harness)
	}
	defer func() {
		if tmpDir != "" && strings.Contains(filepath.Base(tmpDir), "vp") {
			os.RemoveAll(tmpDir)
		}
	}()
	h()
	fmt.Fprintln(os.Stderr, "VP-OK", jitterN.Load())
}

// Hook makes f what the hooked function does. Where the code does not have such
// a function, there is nothing to be decided.
func Hook(name string, f interface{}) {
	if !Hooked(name) {
		Skip()
	}
	Hooks[name] = f
}
