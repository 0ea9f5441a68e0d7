package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Runner executes harnesses natively: the same harness sources compiled with
// the real code.
type Runner struct {
	bin string
	dir string
	mu  sync.Mutex
	n   int
	err error
	rdy chan struct{}
	sem chan struct{}
}

type outcome struct {
	fail         bool
	assumeFailed bool
	msg          string
	raw          string
	points       int // points at which a goroutine can be delayed
}

func (o outcome) String() string {
	if o.assumeFailed {
		return "assumption not met"
	}
	if !o.fail {
		return "ok"
	}
	return o.raw
}

func buildRunner(ov *Overlay, dir string) *Runner {
	r := &Runner{dir: dir, bin: filepath.Join(dir, "runner"), rdy: make(chan struct{}), sem: make(chan struct{}, 8)}
	go func() {
		defer close(r.rdy)
		od := filepath.Join(dir, "ov")
		os.MkdirAll(od, 0755)
		j, err := ov.write(od)
		if err != nil {
			r.err = err
			return
		}
		md := filepath.Join(dir, "mod")
		os.MkdirAll(md, 0755)
		mf, err := modfile(md)
		if err != nil {
			r.err = err
			return
		}
		cmd := exec.Command("go", "build", "-overlay", j, "-modfile="+mf, "-o", r.bin, modPath+"/zzverif/runner")
		cmd.Dir = repo
		cmd.Env = goEnv()
		out, err := cmd.CombinedOutput()
		if err != nil {
			r.err = fmt.Errorf("building the native runner: %v\n%s", err, out)
		}
	}()
	return r
}

func (r *Runner) wait() error {
	<-r.rdy
	return r.err
}

func (r *Runner) run(v *Vector, h *Harness) outcome {
	if r.wait() != nil {
		return outcome{}
	}
	r.sem <- struct{}{}
	defer func() { <-r.sem }()
	r.mu.Lock()
	r.n++
	d := filepath.Join(r.dir, fmt.Sprintf("run%d", r.n))
	r.mu.Unlock()
	os.MkdirAll(d, 0755)
	defer os.RemoveAll(d)
	vf := filepath.Join(d, "vector.json")
	b, _ := json.Marshal(v)
	os.WriteFile(vf, b, 0644)
	n := h.Replays
	if n < 1 || v.Expect == "ok" {
		n = 1
	}
	var o outcome
	for i := 0; i < n; i++ {
		o = r.once(vf, d, "")
		if o.fail {
			return o
		}
	}
	if v.Expect == "ok" {
		return o
	}
	// A schedule: delay the goroutines at one point of the run after the other,
	// then at two.
	total := o.points
	if total == 0 {
		return o
	}
	until := time.Now().Add(20 * time.Second)
	var mu sync.Mutex
	next, found := 0, outcome{}
	var wg sync.WaitGroup
	for k := 0; k < 8; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				next++
				i, stop := next, found.fail || time.Now().After(until)
				mu.Unlock()
				if stop || i > total+800 {
					return
				}
				at := strconv.Itoa(i)
				if i > total {
					at = fmt.Sprintf("%d,%d", 1+i*7919%total, 1+i*104729%total)
				}
				if j := r.once(vf, d, at); j.fail {
					mu.Lock()
					found = j
					mu.Unlock()
				}
			}
		}()
	}
	wg.Wait()
	if found.fail {
		return found
	}
	return o
}

func (r *Runner) once(vf, d, jitter string) outcome {
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	sc := filepath.Join(d, "scratch")
	os.MkdirAll(sc, 0755)
	cmd := exec.CommandContext(ctx, "/bin/sh", "-c", "ulimit -v 12000000; exec \""+r.bin+"\" \""+vf+"\"")
	cmd.Dir = sc
	cmd.Env = append(os.Environ(), "TMPDIR="+sc, "TERM=dumb", "GOMEMLIMIT=3GiB", "GOTRACEBACK=single", "VP_JITTER="+jitter)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	err := cmd.Run()
	if ctx.Err() != nil {
		return outcome{fail: true, msg: "", raw: "the run did not finish within 20 s"}
	}
	es := errb.String()
	for _, l := range strings.Split(es, "\n") {
		if strings.HasPrefix(l, "VP-FAIL: ") {
			return outcome{fail: true, msg: l[len("VP-FAIL: "):], raw: l}
		}
		if strings.HasPrefix(l, "VP-ASSUME") {
			return outcome{assumeFailed: true}
		}
	}
	if err != nil {
		l := ""
		for _, x := range strings.Split(es, "\n") {
			if strings.HasPrefix(x, "panic: ") || strings.HasPrefix(x, "fatal error: ") || strings.HasPrefix(x, "runtime: ") {
				l = x
				break
			}
		}
		if l == "" {
			l = firstLine(es) + " (" + err.Error() + ")"
		}
		return outcome{fail: true, raw: l}
	}
	if !strings.Contains(es, "VP-OK") {
		return outcome{fail: true, raw: "no verdict: " + firstLine(es)}
	}
	o := outcome{}
	fmt.Sscanf(es[strings.Index(es, "VP-OK"):], "VP-OK %d", &o.points)
	return o
}
