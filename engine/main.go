package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Config struct {
	Property    string              `json:"property"`
	Hooks       []string            `json:"hooks"`
	Yields      []string            `json:"yields"`
	Globals     []string            `json:"globals"`
	Jitter      []string            `json:"jitter"`   // packages delayed at random when a schedule is replayed natively
	Variants    []string            `json:"variants"` // alternative harness directories
	Quick       []map[string]any    `json:"quick"`
	Thorough    []map[string]any    `json:"thorough"`
	Defaults    map[string]any      `json:"defaults"`
	Bounds      string              `json:"bounds"`
	Outside     string              `json:"outside"`
	Stubs       []string            `json:"stubs"`
	Extra       map[string][]string `json:"-"`
	Assumptions []string            `json:"assumptions"`
}

type knownFinding struct {
	prop, key, what string
}

var verif = "/verif"

func loadKnown() []knownFinding {
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.txt"))
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		f := strings.SplitN(l[len("finding: "):], " ", 3)
		if len(f) < 3 {
			continue
		}
		out = append(out, knownFinding{strings.TrimPrefix(f[0], "property="), strings.TrimPrefix(f[1], "key="), f[2]})
	}
	return out
}

func fatal(code int, f string, a ...any) {
	fmt.Printf(f+"\n", a...)
	os.Exit(code)
}

func main() {
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(14 << 30)
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: vengine check PROPERTY | vengine replay FILE")
		os.Exit(2)
	}
	if v := os.Getenv("VERIF_ROOT"); v != "" {
		verif = v
	}
	switch os.Args[1] {
	case "check":
		os.Exit(check(os.Args[2]))
	case "replay":
		os.Exit(replayFile(os.Args[2]))
	}
	fatal(2, "unknown command %s", os.Args[1])
}

func loadConfig(id string) (*Config, string, error) {
	dir := filepath.Join(verif, "harness", strings.ToLower(id))
	b, err := os.ReadFile(filepath.Join(dir, "config.json"))
	if err != nil {
		return nil, "", err
	}
	var c Config
	if err := json.Unmarshal(b, &c); err != nil {
		return nil, "", fmt.Errorf("%s: %v", dir, err)
	}
	if len(c.Variants) == 0 {
		c.Variants = []string{"src"}
	}
	return &c, dir, nil
}

// overlayFor assembles the overlay for one harness variant. It returns the
// harness package path.
func overlayFor(c *Config, dir, variant string) (*Overlay, string, error) {
	ov := &Overlay{files: map[string][]byte{}}
	var hs []hookSpec
	for _, h := range c.Hooks {
		hs = append(hs, parseHook(h))
	}
	if err := ov.rewriteRepo(hs, c.Yields, c.Globals); err != nil {
		return nil, "", err
	}
	for _, p := range []string{"vp", "vrand", "lib"} {
		d := filepath.Join(verif, "harness", "common", p)
		if _, err := os.Stat(d); err == nil {
			if err := ov.addTree(d, filepath.Join(repo, "zzverif", p)); err != nil {
				return nil, "", err
			}
		}
	}
	var cond strings.Builder
	for _, m := range ov.missing {
		fmt.Fprintf(&cond, " && name != %q", m)
	}
	ov.files[filepath.Join(repo, "zzverif/vp/zz_hooked.go")] = []byte("package vp\n\n// Hooked tells whether there is a function to hook.\nfunc Hooked(name string) bool { return name != \"\"" + cond.String() + " }\n")
	vd := filepath.Join(dir, variant)
	pk := "zzverif/" + strings.ToLower(c.Property)
	ents, err := os.ReadDir(vd)
	if err != nil {
		return nil, "", err
	}
	for _, e := range ents {
		if e.IsDir() {
			if e.Name() == "inpkg" {
				if err := ov.addTree(filepath.Join(vd, "inpkg"), repo); err != nil {
					return nil, "", err
				}
			}
			continue
		}
		if strings.HasSuffix(e.Name(), ".go") {
			b, err := os.ReadFile(filepath.Join(vd, e.Name()))
			if err != nil {
				return nil, "", err
			}
			ov.files[filepath.Join(repo, pk, e.Name())] = b
		}
	}
	return ov, modPath + "/" + pk, nil
}

func runnerMain(ov *Overlay, pkg string, names []string) {
	var b strings.Builder
	b.WriteString("package main\n\nimport (\n\t\"os\"\n\n\th " + fmt.Sprintf("%q", pkg) + "\n\t\"" + vpPath + "\"\n)\n\nfunc main() {\n\tvp.Main(os.Args[1], map[string]func(){\n")
	for _, n := range names {
		fmt.Fprintf(&b, "\t\t%q: h.%s,\n", n, n)
	}
	b.WriteString("\t})\n}\n")
	ov.files[filepath.Join(repo, "zzverif/runner/main.go")] = []byte(b.String())
}

func harnesses(c *Config, tier string) ([]*Harness, error) {
	l := c.Quick
	if tier == "thorough" && len(c.Thorough) > 0 {
		l = c.Thorough
	}
	var out []*Harness
	for _, m := range l {
		h := &Harness{Mode: "math", TimeoutMs: 3000, OneShotS: 20, MaxSteps: 6000000, Validate: 4, Replays: 1}
		h.BudgetS = 25
		if tier == "thorough" {
			h.BudgetS = 240
			h.TimeoutMs = 15000
			h.OneShotS = 90
			h.MaxSteps = 60000000
			h.Validate = 12
		}
		for _, src := range []map[string]any{c.Defaults, m} {
			b, _ := json.Marshal(src)
			if err := json.Unmarshal(b, h); err != nil {
				return nil, err
			}
		}
		h.Params = map[string]Value{}
		for k, v := range h.ParamsRaw {
			h.Params[k] = int64(v)
		}
		out = append(out, h)
	}
	return out, nil
}

func check(id string) int {
	t0 := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if len(os.Args) > 3 {
		tier = os.Args[3]
	}
	if tier != "thorough" {
		tier = "quick"
	}
	c, dir, err := loadConfig(id)
	if err != nil {
		fatal(2, "ERROR: %v", err)
	}
	hs, err := harnesses(c, tier)
	if err != nil {
		fatal(2, "ERROR: %v", err)
	}
	if f := os.Getenv("VP_ONLY"); f != "" {
		var k []*Harness
		for _, h := range hs {
			if strings.Contains(h.Name, f) {
				k = append(k, h)
			}
		}
		hs = k
	}
	tmp, err := os.MkdirTemp("", "vengine")
	if err != nil {
		fatal(2, "ERROR: %v", err)
	}
	defer os.RemoveAll(tmp)
	kf := loadKnown()

	var w *World
	var runner *Runner
	var pkg, used string
	var loadErrs []string
	for vi, v := range c.Variants {
		ov, p, err := overlayFor(c, dir, v)
		if err != nil {
			loadErrs = append(loadErrs, err.Error())
			continue
		}
		names := map[string]bool{}
		for _, h := range hs {
			names[h.Name] = true
		}
		runnerMain(ov, p, sortedKeys(names))
		d := filepath.Join(tmp, fmt.Sprintf("v%d", vi))
		os.MkdirAll(filepath.Join(d, "load"), 0755)
		runner = buildRunner(jittered(ov, c), d)
		w, err = loadWorld(ov, filepath.Join(d, "load"), []string{p, "./zzverif/runner", "errors", "io", "io/fs", "os", "fmt", "runtime", "internal/oserror", "strconv"})
		if err != nil {
			runner.wait()
			loadErrs = append(loadErrs, fmt.Sprintf("variant %s: %v", v, err))
			w = nil
			continue
		}
		pkg, used = p, v
		break
	}
	if w == nil {
		fmt.Printf("ERROR property=%s: no harness compiles against the current tree:\n%s\n", id, strings.Join(loadErrs, "\n"))
		return 2
	}
	loadS := time.Since(t0).Seconds()
	workers := runtime.NumCPU()
	if workers > 8 {
		workers = 8
	}
	if workers < 2 {
		workers = 2
	}
	var results []*HarnessResult
	var viol *violation
	for _, h := range hs {
		fn := w.pkgs[pkg].Func(h.Name)
		if fn == nil {
			fmt.Printf("ERROR property=%s: harness %s missing\n", id, h.Name)
			return 2
		}
		wk := workers
		r := explore(w, h, fn, runner, c.Property, kf, wk)
		results = append(results, r)
		st := "complete"
		if !r.complete {
			st = "budget reached"
		}
		fmt.Printf("%s %-28s %s: %d paths (%d completed, %d assumed away, %d infeasible), %d assertions, %d validated natively, %.1fs\n", id, h.Name, st, r.paths, r.completed, r.assumed, r.infeasible, r.asserts, r.validated, r.wall)
		for k, n := range r.unsupported {
			fmt.Printf("  not encoded (%d paths): %s\n", n, k)
		}
		for k, n := range r.inconcl {
			fmt.Printf("  undecided (%d): %s\n", n, k)
		}
		for k, n := range r.unrepro {
			fmt.Printf("  counterexample not reproduced natively (%d): %s\n", n, k)
		}
		for _, m := range r.mismatches {
			fmt.Printf("  encoding mismatch: %s\n", m)
		}
		for _, l := range h.Reach {
			if !r.reached[l] && r.viol == nil {
				fmt.Printf("  vacuity: label %q not reached\n", l)
			}
		}
		if r.viol != nil {
			viol = r.viol
			break
		}
	}
	if err := runner.wait(); err != nil {
		fmt.Printf("ERROR property=%s: %v\n", id, err)
		return 2
	}
	known := map[string]*violation{}
	for _, r := range results {
		for k, v := range r.known {
			known[k] = v
		}
	}
	for _, f := range kf {
		if v := known[f.key]; v != nil && f.prop == c.Property {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.Property, f.what)
		}
	}
	code := 0
	if viol != nil {
		rp := filepath.Join(verif, "evidence", "replays")
		os.MkdirAll(rp, 0755)
		f := filepath.Join(rp, fmt.Sprintf("%s-%d.json", c.Property, time.Now().UnixNano()))
		b, _ := json.MarshalIndent(viol.vec, "", " ")
		os.WriteFile(f, append(b, '\n'), 0644)
		fmt.Printf("counterexample: %s: %s\n  inputs: %v params: %v\n  native replay: %s\n", viol.cls, viol.msg, viol.vec.Vars, viol.vec.Params, viol.native)
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.Property, f)
		code = 1
	}
	writeEvidence(c, tier, used, results, known, viol, time.Since(t0).Seconds(), loadS)
	return code
}

func writeEvidence(c *Config, tier, variant string, rs []*HarnessResult, known map[string]*violation, viol *violation, wall, loadS float64) {
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	funcs := map[string]int64{}
	var paths, decs, asserts, steps int64
	validated := 0
	all := true
	var samples []any
	var hsum []any
	nviol := 0
	if viol != nil {
		nviol = 1
	}
	for _, r := range rs {
		paths += int64(r.paths)
		decs += r.decisions
		asserts += r.asserts
		steps += r.steps
		validated += r.validated
		for f, n := range r.funcs {
			funcs[f] += n
		}
		samples = append(samples, r.samples...)
		var vac []string
		for _, l := range r.h.Reach {
			if !r.reached[l] {
				vac = append(vac, l)
			}
		}
		full := r.complete && len(r.unsupported) == 0 && len(r.inconcl) == 0 && len(r.unrepro) == 0
		if !full {
			all = false
		}
		hsum = append(hsum, map[string]any{
			"harness": r.h.Name, "what": r.h.What, "mode": r.h.Mode, "params": r.h.ParamsRaw, "paths": r.paths, "completed": r.completed,
			"excluded_by_assumption": r.assumed, "infeasible": r.infeasible, "assertions": r.asserts, "instructions": r.steps,
			"all_paths_within_bounds_explored": r.complete, "decided_completely": full, "not_encoded": r.unsupported, "undecided": r.inconcl,
			"counterexamples_not_reproduced": r.unrepro, "encoding_mismatches": r.mismatches, "reach_labels_missing": vac,
			"natively_validated_paths": r.validated, "wall_s": r.wall, "map_order": r.h.MapOrder, "schedules": r.schedules, "preemption_bound": r.h.Preempt,
		})
	}
	if len(samples) == 0 {
		for _, r := range rs {
			samples = append(samples, map[string]any{"harness": r.h.Name, "paths": r.paths})
		}
	}
	if viol != nil {
		samples = append([]any{map[string]any{"violation": viol.msg, "inputs": viol.vec.Vars, "native": viol.native}}, samples...)
	}
	kn := []string{}
	for _, k := range sortedKeys(known) {
		kn = append(kn, k+": "+known[k].msg)
	}
	cov := map[string]any{
		"states":                           paths,
		"transitions":                      decs,
		"traces_validated_against_impl":    validated,
		"samples":                          samples,
		"exhaustive":                       false,
		"decided_completely_within_bounds": all,
		"harnesses":                        hsum,
		"functions_encoded":                sortedKeys(funcs),
		"bounds":                           c.Bounds,
		"outside_bounds":                   c.Outside,
		"stubs":                            c.Stubs,
		"queries":                          statQueries.Load(),
		"queries_sat":                      statSat.Load(),
		"queries_unsat":                    statUnsat.Load(),
		"queries_unknown":                  statUnknown.Load(),
		"queries_oneshot_portfolio":        statOneShot.Load(),
		"solver_time_s":                    float64(statSolverNs.Load()) / 1e9,
		"assertions_evaluated":             asserts,
		"instructions_executed":            steps,
		"harness_variant":                  variant,
		"load_and_ssa_s":                   loadS,
		"known_findings_seen":              kn,
		"explanation":                      "states = symbolic paths executed to their end over the SSA of the current tree; transitions = decisions (solver-decided branches, value splits, scheduling and map-order choices) taken on them.",
	}
	ev := map[string]any{
		"property": c.Property, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
		"assumptions": append([]string{}, c.Assumptions...), "wall_s": wall, "violations": nviol,
	}
	d := filepath.Join(verif, "evidence")
	os.MkdirAll(d, 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(d, c.Property+".json"), append(b, '\n'), 0644)
}

func replayFile(f string) int {
	b, err := os.ReadFile(f)
	if err != nil {
		fatal(2, "%v", err)
	}
	var v Vector
	if err := json.Unmarshal(b, &v); err != nil {
		fatal(2, "%v", err)
	}
	c, dir, err := loadConfig(v.Prop)
	if err != nil {
		fatal(2, "%v", err)
	}
	tmp, _ := os.MkdirTemp("", "vreplay")
	defer os.RemoveAll(tmp)
	for _, va := range c.Variants {
		ov, p, err := overlayFor(c, dir, va)
		if err != nil {
			continue
		}
		runnerMain(ov, p, []string{v.Harness})
		d := filepath.Join(tmp, va)
		os.MkdirAll(d, 0755)
		r := buildRunner(jittered(ov, c), d)
		if err := r.wait(); err != nil {
			fmt.Println(err)
			continue
		}
		h := &Harness{Replays: 50}
		if len(c.Jitter) > 0 || len(c.Yields) > 0 {
			h.Sched = "explore"
		}
		o := r.run(&v, h)
		fmt.Printf("%s %s: %s\n", v.Prop, v.Harness, o)
		if o.fail {
			return 1
		}
		return 0
	}
	return 2
}

var _ = exec.Command
var _ *ssa.Function
