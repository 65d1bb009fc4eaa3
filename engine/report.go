package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Task is one exploration of a check.
type Task struct {
	Config
	Dir    string   `json:"dir,omitempty"`
	Pkg    string   `json:"pkg,omitempty"`
	Covers []string `json:"covers,omitempty"` // situations that must be reached
	Bounds string   `json:"bounds,omitempty"`
	Solver string   `json:"solver,omitempty"`
}

// Check describes how a property is decided.
type Check struct {
	Quick    []Task   `json:"quick"`
	Thorough []Task   `json:"thorough"`
	Outside  string   `json:"outside,omitempty"`
	Stubs    []string `json:"stubs,omitempty"`
}

var verifDir = func() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}()

func goEnv() []string {
	return append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local")
}

// known is one entry of known-findings.txt.
type known struct {
	prop, harness, kind, msg, text string
}

func loadKnown() []known {
	b, err := os.ReadFile(filepath.Join(verifDir, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var ks []known
	for _, l := range strings.Split(string(b), "\n") {
		// known: property=C01 harness=H kind=assert msg="..." what fails
		rest, ok := strings.CutPrefix(l, "known: ")
		if !ok {
			continue
		}
		var k known
		for {
			rest = strings.TrimLeft(rest, " ")
			key, r, ok := strings.Cut(rest, "=")
			if !ok || strings.Contains(key, " ") {
				break
			}
			var val string
			if strings.HasPrefix(r, `"`) {
				val, rest, _ = strings.Cut(r[1:], `"`)
			} else {
				val, rest, _ = strings.Cut(r, " ")
			}
			switch key {
			case "property":
				k.prop = val
			case "harness":
				k.harness = val
			case "kind":
				k.kind = val
			case "msg":
				k.msg = val
			}
		}
		k.text = rest
		if k.prop != "" && k.harness != "" && k.msg != "" {
			ks = append(ks, k)
		}
	}
	return ks
}

type taskReport struct {
	Harness    string           `json:"harness"`
	Params     map[string]int   `json:"params,omitempty"`
	Bounds     string           `json:"bounds"`
	Mode       string           `json:"mode"`
	Paths      int64            `json:"paths_completed"`
	Assumed    int64            `json:"paths_cut_by_assumption"`
	Pruned     int64            `json:"paths_redundant"`
	Asserts    int64            `json:"assertions_decided"`
	Decisions  int64            `json:"decision_points"`
	Instr      int64            `json:"instructions"`
	Sched      int64            `json:"scheduler_steps"`
	MaxSched   int              `json:"longest_schedule"`
	SymVars    int              `json:"max_symbolic_variables"`
	Queries    int              `json:"solver_queries"`
	Sat        int              `json:"sat"`
	Unsat      int              `json:"unsat"`
	Unknown    int              `json:"unknown"`
	Guessed    int              `json:"sat_by_checked_model_repair"`
	SolverS    float64          `json:"solver_s"`
	WallS      float64          `json:"wall_s"`
	Exhaustive bool             `json:"bound_exhausted"`
	Truncated  string           `json:"truncated,omitempty"`
	Incomplete map[string]int64 `json:"not_explored,omitempty"`
	Covers     map[string]int64 `json:"reached"`
	Missing    []string         `json:"not_reached,omitempty"`
	Replayed   int              `json:"paths_replayed_natively"`
	Mismatch   []string         `json:"native_mismatches,omitempty"`
	Error      string           `json:"engine_error,omitempty"`
}

func checkMain(args []string) int {
	if len(args) != 2 {
		fmt.Fprintln(os.Stderr, "usage: gosymx check quick|thorough ID")
		return 2
	}
	tier, id := args[0], args[1]
	start := time.Now()
	b, err := os.ReadFile(filepath.Join(verifDir, "checks.json"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var checks map[string]*Check
	if err := json.Unmarshal(b, &checks); err != nil {
		fmt.Fprintln(os.Stderr, "checks.json:", err)
		return 2
	}
	ck := checks[id]
	if ck == nil {
		fmt.Fprintln(os.Stderr, "no check", id)
		return 2
	}
	tasks := ck.Quick
	if tier == "thorough" {
		tasks = ck.Thorough
		if len(tasks) == 0 {
			tasks = ck.Quick
		}
	}
	budget := 240.0
	if tier == "thorough" {
		budget = 780
	}
	knowns := loadKnown()
	nativeCache := map[string]*native{}
	progs := map[string]*Program{}
	defer func() {
		for _, n := range nativeCache {
			n.close()
		}
	}()
	repDir := filepath.Join(verifDir, "evidence", "replay")
	os.MkdirAll(repDir, 0o755)
	old, _ := filepath.Glob(filepath.Join(repDir, id+"-*.json"))
	for _, f := range old {
		os.Remove(f)
	}

	var reports []*taskReport
	funcs := map[string]bool{}
	var samples []any
	violations := 0
	unconfirmed := 0
	traces := 0
	loadFailed := ""
	for i := range tasks {
		t := &tasks[i]
		if t.Dir == "" {
			t.Dir = "harness"
		}
		if t.Pkg == "" {
			t.Pkg = "./h"
		}
		dir := filepath.Join(verifDir, t.Dir)
		key := dir + "|" + t.Pkg
		// natively compiled harness, built while the exploration runs
		nat := nativeCache[key]
		p := progs[key]
		if p == nil {
			if c, ok := strings.CutPrefix(t.Dir, "build/cmd/"); ok {
				if err := genCmd(c); err != nil {
					fmt.Fprintln(os.Stderr, "gen:", err)
					return 2
				}
			}
			p, err = loadProgram(dir, t.Pkg)
			if err != nil {
				loadFailed = err.Error()
				fmt.Fprintln(os.Stderr, "load:", err)
				return 2
			}
			progs[key] = p
			nat = newNative(dir, t.Pkg, p)
			nativeCache[key] = nat
			go nat.build()
		}
		cfg := t.Config
		if cfg.Seconds == 0 {
			cfg.Seconds = 60
			if tier == "thorough" {
				cfg.Seconds = 300
			}
		}
		if left := budget - time.Since(start).Seconds(); cfg.Seconds > left {
			cfg.Seconds = left
			if left < 3 {
				cfg.Seconds = 3
			}
		}
		solver := t.Solver
		if solver == "" {
			solver = "z3-new"
		}
		r := explore(p, &cfg, runtime.NumCPU(), solver, 10000)
		fmt.Println(r.summary())
		tr := &taskReport{Harness: cfg.Harness, Params: cfg.Params, Bounds: t.Bounds, Mode: modeText(&cfg), Paths: r.Paths, Assumed: r.Assumed, Pruned: r.Pruned,
			Asserts: r.Asserts, Decisions: r.Decisions, Instr: r.Instr, Sched: r.Transitions, MaxSched: r.MaxSched, SymVars: r.SymVars, Queries: r.Queries,
			Sat: r.Sat, Unsat: r.Unsat, Unknown: r.Unknown, Guessed: r.Guessed, SolverS: round(r.SolverTime.Seconds()), WallS: round(r.Wall.Seconds()),
			Truncated: r.Truncated, Incomplete: r.Incomplete, Covers: r.Covers, Error: r.EngineErr}
		reports = append(reports, tr)
		tr.Exhaustive = r.Truncated == "" && len(r.Incomplete) == 0 && r.EngineErr == "" && len(r.Violations) == 0
		for f := range r.Funcs {
			funcs[f] = true
		}
		if tr.Exhaustive {
			for _, c := range t.Covers {
				if r.Covers[c] == 0 {
					tr.Missing = append(tr.Missing, c)
					fmt.Printf("WARNING: %s never reached %q: the check may be vacuous\n", cfg.Harness, c)
				}
			}
		}
		// replay
		for _, s := range r.Samples {
			if len(samples) < 12 {
				samples = append(samples, map[string]any{"harness": cfg.Harness, "inputs": renderInputs(s.Inputs), "observed": s.Obs, "schedule_steps": s.Steps})
			}
		}
		for _, s := range r.Samples {
			c := caseFile{Harness: cfg.Harness, Params: cfg.Params, Inputs: s.Inputs}
			out := nat.run(c, 20*time.Second)
			if out.err != "" {
				tr.Mismatch = append(tr.Mismatch, "native run: "+out.err)
				break
			}
			if out.result == "ok" && (s.Conc || sameObs(s.Obs, out.obs)) {
				tr.Replayed++
				traces++
				continue
			}
			if out.result == "ok" {
				tr.Mismatch = append(tr.Mismatch, fmt.Sprintf("executor observed %v, native %v, for %s", s.Obs, out.obs, renderInputs(s.Inputs)))
				fmt.Printf("WARNING: native run of %s differs from the executor: %v vs %v\n", cfg.Harness, s.Obs, out.obs)
				continue
			}
			if s.Conc || strings.HasPrefix(out.result, "diverged") {
				// another schedule was taken; a failure on it is a failure of the real code, if it repeats
				if strings.HasPrefix(out.result, "diverged") {
					continue
				}
			}
			again := nat.run(c, 20*time.Second)
			if again.result != out.result || strings.HasPrefix(out.result, "hang") || strings.HasPrefix(out.result, "exit") {
				tr.Mismatch = append(tr.Mismatch, fmt.Sprintf("native run gave %s then %s, executor ok, for %s", out.result, again.result, renderInputs(s.Inputs)))
				continue
			}
			v := &Violation{Kind: "native", Msg: out.result, Harness: cfg.Harness, Params: cfg.Params, Inputs: s.Inputs, Cfg: &cfg, Native: out.result, Conc: s.Conc,
				Notes: []string{"found when replaying a sampled path against the real code; the executor's schedule did not fail"}}
			r.Violations = append(r.Violations, v)
		}
		// violations
		for _, v := range r.Violations {
			confirmed := v.Native != ""
			if !confirmed {
				confirmed = nat.confirm(v)
			}
			if !confirmed && (!v.Conc || v.Kind == "panic" && p.inStd(v.Where)) {
				unconfirmed++
				tr.Mismatch = append(tr.Mismatch, fmt.Sprintf("unconfirmed counterexample: %s %s (native: %s)", v.Kind, v.Msg, v.Native))
				fmt.Printf("UNCONFIRMED %s %s: %s at %s inputs %s; native run: %s\n", cfg.Harness, v.Kind, v.Msg, v.Where, renderInputs(v.Inputs), v.Native)
				continue
			}
			isKnown := false
			for _, k := range knowns {
				if k.prop == id && k.harness == v.Harness && (k.kind == "" || k.kind == v.Kind) && strings.Contains(v.Msg, k.msg) {
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.text)
					isKnown = true
					break
				}
			}
			if isKnown {
				continue
			}
			violations++
			f := filepath.Join(repDir, fmt.Sprintf("%s-%d.json", id, violations))
			jb, _ := json.MarshalIndent(struct {
				Property string `json:"property"`
				Dir      string `json:"dir"`
				Pkg      string `json:"pkg"`
				*Violation
			}{id, t.Dir, t.Pkg, v}, "", " ")
			os.WriteFile(f, jb, 0o644)
			fmt.Printf("%s: %s\n  at %s\n  inputs: %s\n  native replay: %s\n", v.Kind, v.Msg, v.Where, renderInputs(v.Inputs), v.Native)
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, f)
		}
		if violations > 0 {
			break
		}
	}
	_ = loadFailed
	writeEvidence(id, tier, ck, reports, funcs, samples, traces, violations, unconfirmed, time.Since(start))
	if violations > 0 {
		return 1
	}
	return 0
}

func round(f float64) float64 { return float64(int(f*100)) / 100 }

func modeText(c *Config) string {
	m := "all interleavings (dynamic partial-order reduction), all feasible branches"
	if c.Mode == "delay" {
		m = fmt.Sprintf("interleavings with at most %d deviations from the deterministic schedule, all feasible branches", c.Delays)
	}
	if c.MapOrder != "" {
		m += "; map iteration order: " + c.MapOrder
	}
	return m
}

func sameObs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] && !strings.HasSuffix(a[i], "=?") {
			return false
		}
	}
	return true
}

func writeEvidence(id, tier string, ck *Check, reports []*taskReport, funcs map[string]bool, samples []any, traces, violations, unconfirmed int, wall time.Duration) {
	var repo, other []string
	for f := range funcs {
		if strings.Contains(f, "c-kruse/vanflow") || strings.Contains(f, "verif/cmd/") && !strings.Contains(f, "/fake/") {
			repo = append(repo, f)
		} else if !strings.Contains(f, "verif/harness") {
			other = append(other, f)
		}
	}
	sort.Strings(repo)
	sort.Strings(other)
	var states, trans, asserts int64
	var q, sat, unsat, unk int
	var ss float64
	exhaustive := true
	for _, r := range reports {
		states += r.Decisions + r.Paths + r.Assumed + r.Pruned
		trans += r.Instr
		asserts += r.Asserts
		q += r.Queries
		sat += r.Sat
		unsat += r.Unsat
		unk += r.Unknown
		ss += r.SolverS
		exhaustive = exhaustive && r.Exhaustive
	}
	if len(samples) == 0 {
		samples = append(samples, "no path completed in this run")
	}
	cov := map[string]any{
		"states":                        states,
		"transitions":                   trans,
		"states_meaning":                "distinct points of the explored tree where inputs, branches, faults, values or schedules are decided, plus its leaves",
		"transitions_meaning":           "SSA instructions of the real code and harness executed symbolically",
		"traces_validated_against_impl": traces,
		"samples":                       samples,
		"functions_encoded":             repo,
		"library_functions_encoded":     len(other),
		"assertions_decided":            asserts,
		"solver_queries":                q, "solver_sat": sat, "solver_unsat": unsat, "solver_unknown": unk, "solver_s": round(ss),
		"bound_exhausted":             exhaustive,
		"tasks":                       reports,
		"outside_the_bound":           ck.Outside,
		"unconfirmed_counterexamples": unconfirmed,
	}
	assumptions := append([]string{
		"Go semantics as implemented by the executor in /verif/engine (validated on sampled paths by native replay)",
		"goroutines interleave at synchronisation operations; data races are detected, not executed with weak-memory effects",
		"time advances only when no goroutine can run; log output is discarded; random bytes are fixed",
	}, ck.Stubs...)
	ev := map[string]any{"property": id, "tier": tier, "seed": seed(), "level": "model_checking", "coverage": cov, "assumptions": assumptions,
		"wall_s": round(wall.Seconds()), "violations": violations}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verifDir, "evidence", id+".json"), b, 0o644)
}

func seed() int {
	n := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &n)
	return n
}

type caseFile struct {
	Harness string         `json:"harness"`
	Params  map[string]int `json:"params"`
	Inputs  []NDVal        `json:"inputs"`
}

// native is the natively compiled harness package.
type native struct {
	dir, pkg string
	names    []string
	tmp      string
	done     chan struct{}
	err      string
	race     string
	raceErr  string
	pkgName  string
	pkgDir   string
}

func newNative(dir, pkg string, p *Program) *native {
	n := &native{dir: dir, pkg: pkg, done: make(chan struct{})}
	for _, r := range p.roots {
		for name, m := range r.Members {
			f, ok := m.(*ssa.Function)
			if ok && f.Signature.Params().Len() == 0 && f.Signature.Results().Len() == 0 && f.Object() != nil && f.Object().Exported() && f.TypeParams() == nil {
				n.names = append(n.names, name)
				n.pkgDir = filepath.Dir(p.fset.PositionFor(f.Pos(), false).Filename)
			}
		}
		n.pkgName = r.Pkg.Name()
	}
	sort.Strings(n.names)
	return n
}

func (n *native) prepare() (overlay string, err error) {
	n.tmp, err = os.MkdirTemp("", "vpnative")
	if err != nil {
		return "", err
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "package %s\n\nimport (\n\t\"os\"\n\t\"testing\"\n\t\"verif/harness/nd\"\n)\n\nfunc TestVP(t *testing.T) {\n\tnd.Replay(t, os.Getenv(\"VP_CASE\"), map[string]func(){\n", n.pkgName)
	for _, f := range n.names {
		fmt.Fprintf(&sb, "\t\t%q: %s,\n", f, f)
	}
	sb.WriteString("\t})\n}\n")
	src := filepath.Join(n.tmp, "vp_test.go")
	if err := os.WriteFile(src, []byte(sb.String()), 0o644); err != nil {
		return "", err
	}
	b, _ := json.Marshal(map[string]any{"Replace": map[string]string{filepath.Join(n.pkgDir, "vp_test.go"): src}})
	overlay = filepath.Join(n.tmp, "overlay.json")
	return overlay, os.WriteFile(overlay, b, 0o644)
}

func (n *native) compile(out string, extra ...string) string {
	args := append([]string{"test", "-c", "-overlay", filepath.Join(n.tmp, "overlay.json"), "-o", out, "-vet=off"}, extra...)
	args = append(args, n.pkg)
	c := exec.Command("go", args...)
	c.Dir = n.dir
	c.Env = goEnv()
	b, err := c.CombinedOutput()
	if err != nil {
		return fmt.Sprintf("%v: %s", err, b)
	}
	return ""
}

func (n *native) build() {
	defer close(n.done)
	if _, err := n.prepare(); err != nil {
		n.err = err.Error()
		return
	}
	n.err = n.compile(filepath.Join(n.tmp, "h.test"))
}

func (n *native) buildRace() string {
	<-n.done
	if n.err != "" {
		return n.err
	}
	if n.race == "" && n.raceErr == "" {
		out := filepath.Join(n.tmp, "hrace.test")
		n.raceErr = n.compile(out, "-race")
		n.race = out
	}
	return n.raceErr
}

func (n *native) close() {
	<-n.done
	if n.tmp != "" {
		os.RemoveAll(n.tmp)
	}
}

type nativeOut struct {
	result string
	obs    []string
	err    string
	text   string
}

func (n *native) run(c caseFile, limit time.Duration) nativeOut {
	<-n.done
	if n.err != "" {
		return nativeOut{err: n.err}
	}
	return n.runBin(filepath.Join(n.tmp, "h.test"), c, limit, 1)
}

func (n *native) runBin(bin string, c caseFile, limit time.Duration, repeat int) nativeOut {
	f := filepath.Join(n.tmp, "case.json")
	b, _ := json.Marshal(c)
	os.WriteFile(f, b, 0o644)
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, "-test.run=^TestVP$", "-test.timeout=0")
	cmd.Dir = n.tmp
	cmd.Env = append(os.Environ(), "VP_CASE="+f, fmt.Sprintf("VP_REPEAT=%d", repeat))
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	var buf bytes.Buffer
	cmd.Stdout = &buf
	cmd.Stderr = &buf
	err := cmd.Run()
	o := nativeOut{text: buf.String()}
	for _, l := range strings.Split(buf.String(), "\n") {
		if s, ok := strings.CutPrefix(l, "VP-RESULT "); ok {
			o.result = s
		}
		if s, ok := strings.CutPrefix(l, "VP-OBS "); ok {
			var x string
			json.Unmarshal([]byte(s), &x)
			o.obs = append(o.obs, x)
		}
	}
	if strings.Contains(o.text, "WARNING: DATA RACE") {
		o.result = "race"
	}
	if o.result == "" {
		switch {
		case ctx.Err() != nil:
			o.result = "hang"
		case strings.Contains(o.text, "deadlock: "):
			o.result = "deadlock"
		case strings.Contains(o.text, "stack overflow") || strings.Contains(o.text, "stack exceeds"):
			o.result = "panic:stack overflow"
		case strings.Contains(o.text, "fatal error: "):
			_, m, _ := strings.Cut(o.text, "fatal error: ")
			m, _, _ = strings.Cut(m, "\n")
			o.result = "panic:" + m
		case strings.Contains(o.text, "panic: "):
			_, m, _ := strings.Cut(o.text, "panic: ")
			m, _, _ = strings.Cut(m, "\n")
			o.result = "panic:" + m
		default:
			o.result = fmt.Sprintf("exit:%v", err)
		}
	}
	return o
}

// confirm replays a counterexample against the real code and records the outcome.
func (n *native) confirm(v *Violation) bool {
	c := caseFile{Harness: v.Harness, Params: v.Params, Inputs: v.Inputs}
	bad := func(o nativeOut) bool {
		switch v.Kind {
		case "deadlock", "livelock":
			return o.result == "hang" || o.result == "deadlock" || strings.HasPrefix(o.result, "assert") || strings.HasPrefix(o.result, "panic")
		case "data-race":
			return o.result == "race"
		}
		return strings.HasPrefix(o.result, "assert") || strings.HasPrefix(o.result, "panic") || o.result == "hang" || o.result == "deadlock"
	}
	if v.Kind == "data-race" {
		if e := n.buildRace(); e != "" {
			v.Native = "schedule-dependent; no race-detector build: " + e
			return false
		}
		o := n.runBin(n.race, c, 30*time.Second, 50)
		v.Native = o.result
		if bad(o) {
			v.Native = "data race reported by Go's race detector on the real code"
			return true
		}
		v.Native = "schedule-dependent; native race-detector runs took other schedules (" + o.result + ")"
		return false
	}
	tries := 1
	if v.Conc {
		tries = 1
	}
	var o nativeOut
	for i := 0; i < tries+2; i++ {
		o = n.run(c, 20*time.Second)
		if o.err != "" {
			v.Native = "native build failed: " + o.err
			return false
		}
		if bad(o) {
			v.Native = "reproduced: " + o.result
			return true
		}
	}
	// schedule or map order dependent: many runs in one process
	o = n.runBin(filepath.Join(n.tmp, "h.test"), c, 20*time.Second, 400)
	if bad(o) {
		v.Native = "reproduced in repeated runs: " + o.result
		return true
	}
	v.Native = o.result
	if v.Conc {
		v.Native = "depends on the schedule recorded in the trace; native runs took others (" + o.result + ")"
	}
	return false
}

func replayMain(args []string) int {
	if len(args) != 1 {
		fmt.Fprintln(os.Stderr, "usage: gosymx replay FILE")
		return 2
	}
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var f struct {
		Property string `json:"property"`
		Dir      string `json:"dir"`
		Pkg      string `json:"pkg"`
		*Violation
	}
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	dir := filepath.Join(verifDir, f.Dir)
	p, err := loadProgram(dir, f.Pkg)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	n := newNative(dir, f.Pkg, p)
	n.build()
	defer n.close()
	fmt.Printf("%s: %s (%s)\ninputs: %s\n", f.Kind, f.Msg, f.Where, renderInputs(f.Inputs))
	for _, s := range f.Trace {
		fmt.Println("  |", s)
	}
	ok := n.confirm(f.Violation)
	fmt.Println("native:", f.Native)
	if ok {
		return 1
	}
	return 0
}
