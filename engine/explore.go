package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Config describes one exploration of one harness.
type Config struct {
	Harness   string         `json:"harness"`
	MapOrder  string         `json:"map_order,omitempty"`
	PermMax   int            `json:"perm_max,omitempty"`
	Mode      string         `json:"mode,omitempty"` // "" (DPOR) | "delay"
	Delays    int            `json:"delays,omitempty"`
	Params    map[string]int `json:"params,omitempty"`
	Steps     int            `json:"steps,omitempty"` // SSA instruction limit per path
	Paths     int            `json:"paths,omitempty"` // path limit
	Seconds   float64        `json:"seconds,omitempty"`
	Advances  int            `json:"advances,omitempty"` // clock advances per path
	NoRace    bool           `json:"no_race,omitempty"`
	Livelock  bool           `json:"livelock,omitempty"` // exceeding Steps is a violation
	Fair      int            `json:"fair,omitempty"`     // a select's case is ready and not chosen at most so many times in a row
	LeakOK    bool           `json:"leak_ok,omitempty"`
	AsyncTime bool           `json:"async_timers,omitempty"` // timer channels of Go before 1.23
	Samples   int            `json:"samples,omitempty"`
}

func (c *Config) permMax() int {
	if c.PermMax > 0 {
		return c.PermMax
	}
	return 4
}

type undo struct {
	p   *Value
	old Value
}

const (
	nBranch uint8 = iota
	nConc
	nChoice
	nSched
)

type alt struct {
	val  int
	vals map[string]uint64
}

type node struct {
	kind   uint8
	val    int
	data   uint64
	alts   []alt
	vals   map[string]uint64 // model when the node was created (choice, sched)
	sched  *schedNode
	frozen bool
}

type ndRec struct {
	kind  string
	label string
	terms []*Term
	val   int64 // for choices
}

type obsRec struct {
	label string
	v     Value
}

// Violation is a counterexample.
type Violation struct {
	Kind    string         `json:"kind"`
	Msg     string         `json:"msg"`
	Where   string         `json:"where"`
	Stack   []string       `json:"stack,omitempty"`
	Inputs  []NDVal        `json:"inputs"`
	Trace   []string       `json:"trace,omitempty"`
	Dec     []int          `json:"decisions,omitempty"`
	Notes   []string       `json:"notes,omitempty"`
	Harness string         `json:"harness"`
	Params  map[string]int `json:"params,omitempty"`
	Known   string         `json:"-"`
	Native  string         `json:"native,omitempty"` // outcome of the native replay
	Conc    bool           `json:"concurrent"`
	Cfg     *Config        `json:"config,omitempty"`
}

func (v *Violation) sig() string { return v.Kind + "|" + v.Msg + "|" + v.Where }

// NDVal is one nondeterministic value, for native replay.
type NDVal struct {
	Kind  string `json:"k"`
	Label string `json:"l"`
	I     uint64 `json:"i"`
	S     []byte `json:"s,omitempty"`
}

// Sample is a completed path that can be replayed natively.
type Sample struct {
	Inputs []NDVal  `json:"inputs"`
	Obs    []string `json:"obs"`
	Conc   bool     `json:"conc"`
	Steps  int      `json:"sched_steps"`
	Trace  []string `json:"trace,omitempty"`
}

// Result of exploring one harness configuration.
type Result struct {
	Cfg         *Config
	Paths       int64 // completed paths (reached the end)
	Assumed     int64 // ended at an unsatisfiable assumption
	Pruned      int64 // ended by sleep sets
	Incomplete  map[string]int64
	Asserts     int64 // assertion instances reached
	Queries     int
	Sat, Unsat  int
	Guessed     int
	Unknown     int
	SolverTime  time.Duration
	Wall        time.Duration
	Decisions   int64
	Transitions int64
	Instr       int64
	Covers      map[string]int64
	Funcs       map[string]bool
	Violations  []*Violation
	Samples     []*Sample
	Truncated   string
	MaxSched    int
	SymVars     int
	EngineErr   string
}

type job struct {
	nodes []*node
	vals  map[string]uint64
}

// Explorer coordinates workers.
type Explorer struct {
	prog    *Program
	cfg     *Config
	fn      *ssa.Function
	mu      sync.Mutex
	cond    *sync.Cond
	queue   []job
	active  int
	hungry  atomic.Int32
	stop    atomic.Bool
	res     *Result
	sigs    map[string]bool
	started time.Time
	paths   atomic.Int64
	solver  string
	tmo     int
	noSolve bool
}

type Worker struct {
	prog      *Program
	tt        *Terms
	sol       *Deciders
	x         *Explorer
	cfg       *Config
	globals   []*Value
	stdDone   map[*ssa.Package]bool
	coverFn   map[*cfunc]bool
	implCache map[[2]any]bool
	methCache map[methKey]*cfunc
	stack     []*node
	res       Result
	epochs    uint64
	rtypes    map[any]*Value
	intrState map[string]any
	lastQ     int
	sinceGC   int
}

func newWorker(x *Explorer) *Worker {
	w := &Worker{prog: x.prog, x: x, cfg: x.cfg}
	w.reset()
	return w
}

func (w *Worker) reset() {
	if w.sol != nil {
		w.foldSolver()
		w.sol.Close()
	}
	w.tt = NewTerms()
	w.sol = NewDeciders(w.tt, w.x.solver, w.x.tmo)
	w.globals = nil
	w.stdDone = map[*ssa.Package]bool{}
	if w.coverFn == nil {
		w.coverFn = map[*cfunc]bool{}
		w.res.Covers = map[string]int64{}
		w.res.Incomplete = map[string]int64{}
	}
	w.implCache = map[[2]any]bool{}
	w.methCache = map[methKey]*cfunc{}
	w.rtypes = map[any]*Value{}
	w.intrState = map[string]any{}
	w.initPackages()
}

func (w *Worker) foldSolver() {
	for _, s := range []*Solver{w.sol.bv, w.sol.lia} {
		w.res.Queries += s.Queries
		w.res.Sat += s.Sat
		w.res.Unsat += s.Unsat
		w.res.Unknown += s.Unknown
		w.res.SolverTime += s.Time
		s.Queries, s.Sat, s.Unsat, s.Unknown, s.Time = 0, 0, 0, 0, 0
	}
}

func (w *Worker) initPackages() {
	ex := w.newExec()
	ex.epoch = 0
	ex.stepLimit = 1 << 40
	ex.inInit = 1
	g := ex.newG("init")
	root := &frame{ex: ex, g: g}
	for _, p := range w.prog.eager {
		if f := p.Func("init"); f != nil {
			c := w.prog.cfn(f)
			w.prog.compile(c)
			if c.intr == nil {
				ex.run(root, c, nil, nil)
			}
		}
	}
}

// global returns the cell of a package-level variable.
func (w *Worker) global(ex *Exec, id int32) *Value {
	w.prog.gmu.Lock()
	g := w.prog.globals[id]
	n := len(w.prog.globals)
	w.prog.gmu.Unlock()
	for len(w.globals) < n {
		w.globals = append(w.globals, nil)
	}
	if p := w.globals[id]; p != nil {
		return p
	}
	mk := func() *Value {
		p := new(Value)
		*p = zero(canon(deref(g.Type())))
		if h := globalOverride(w, g); h != nil {
			*p = h
		}
		return p
	}
	if w.prog.std[g.Pkg] && !w.stdDone[g.Pkg] && g.Name() != "init$guard" {
		w.stdDone[g.Pkg] = true
		w.globals[id] = mk()
		if !skipStdInit[g.Pkg.Pkg.Path()] {
			w.initStd(ex, g.Pkg)
		}
		return w.globals[id]
	}
	w.globals[id] = mk()
	return w.globals[id]
}

func (w *Worker) initStd(ex *Exec, p *ssa.Package) {
	f := p.Func("init")
	if f == nil {
		return
	}
	c := w.prog.cfn(f)
	w.prog.compile(c)
	if c.intr != nil {
		return
	}
	oe, or := ex.epoch, ex.raceOn
	os := ex.steps
	ex.epoch, ex.raceOn = 0, false
	ex.inInit++
	g := &G{id: -1, ex: ex}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(unsupported); ok {
					// the rest of this package's initialisation is not modelled
					if os2 := debugFlag; os2 {
						fmt.Fprintf(debugOut, "init of %s: %v\n", p.Pkg.Path(), r)
					}
					return
				}
				panic(r)
			}
		}()
		ex.run(&frame{ex: ex, g: g}, c, nil, nil)
	}()
	ex.inInit--
	ex.epoch, ex.raceOn = oe, or
	ex.steps = os
}

// nestedInit: initialisers of imported packages run on their own.
func (w *Worker) nestedInit(ex *Exec, caller *frame, fn *cfunc, args []Value) Value { return nil }

// Exec is one execution of the harness along one path.
type Exec struct {
	w         *Worker
	cfg       *Config
	steps     int
	stepLimit int
	epoch     uint64
	journal   []undo
	mapSnap   map[*Map]*Map
	raceOn    bool
	mapDir    int
	inInit    int

	pc    []*Term
	pcSet map[*Term]bool
	vars  []*Term
	model *Model
	pos   int

	nds     []ndRec
	obs     []obsRec
	notes   []string
	nvar    int
	asserts int64

	conc
	intr map[string]any
}

func (w *Worker) newExec() *Exec {
	ex := &Exec{w: w, cfg: w.cfg, stepLimit: 20_000_000, pcSet: map[*Term]bool{}, intr: map[string]any{}}
	if w.cfg.Steps > 0 {
		ex.stepLimit = w.cfg.Steps
	}
	ex.initConc()
	return ex
}

func (ex *Exec) replaying() bool { return ex.pos < len(ex.w.stack) }

func (ex *Exec) overSteps(fr *frame) {
	if ex.inInit > 0 {
		return
	}
	if ex.cfg.Livelock {
		ex.violation(fr, "livelock", fmt.Sprintf("no progress after %d instructions", ex.stepLimit))
	}
	if debugFlag {
		fmt.Fprintln(debugOut, "step limit at", fr.stack())
	}
	panic(pathEnd{"incomplete: step limit"})
}

// addPC adds an (already satisfied by the model) constraint.
func (ex *Exec) addPC(c *Term) {
	if c.isConst() || ex.pcSet[c] {
		return
	}
	ex.pcSet[c] = true
	ex.pc = append(ex.pc, c)
	ex.learn(c)
}

// learn extracts unsigned bounds.
func (ex *Exec) learn(c *Term) {
	tt := ex.w.tt
	upd := func(t *Term, lo, hi uint64) {
		if t.isConst() {
			return
		}
		l, h := tt.rng(t)
		if lo > l {
			l = lo
		}
		if hi < h {
			h = hi
		}
		tt.pathRange[t] = [2]uint64{l, h}
	}
	m := func(t *Term) uint64 { return mask(t.w) }
	switch c.op {
	case OAnd:
		ex.learn(c.a)
		ex.learn(c.b)
	case OUle:
		if c.b.isConst() {
			upd(c.a, 0, c.b.k)
		}
		if c.a.isConst() {
			upd(c.b, c.a.k, m(c.b))
		}
	case OUlt:
		if c.b.isConst() && c.b.k > 0 {
			upd(c.a, 0, c.b.k-1)
		}
		if c.a.isConst() && c.a.k < m(c.b) {
			upd(c.b, c.a.k+1, m(c.b))
		}
	case OEq:
		if c.a.w > 0 {
			if c.b.isConst() {
				upd(c.a, c.b.k, c.b.k)
			} else if c.a.isConst() {
				upd(c.b, c.a.k, c.a.k)
			}
		}
	case OSle, OSlt:
		// x >= const >= 0
		if c.a.isConst() && sx(c.a.k, c.a.w) >= 0 {
			lo := c.a.k
			if c.op == OSlt {
				lo++
			}
			upd(c.b, lo, m(c.b)>>1)
		}
		if c.b.isConst() && tt.nonneg(c.a) && sx(c.b.k, c.b.w) >= 0 {
			hi := c.b.k
			if c.op == OSlt && hi > 0 {
				hi--
			}
			upd(c.a, 0, hi)
		}
	case ONot:
		d := c.a
		switch d.op {
		case OUle: // a > b
			if d.b.isConst() && d.b.k < m(d.a) {
				upd(d.a, d.b.k+1, m(d.a))
			}
			if d.a.isConst() && d.a.k > 0 {
				upd(d.b, 0, d.a.k-1)
			}
		case OUlt: // a >= b
			if d.b.isConst() {
				upd(d.a, d.b.k, m(d.a))
			}
			if d.a.isConst() {
				upd(d.b, 0, d.a.k)
			}
		case OSlt: // a >= b
			if d.b.isConst() && sx(d.b.k, d.b.w) >= 0 {
				upd(d.a, d.b.k, m(d.a)>>1)
			}
			if d.a.isConst() && tt.nonneg(d.b) && sx(d.a.k, d.a.w) >= 0 {
				upd(d.b, 0, d.a.k)
			}
		case OSle:
			if d.b.isConst() && sx(d.b.k, d.b.w) >= 0 {
				upd(d.a, d.b.k+1, m(d.a)>>1)
			}
			if d.a.isConst() && tt.nonneg(d.b) && sx(d.a.k, d.a.w) > 0 {
				upd(d.b, 0, d.a.k-1)
			}
		case OOr:
			ex.learn(tt.Not(d.a))
			ex.learn(tt.Not(d.b))
		}
	}
}

func (ex *Exec) query(extra *Term) (satRes, map[string]uint64) {
	w := ex.w
	if extra == w.tt.F {
		return resUnsat, nil
	}
	if m := ex.guess(extra); m != nil {
		w.res.Guessed++
		return resSat, m
	}
	return w.sol.Check(ex.pc, extra, ex.vars)
}

// guess tries to satisfy extra by changing one variable of the current model; the result is checked
// against the whole path condition, so it is as good as the solver's.
func (ex *Exec) guess(extra *Term) map[string]uint64 {
	var vars []*Term
	var ks []uint64
	n := 0
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || n > 40 || seen[t] {
			return
		}
		seen[t] = true
		n++
		switch t.op {
		case OVar:
			vars = append(vars, t)
		case OConst:
			ks = append(ks, t.k)
		}
		walk(t.a)
		walk(t.b)
		walk(t.c)
	}
	walk(extra)
	if n > 40 || len(vars) == 0 || len(vars) > 3 {
		return nil
	}
	tt := ex.w.tt
	tries := 0
	for _, v := range vars {
		lo, hi := tt.rng(v)
		if v.w == 0 {
			lo, hi = 0, 1
		}
		cands := []uint64{lo, hi, lo + 1}
		for _, k := range ks {
			cands = append(cands, k, k+1, k-1)
		}
		for _, o := range vars {
			if o != v {
				k := tt.Eval(o, ex.model)
				cands = append(cands, k, k+1, k-1)
			}
		}
		// a value no other variable has
		used := make(map[uint64]bool, len(ex.vars))
		for _, o := range ex.vars {
			used[tt.Eval(o, ex.model)] = true
		}
		for k, j := lo, 0; k <= hi && j < 64; k, j = k+1, j+1 {
			if !used[k] {
				cands = append(cands, k)
				break
			}
		}
		cur := tt.Eval(v, ex.model)
		done := map[uint64]bool{cur: true}
		for _, c := range cands {
			if c < lo || c > hi || done[c] {
				continue
			}
			done[c] = true
			if tries++; tries > 16 {
				return nil
			}
			vals := make(map[string]uint64, len(ex.model.vals)+1)
			for k, x := range ex.model.vals {
				vals[k] = x
			}
			vals[v.name] = c
			m := tt.NewModel(vals)
			if tt.Eval(extra, m) == 0 {
				continue
			}
			ok := true
			for _, p := range ex.pc {
				if tt.Eval(p, m) == 0 {
					ok = false
					break
				}
			}
			if ok {
				return vals
			}
		}
	}
	return nil
}

func (ex *Exec) implied(c *Term) (val, known bool) {
	if c.isConst() {
		return c.k != 0, true
	}
	if ex.pcSet[c] {
		return true, true
	}
	if ex.pcSet[ex.w.tt.Not(c)] {
		return false, true
	}
	return false, false
}

// branch decides a symbolic condition, forking when both outcomes are feasible.
func (ex *Exec) branch(c *Term) bool {
	if v, ok := ex.implied(c); ok {
		return v
	}
	tt := ex.w.tt
	if ex.epoch == 0 {
		panic(engineErr("symbolic branch during initialisation"))
	}
	nc := tt.Not(c)
	if ex.replaying() {
		n := ex.w.stack[ex.pos]
		ex.pos++
		if n.kind != nBranch {
			panic(engineErr("replay diverged: expected branch"))
		}
		if n.val == 1 {
			ex.addPC(c)
			return true
		}
		ex.addPC(nc)
		return false
	}
	v := tt.Eval(c, ex.model) != 0
	other := nc
	if !v {
		other = c
	}
	n := &node{kind: nBranch}
	if v {
		n.val = 1
	}
	r, vals := ex.query(other)
	switch r {
	case resSat:
		n.alts = append(n.alts, alt{1 - n.val, vals})
	case resUnknown:
		ex.w.res.Incomplete["solver unknown at branch"]++
	}
	ex.push(n)
	if v {
		ex.addPC(c)
	} else {
		ex.addPC(nc)
	}
	return v
}

func (ex *Exec) push(n *node) {
	ex.w.stack = append(ex.w.stack, n)
	ex.pos = len(ex.w.stack)
	ex.w.res.Decisions++
}

// concretize picks a value for t, forking over the others.
func (ex *Exec) concretize(fr *frame, t *Term) uint64 {
	tt := ex.w.tt
	for {
		if t.isConst() {
			return t.k
		}
		if lo, hi := tt.rng(t); lo == hi {
			return lo
		}
		if ex.epoch == 0 {
			panic(engineErr("concretize during initialisation"))
		}
		if ex.replaying() {
			n := ex.w.stack[ex.pos]
			ex.pos++
			if n.kind != nConc {
				panic(engineErr("replay diverged: expected value choice"))
			}
			eq := tt.Eq(t, tt.Const(t.w, n.data))
			if n.val == 1 {
				ex.addPC(eq)
				return n.data
			}
			ex.addPC(tt.Not(eq))
			continue
		}
		v := tt.Eval(t, ex.model)
		eq := tt.Eq(t, tt.Const(t.w, v))
		if eq == tt.T {
			return v
		}
		n := &node{kind: nConc, val: 1, data: v}
		r, vals := ex.query(tt.Not(eq))
		switch r {
		case resSat:
			n.alts = append(n.alts, alt{0, vals})
		case resUnknown:
			ex.w.res.Incomplete["solver unknown at value choice"]++
		}
		ex.push(n)
		ex.addPC(eq)
		return v
	}
}

func (ex *Exec) concretizeV(fr *frame, v Value) uint64 {
	switch v := v.(type) {
	case uint64:
		return v
	case bool:
		if v {
			return 1
		}
		return 0
	case *Term:
		return ex.concretize(fr, v)
	}
	panic(engineErr(fmt.Sprintf("concretizeV %T", v)))
}

func (ex *Exec) concInt(fr *frame, v Value) int64 {
	switch v := v.(type) {
	case uint64:
		return int64(v)
	case *Term:
		return sx(ex.concretize(fr, v), v.w)
	}
	panic(engineErr(fmt.Sprintf("concInt %T", v)))
}

// choose makes an n-way nondeterministic choice.
func (ex *Exec) choose(fr *frame, n int, label string) int {
	if n <= 1 {
		return 0
	}
	if ex.replaying() {
		nd := ex.w.stack[ex.pos]
		ex.pos++
		if nd.kind != nChoice {
			panic(engineErr("replay diverged: expected choice " + label))
		}
		return nd.val
	}
	nd := &node{kind: nChoice, val: 0, vals: ex.model.vals}
	for i := n - 1; i >= 1; i-- {
		nd.alts = append(nd.alts, alt{i, ex.model.vals})
	}
	ex.push(nd)
	return 0
}

func (ex *Exec) assume(fr *frame, c Value) {
	tt := ex.w.tt
	t, ok := c.(*Term)
	if !ok {
		if !c.(bool) {
			panic(pathEnd{"assume"})
		}
		return
	}
	if v, ok := ex.implied(t); ok {
		if !v {
			panic(pathEnd{"assume"})
		}
		return
	}
	if tt.Eval(t, ex.model) == 0 {
		if ex.replaying() {
			panic(engineErr("replay diverged: assumption violated by model"))
		}
		r, vals := ex.query(t)
		switch r {
		case resUnsat:
			panic(pathEnd{"assume"})
		case resUnknown:
			panic(pathEnd{"incomplete: solver unknown at assumption"})
		}
		ex.model = tt.NewModel(vals)
	}
	ex.addPC(t)
}

func (ex *Exec) assert(fr *frame, c Value, msg string) {
	ex.asserts++
	t, ok := c.(*Term)
	if !ok {
		if !c.(bool) {
			ex.violation(fr, "assert", msg)
		}
		return
	}
	if v, ok := ex.implied(t); ok {
		if !v {
			ex.violation(fr, "assert", msg)
		}
		return
	}
	if ex.replaying() {
		return
	}
	tt := ex.w.tt
	if tt.Eval(t, ex.model) == 0 {
		ex.violation(fr, "assert", msg)
	}
	r, vals := ex.query(tt.Not(t))
	switch r {
	case resSat:
		ex.model = tt.NewModel(vals)
		if tt.Eval(t, ex.model) != 0 {
			panic(engineErr("solver model does not violate the assertion: " + msg))
		}
		ex.violation(fr, "assert", msg)
	case resUnknown:
		ex.w.res.Incomplete["solver unknown at assertion"]++
	}
}

func (ex *Exec) newVar(label string, w uint8, lo, hi uint64) *Term {
	tt := ex.w.tt
	ex.nvar++
	name := fmt.Sprintf("v%d_%s_%d_%x_%x", ex.nvar, label, w, lo, hi)
	t := tt.Var(name, w, lo, hi)
	ex.vars = append(ex.vars, t)
	if w > 0 {
		// the solver must know the bounds; built raw because the simplifier already assumes them
		if lo > 0 {
			ex.rawPC(tt.mk(OUle, 0, tt.Const(w, lo), t, nil, 0, ""))
		}
		if hi < mask(w) {
			ex.rawPC(tt.mk(OUle, 0, t, tt.Const(w, hi), nil, 0, ""))
		}
	}
	return t
}

func (ex *Exec) rawPC(c *Term) {
	ex.pcSet[c] = true
	ex.pc = append(ex.pc, c)
}

func (ex *Exec) inputs() []NDVal {
	var out []NDVal
	tt := ex.w.tt
	for _, r := range ex.nds {
		v := NDVal{Kind: r.kind, Label: r.label}
		switch r.kind {
		case "choose":
			v.I = uint64(r.val)
		case "string", "bytes":
			n := int(tt.Eval(r.terms[0], ex.model))
			b := make([]byte, n)
			for i := range b {
				b[i] = byte(tt.Eval(r.terms[1+i], ex.model))
			}
			v.I = uint64(n)
			v.S = b
		default:
			v.I = tt.Eval(r.terms[0], ex.model)
		}
		out = append(out, v)
	}
	return out
}

type violEnd struct{ v *Violation }

func (ex *Exec) violation(fr *frame, kind, msg string) {
	v := &Violation{Kind: kind, Msg: msg, Harness: ex.cfg.Harness, Params: ex.cfg.Params, Cfg: ex.cfg}
	if fr != nil {
		v.Where = fr.where()
		v.Stack = fr.stack()
	}
	panic(violEnd{v})
}

func (ex *Exec) finishViolation(v *Violation) {
	v.Inputs = ex.inputs()
	v.Trace = ex.traceStrings()
	v.Notes = append(v.Notes, ex.notes...)
	v.Conc = ex.everMulti
	for _, n := range ex.w.stack {
		v.Dec = append(v.Dec, n.val)
	}
	x := ex.w.x
	x.mu.Lock()
	if !x.sigs[v.sig()] {
		x.sigs[v.sig()] = true
		x.res.Violations = append(x.res.Violations, v)
		if len(x.res.Violations) >= 6 {
			x.stop.Store(true)
		}
	}
	x.mu.Unlock()
}

// runPath executes the harness once, following w.stack and extending it.
func (w *Worker) runPath(vals map[string]uint64) {
	w.epochs++
	ex := w.newExec()
	ex.epoch = w.epochs
	ex.model = w.tt.NewModel(vals)
	w.tt.pathRange = map[*Term][2]uint64{}
	why := ex.runMain()
	// undo effects on state that outlives the path
	for i := len(ex.journal) - 1; i >= 0; i-- {
		u := ex.journal[i]
		*u.p = u.old
	}
	for m, c := range ex.mapSnap {
		*m = *c
	}
	w.tt.pathRange = map[*Term][2]uint64{}
	w.res.Asserts += ex.asserts
	w.res.Instr += int64(ex.steps)
	if ex.nvar > w.res.SymVars {
		w.res.SymVars = ex.nvar
	}
	w.res.Transitions += int64(len(ex.trace))
	if len(ex.trace) > w.res.MaxSched {
		w.res.MaxSched = len(ex.trace)
	}
	switch {
	case why == "done" || why == "violation":
		w.res.Paths++
	case why == "assume":
		w.res.Assumed++
	case why == "sleep":
		w.res.Pruned++
	default:
		w.res.Incomplete[why]++
	}
}

func (ex *Exec) sample() {
	x := ex.w.x
	max := ex.cfg.Samples
	if max == 0 {
		max = 4
	}
	x.mu.Lock()
	n := len(x.res.Samples)
	x.mu.Unlock()
	if n >= max {
		return
	}
	s := &Sample{Inputs: ex.inputs(), Conc: ex.everMulti, Steps: len(ex.trace)}
	for _, o := range ex.obs {
		s.Obs = append(s.Obs, o.label+"="+ex.render(o.v))
	}
	if ex.everMulti {
		s.Trace = ex.traceStrings()
	}
	x.mu.Lock()
	if len(x.res.Samples) < max {
		x.res.Samples = append(x.res.Samples, s)
	}
	x.mu.Unlock()
}

// render evaluates a value under the current model, in the notation nd.Observe prints natively.
func (ex *Exec) render(v Value) string {
	tt := ex.w.tt
	switch v := v.(type) {
	case *Term:
		if v.w == 0 {
			return fmt.Sprint(tt.Eval(v, ex.model) != 0)
		}
		return fmt.Sprint(tt.Eval(v, ex.model))
	case *SymStr:
		n := int(tt.Eval(v.n, ex.model))
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(tt.Eval(v.b[i], ex.model))
		}
		return fmt.Sprintf("%q", string(b))
	case string:
		return fmt.Sprintf("%q", v)
	case uint64, bool:
		return fmt.Sprint(v)
	case *Opaque:
		return "?"
	case iface:
		if v.t == nil {
			return "nil"
		}
		if w, s, ok := intInfo(v.t); ok {
			x := uint64(0)
			switch y := v.v.(type) {
			case uint64:
				x = y
			case *Term:
				x = tt.Eval(y, ex.model)
			}
			if s {
				return fmt.Sprint(sx(x, w))
			}
			return fmt.Sprint(x)
		}
		return ex.render(v.v)
	}
	return "?"
}

// backtrack moves to the next unexplored alternative.
func (w *Worker) backtrack() (map[string]uint64, bool) {
	for len(w.stack) > 0 {
		n := w.stack[len(w.stack)-1]
		if !n.frozen {
			if n.kind == nSched {
				if vals, ok := n.nextSched(); ok {
					return vals, true
				}
			} else if k := len(n.alts); k > 0 {
				a := n.alts[k-1]
				n.alts = n.alts[:k-1]
				n.val = a.val
				return a.vals, true
			}
		}
		w.stack = w.stack[:len(w.stack)-1]
	}
	return nil, false
}

// donate gives the shallowest pending alternative to an idle worker.
func (w *Worker) donate() {
	for i, n := range w.stack {
		if n.frozen {
			continue
		}
		var d *node
		var vals map[string]uint64
		if n.kind == nSched {
			n.sched.expandAll()
			v, sc, ok := n.takeSched()
			if !ok {
				continue
			}
			d = &node{kind: nSched, val: v, frozen: true, sched: sc, vals: n.vals}
			vals = n.vals
		} else {
			if len(n.alts) == 0 {
				continue
			}
			a := n.alts[0]
			n.alts = n.alts[1:]
			d = &node{kind: n.kind, val: a.val, data: n.data, frozen: true, vals: n.vals}
			vals = a.vals
		}
		var pre []*node
		for _, p := range w.stack[:i] {
			c := &node{kind: p.kind, val: p.val, data: p.data, frozen: true, vals: p.vals}
			if p.sched != nil {
				c.sched = p.sched.freezeCopy()
			}
			pre = append(pre, c)
		}
		pre = append(pre, d)
		x := w.x
		x.mu.Lock()
		x.queue = append(x.queue, job{pre, vals})
		x.hungry.Add(-1)
		x.mu.Unlock()
		x.cond.Signal()
		return
	}
}

var debugFlag bool
var debugOut = os.Stderr

func (w *Worker) loopJobs() {
	x := w.x
	for {
		x.mu.Lock()
		idle := false
		for len(x.queue) == 0 && x.active > 0 && !x.stop.Load() {
			if !idle {
				x.hungry.Add(1)
				idle = true
			}
			x.cond.Wait()
		}
		if len(x.queue) == 0 || x.stop.Load() {
			x.mu.Unlock()
			x.cond.Broadcast()
			return
		}
		j := x.queue[len(x.queue)-1]
		x.queue = x.queue[:len(x.queue)-1]
		x.active++
		x.mu.Unlock()
		w.stack = j.nodes
		vals := j.vals
		for {
			w.runPath(vals)
			p := x.paths.Add(1)
			if w.cfg.Paths > 0 && p >= int64(w.cfg.Paths) {
				x.truncate("path limit")
			}
			if w.cfg.Seconds > 0 && time.Since(x.started).Seconds() > w.cfg.Seconds {
				x.truncate("time limit")
			}
			if x.stop.Load() {
				break
			}
			if w.tt.n > 3_000_000 {
				w.reset()
			}
			var ok bool
			vals, ok = w.backtrack()
			if !ok {
				break
			}
			if x.hungry.Load() > 0 {
				w.donate()
			}
		}
		x.mu.Lock()
		x.active--
		x.mu.Unlock()
		x.cond.Broadcast()
	}
}

func (x *Explorer) truncate(why string) {
	x.mu.Lock()
	if x.res.Truncated == "" {
		x.res.Truncated = why
	}
	x.mu.Unlock()
	x.stop.Store(true)
	x.cond.Broadcast()
}

func explore(p *Program, cfg *Config, workers int, solver string, tmo int) *Result {
	fn := p.findFunc(cfg.Harness)
	res := &Result{Cfg: cfg, Covers: map[string]int64{}, Incomplete: map[string]int64{}, Funcs: map[string]bool{}}
	if fn == nil {
		res.EngineErr = "no harness function " + cfg.Harness
		return res
	}
	x := &Explorer{prog: p, cfg: cfg, fn: fn, res: res, sigs: map[string]bool{}, started: time.Now(), solver: solver, tmo: tmo}
	x.cond = sync.NewCond(&x.mu)
	x.queue = []job{{}}
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					msg := fmt.Sprint(r)
					if _, ok := r.(engineErr); !ok || debugFlag {
						msg += "\n" + string(debug.Stack())
					}
					x.mu.Lock()
					if res.EngineErr == "" {
						res.EngineErr = msg
					}
					x.active--
					x.mu.Unlock()
					x.stop.Store(true)
					x.cond.Broadcast()
				}
			}()
			w := newWorker(x)
			w.loopJobs()
			w.foldSolver()
			w.sol.Close()
			x.mu.Lock()
			defer x.mu.Unlock()
			r := &w.res
			res.Paths += r.Paths
			res.Assumed += r.Assumed
			res.Pruned += r.Pruned
			res.Asserts += r.Asserts
			res.Queries += r.Queries
			res.Sat += r.Sat
			res.Guessed += r.Guessed
			res.Unsat += r.Unsat
			res.Unknown += r.Unknown
			res.SolverTime += r.SolverTime
			res.Decisions += r.Decisions
			res.Transitions += r.Transitions
			res.Instr += r.Instr
			if r.MaxSched > res.MaxSched {
				res.MaxSched = r.MaxSched
			}
			if r.SymVars > res.SymVars {
				res.SymVars = r.SymVars
			}
			for k, v := range r.Covers {
				res.Covers[k] += v
			}
			for k, v := range r.Incomplete {
				res.Incomplete[k] += v
			}
			for f := range w.coverFn {
				res.Funcs[f.name] = true
			}
		}()
	}
	wg.Wait()
	res.Wall = time.Since(x.started)
	sort.Slice(res.Violations, func(i, j int) bool { return res.Violations[i].sig() < res.Violations[j].sig() })
	return res
}

func (r *Result) summary() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%s %v: paths=%d assumed=%d pruned=%d asserts=%d queries=%d (sat %d unsat %d unknown %d) solver=%.2fs wall=%.2fs dec=%d trans=%d maxsched=%d",
		r.Cfg.Harness, r.Cfg.Params, r.Paths, r.Assumed, r.Pruned, r.Asserts, r.Queries, r.Sat, r.Unsat, r.Unknown, r.SolverTime.Seconds(), r.Wall.Seconds(), r.Decisions, r.Transitions, r.MaxSched)
	if r.Truncated != "" {
		fmt.Fprintf(&sb, " TRUNCATED(%s)", r.Truncated)
	}
	for k, v := range r.Incomplete {
		fmt.Fprintf(&sb, "\n    incomplete %q: %d", k, v)
	}
	var cs []string
	for _, k := range sortedKeys(r.Covers) {
		cs = append(cs, fmt.Sprintf("%s:%d", k, r.Covers[k]))
	}
	if len(cs) > 0 {
		fmt.Fprintf(&sb, "\n    covers %s", strings.Join(cs, " "))
	}
	for _, v := range r.Violations {
		fmt.Fprintf(&sb, "\n    VIOLATION %s: %s at %s inputs=%v", v.Kind, v.Msg, v.Where, renderInputs(v.Inputs))
		if debugFlag {
			for _, s := range v.Stack {
				fmt.Fprintf(&sb, "\n        %s", s)
			}
			for _, s := range v.Trace {
				fmt.Fprintf(&sb, "\n      | %s", s)
			}
			for _, s := range v.Notes {
				fmt.Fprintf(&sb, "\n      # %s", s)
			}
		}
	}
	if r.EngineErr != "" {
		fmt.Fprintf(&sb, "\n    ENGINE ERROR %s", r.EngineErr)
	}
	return sb.String()
}

func renderInputs(in []NDVal) string {
	var p []string
	for _, v := range in {
		if v.Kind == "string" || v.Kind == "bytes" {
			p = append(p, fmt.Sprintf("%s=%q", v.Label, string(v.S)))
		} else {
			p = append(p, fmt.Sprintf("%s=%d", v.Label, int64(v.I)))
		}
	}
	return strings.Join(p, " ")
}
