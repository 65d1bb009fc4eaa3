package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// access kinds
const (
	aRead uint8 = iota
	aWrite
	aLock
	aRLock
	aWLock
	aSend     // send arrival
	aRecv     // receive (arrival or taking an element)
	aRecvC    // receive from a closed, drained channel
	aPoll     // select saw the channel not ready for receive
	aPollFull // select saw the channel not ready for send
	aObs      // select saw the channel ready but took another case
	aClose
	aLen
	aAddPos
	aAddNeg
	aWait
)

func conflict(a, b uint8) bool {
	if a > b {
		a, b = b, a
	}
	switch a {
	case aRead:
		return b == aWrite
	case aWrite:
		return b == aWrite
	case aLock:
		return b == aLock
	case aRLock:
		return b == aWLock
	case aWLock:
		return b == aWLock
	case aSend:
		switch b {
		case aSend, aPoll, aClose, aLen:
			return true
		}
	case aRecv:
		switch b {
		case aRecv, aPoll, aPollFull, aObs, aClose, aLen:
			return true
		}
	case aRecvC:
		return false
	case aPoll:
		return b == aClose || b == aPollFull
	case aPollFull:
		return b == aClose
	case aObs:
		return false
	case aClose:
		return b == aClose || b == aLen
	case aLen:
		return false
	case aAddPos:
		return b == aWait // Add(+) and Done commute: a negative counter through reordering is not explored
	case aAddNeg:
		return b == aWait
	}
	return false
}

type access struct {
	obj  any
	kind uint8
}

type objAcc struct {
	step int32
	g    int32
	kind uint8
}

type vc []int32

func (v vc) get(i int) int32 {
	if i < len(v) {
		return v[i]
	}
	return -1
}
func (v vc) set(i int, x int32) vc {
	for len(v) <= i {
		v = append(v, -1)
	}
	v[i] = x
	return v
}
func (v vc) join(o vc) vc {
	for len(v) < len(o) {
		v = append(v, -1)
	}
	for i, x := range o {
		if x > v[i] {
			v[i] = x
		}
	}
	return v
}
func (v vc) clone() vc { return append(vc(nil), v...) }

const (
	gStart uint8 = iota
	gPending
	gParked
	gResume
	gRunning
	gDone
)

type G struct {
	id          int
	name        string
	ex          *Exec
	top         *frame
	atomic      int
	atomicFirst bool
	state       uint8
	wake        chan struct{}
	host        bool
	starved     map[*ssa.Select][]int // how many times in a row each case was ready and not chosen
	start       func()
	dp, hb      vc
	desc        string
	pred        []access // predicted accesses of the pending operation
	enabled     func() bool
	quiesce     bool
	timer       *Timer
	parkIdx     int
	parkVal     Value
	parkOK      bool
	parkPanic   string
}

type schedNode struct {
	enabled  []int
	backtrk  map[int]bool
	done     map[int][]access
	sleep    map[int][]access
	acc      []access // accesses of the chosen step (union over its sub-paths)
	cur      int
	expanded bool
}

type step struct {
	g    int
	node *schedNode
	clk  vc
	desc string
	ci   *cinstr
	fn   string
}

type conc struct {
	gs        []*G
	cur       *G
	multi     bool
	everMulti bool
	trace     []*step
	objs      map[any][]objAcc
	sleep     map[int][]access
	clock     Value
	timers    []*Timer
	tmByPtr   map[*Value]*Timer
	mutexes   map[*Value]*mutexSt
	rws       map[*Value]*rwSt
	wgs       map[*Value]*wgSt
	conds     map[*Value]*condSt
	atoms     map[any]*atomSt
	shadow    map[any]*shadow
	ended     bool
	endVal    any
	advances  int
	delayUsed int
	exited    chan struct{}
	hosts     int
}

func (ex *Exec) initConc() {
	ex.clock = uint64(0)
	ex.objs = map[any][]objAcc{}
	ex.tmByPtr = map[*Value]*Timer{}
	ex.mutexes = map[*Value]*mutexSt{}
	ex.rws = map[*Value]*rwSt{}
	ex.wgs = map[*Value]*wgSt{}
	ex.conds = map[*Value]*condSt{}
	ex.atoms = map[any]*atomSt{}
	ex.shadow = map[any]*shadow{}
	ex.exited = make(chan struct{}, 1)
}

func (ex *Exec) newG(name string) *G {
	g := &G{id: len(ex.gs), name: name, ex: ex, state: gRunning, wake: make(chan struct{}, 1)}
	ex.gs = append(ex.gs, g)
	g.dp = g.dp.set(g.id, -1)
	g.hb = g.hb.set(g.id, 0)
	return g
}

// runMain runs the harness to the end of the path and reports how it ended.
func (ex *Exec) runMain() (why string) {
	w := ex.w
	g := ex.newG("main")
	ex.cur = g
	g.host = true
	root := &frame{ex: ex, g: g}
	c := w.prog.cfn(w.x.fn)
	var end any
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(killG); ok {
					return // ended elsewhere: ex.endVal
				}
				end = r
			}
		}()
		ex.callFn(root, c, nil, nil)
		if ex.multi {
			ex.waitQuiesce(root)
		}
		ex.endStep()
		ex.pendingRaces()
		end = pathEnd{"done"}
	}()
	if end == nil {
		end = ex.endVal
	}
	// release every other host goroutine
	ex.ended = true
	for _, o := range ex.gs {
		if o != g && o.host && o.state != gDone {
			o.wake <- struct{}{}
			<-ex.exited
		}
	}
	switch e := end.(type) {
	case pathEnd:
		if e.why == "sleep" {
			func() {
				defer func() { recover() }()
				ex.endStep()
				ex.pendingRaces()
			}()
		}
		if e.why == "done" {
			ex.sample()
			for _, n := range ex.notesCover() {
				w.res.Covers[n]++
			}
		}
		return e.why
	case violEnd:
		ex.finishViolation(e.v)
		return "violation"
	case goPanic:
		ex.finishViolation(ex.panicViolation(g, e))
		return "violation"
	case unsupported:
		return "incomplete: " + e.Error()
	}
	panic(end)
}

func (ex *Exec) notesCover() []string {
	if m, ok := ex.intr["covers"].(map[string]bool); ok {
		return sortedKeys(m)
	}
	return nil
}

func (ex *Exec) panicViolation(g *G, p goPanic) *Violation {
	msg := ""
	if p.v.t != nil {
		switch x := p.v.v.(type) {
		case string:
			msg = x
		case *Opaque:
			msg = x.desc
		default:
			msg = typeStr(p.v.t)
		}
		if isErr := p.v.t == ex.w.prog.rtErrT; isErr {
			msg = "runtime error: " + msg
		}
	}
	v := &Violation{Kind: "panic", Msg: msg, Where: p.where, Harness: ex.cfg.Harness, Params: ex.cfg.Params, Cfg: ex.cfg}
	if g.top != nil {
		v.Stack = g.top.stack()
	}
	if g.id != 0 {
		v.Notes = append(v.Notes, "in goroutine "+g.name)
	}
	return v
}

func (ex *Exec) spawn(fr *frame, c *Closure, args []Value, name string) *G {
	if ex.inInit > 0 {
		panic(unsupported("goroutine during initialisation"))
	}
	if c == nil {
		ex.rtPanic(fr, "go of nil func value")
	}
	if name == "" {
		name = "go@" + fr.where()
		if c.fn != nil {
			name = c.fn.name
		}
	}
	g := ex.newG(fmt.Sprintf("%d:%s", len(ex.gs), name))
	g.state = gStart
	g.desc = "start"
	p := fr.g
	g.dp = p.dp.clone().set(g.id, -1)
	g.hb = p.hb.clone().set(g.id, 0)
	p.hb[p.id]++
	ex.setMulti()
	g.start = func() {
		root := &frame{ex: ex, g: g}
		defer func() {
			r := recover()
			g.state = gDone
			if ex.ended { // killed
				ex.exited <- struct{}{}
				return
			}
			var end any
			switch e := r.(type) {
			case nil:
				// finished: hand over
				func() {
					defer func() {
						if r := recover(); r != nil {
							end = r
						}
					}()
					ex.endStep()
					ex.dispatch(g)
				}()
				if end == nil {
					return
				}
			case goPanic:
				end = violEnd{ex.panicViolation(g, e)}
			default:
				end = r
			}
			ex.endVal = end
			ex.ended = true
			ex.gs[0].wake <- struct{}{}
		}()
		ex.call(root, c, args)
	}
	return g
}

func (ex *Exec) setMulti() {
	if !ex.multi {
		ex.multi = true
		ex.everMulti = true
		ex.raceOn = !ex.cfg.NoRace
		for _, g := range ex.gs {
			_ = g
		}
	}
}

// visible is a scheduling point before an operation on shared state.
func (ex *Exec) visible(fr *frame, desc string, enabled func() bool, pred ...access) {
	g := fr.g
	if ex.inInit > 0 {
		if enabled != nil && !enabled() {
			panic(unsupported("blocking operation during initialisation"))
		}
		return
	}
	if !ex.multi {
		if enabled == nil || enabled() {
			return
		}
		ex.setMulti()
	}
	if g.atomic > 0 {
		if !g.atomicFirst && (enabled == nil || enabled()) {
			return
		}
		g.atomicFirst = false
	}
	g.state = gPending
	g.desc = desc
	g.enabled = enabled
	g.pred = pred
	ex.resched(g)
}

// park blocks g until another goroutine resumes it.
func (ex *Exec) park(fr *frame, desc string) {
	g := fr.g
	if ex.inInit > 0 {
		panic(unsupported("blocking operation during initialisation"))
	}
	ex.setMulti()
	g.state = gParked
	g.desc = desc
	g.enabled = nil
	ex.resched(g)
	if g.parkPanic != "" {
		m := g.parkPanic
		g.parkPanic = ""
		panic(goPanic{iface{ex.w.prog.rtErrT, m}, fr.where()})
	}
}

// ready resumes a parked goroutine; by is the goroutine causing it (nil: clock).
func (ex *Exec) ready(g *G, by *G) {
	g.state = gResume
	if by != nil {
		g.dp = g.dp.join(by.dp)
	}
}

func (ex *Exec) waitQuiesce(fr *frame) {
	if !ex.multi {
		return
	}
	g := fr.g
	g.state = gPending
	g.quiesce = true
	g.desc = "quiesce"
	g.enabled = func() bool { return false }
	g.pred = nil
	ex.resched(g)
	g.quiesce = false
}

func (ex *Exec) resched(g *G) {
	ex.endStep()
	next := ex.pick(g)
	ex.cur = next
	if next == g {
		g.state = gRunning
		return
	}
	ex.resume(next)
	<-g.wake
	if ex.ended {
		panic(killG{})
	}
	g.state = gRunning
}

// dispatch continues some other goroutine after g has finished.
func (ex *Exec) dispatch(g *G) {
	next := ex.pick(g)
	ex.cur = next
	ex.resume(next)
}

func (ex *Exec) resume(next *G) {
	if next.state == gStart {
		next.host = true
		next.state = gRunning
		go next.start()
		return
	}
	next.wake <- struct{}{}
}

func (ex *Exec) endStep() {
	if n := len(ex.trace); n > 0 {
		s := ex.trace[n-1]
		if s.clk == nil {
			s.clk = ex.gs[s.g].dp.clone()
		}
	}
}

func (ex *Exec) beginStep(g *G, node *schedNode) {
	s := &step{g: g.id, node: node, desc: g.desc}
	if g.top != nil && g.top.cur != nil {
		s.ci = g.top.cur
		s.fn = g.top.fn.name
	}
	ex.trace = append(ex.trace, s)
	g.dp = g.dp.set(g.id, int32(len(ex.trace)-1))
}

// access records that the running step touches obj, and finds races with earlier steps.
func (ex *Exec) access(g *G, obj any, kind uint8) {
	if !ex.multi || ex.inInit > 0 || g.id < 0 {
		return
	}
	if len(ex.trace) == 0 {
		return
	}
	si := int32(len(ex.trace) - 1)
	lst := ex.objs[obj]
	for i := len(lst) - 1; i >= 0; i-- {
		a := lst[i]
		if int(a.g) == g.id || !conflict(a.kind, kind) {
			continue
		}
		if g.dp.get(int(a.g)) >= a.step {
			continue
		}
		ex.addBacktrack(int(a.step), g)
		if c := ex.trace[a.step].clk; c != nil {
			g.dp = g.dp.join(c)
		}
	}
	ex.objs[obj] = append(lst, objAcc{si, int32(g.id), kind})
	if n := ex.trace[si].node; n != nil {
		for _, a := range n.acc {
			if a.obj == obj && a.kind == kind {
				return
			}
		}
		n.acc = append(n.acc, access{obj, kind})
	} else {
		// filter the sleep set directly for steps without a node
	}
	// goroutines sleeping on a dependent operation wake up
	for q, accs := range ex.sleep {
		if q == g.id {
			continue
		}
		for _, a := range accs {
			if a.obj == obj && conflict(a.kind, kind) {
				delete(ex.sleep, q)
				break
			}
		}
	}
}

// pendingRaces treats the pending operations of blocked goroutines as if they came next.
func (ex *Exec) pendingRaces() {
	for _, g := range ex.gs {
		if g.state != gPending || g.quiesce {
			continue
		}
		for _, p := range g.pred {
			lst := ex.objs[p.obj]
			dp := g.dp.clone()
			for i := len(lst) - 1; i >= 0; i-- {
				a := lst[i]
				if int(a.g) == g.id || !conflict(a.kind, p.kind) || dp.get(int(a.g)) >= a.step {
					continue
				}
				ex.addBacktrack(int(a.step), g)
				if c := ex.trace[a.step].clk; c != nil {
					dp = dp.join(c)
				}
			}
		}
	}
}

func (ex *Exec) addBacktrack(s int, g *G) {
	n := ex.trace[s].node
	if n == nil || n.expanded {
		return
	}
	in := func(id int) bool {
		for _, e := range n.enabled {
			if e == id {
				return true
			}
		}
		return false
	}
	if in(g.id) {
		n.backtrk[g.id] = true
		return
	}
	for _, q := range n.enabled {
		if q != n.cur && g.dp.get(q) > int32(s) {
			n.backtrk[q] = true
			return
		}
	}
	if g.dp.get(n.cur) > int32(s) {
		// the step's own goroutine leads to g: running it is already this branch
		// (no other enabled goroutine precedes g) — be conservative
	}
	for _, q := range n.enabled {
		n.backtrk[q] = true
	}
}

func (n *schedNode) expandAll() {
	if n.expanded {
		return
	}
	n.expanded = true
	for _, q := range n.enabled {
		n.backtrk[q] = true
	}
}

func (n *schedNode) freezeCopy() *schedNode {
	c := &schedNode{enabled: n.enabled, cur: n.cur, expanded: true, backtrk: map[int]bool{}, done: map[int][]access{}, sleep: map[int][]access{}}
	for k, v := range n.done {
		c.done[k] = v
	}
	for k, v := range n.sleep {
		c.sleep[k] = v
	}
	return c
}

// nextSched picks the next goroutine to try at this node.
func (nd *node) nextSched() (map[string]uint64, bool) {
	n := nd.sched
	if _, ok := n.done[n.cur]; !ok {
		n.done[n.cur] = n.acc
	}
	for _, q := range n.enabled {
		if !n.backtrk[q] {
			continue
		}
		if _, d := n.done[q]; d {
			continue
		}
		if _, s := n.sleep[q]; s {
			continue
		}
		n.cur, n.acc = q, nil
		nd.val = q
		return nd.vals, true
	}
	return nil, false
}

// takeSched removes one pending goroutine from the node for another worker.
// Its sleep set holds what has been fully explored; goroutines whose exploration is
// unfinished (the current one, other donated ones) are not put to sleep there,
// but the remaining ones may treat the donated one as done only when its accesses are known,
// so it is never put to sleep elsewhere.
func (nd *node) takeSched() (int, *schedNode, bool) {
	n := nd.sched
	for i := len(n.enabled) - 1; i >= 0; i-- {
		q := n.enabled[i]
		if q == n.cur || !n.backtrk[q] {
			continue
		}
		if _, d := n.done[q]; d {
			continue
		}
		if _, s := n.sleep[q]; s {
			continue
		}
		c := n.freezeCopy()
		// everything still to be explored here, q excepted, is done before q as far as sleeping goes,
		// only if its accesses are known
		c.cur = q
		n.done[q] = allAccess
		return q, c, true
	}
	return 0, nil, false
}

// allAccess marks a donated goroutine: it conflicts with everything, so it never sleeps.
var allAccess = []access{{obj: nil, kind: 255}}

func isAll(a []access) bool { return len(a) == 1 && a[0].kind == 255 }

// pick selects the goroutine that runs next. cur has just stopped (or finished).
func (ex *Exec) pick(cur *G) *G {
	for {
		// invisible continuations first
		for _, g := range ex.gs {
			if g.state == gStart || g.state == gResume {
				return g
			}
		}
		var en []int
		for _, g := range ex.gs {
			if g.state == gPending && !g.quiesce && (g.enabled == nil || g.enabled()) {
				en = append(en, g.id)
			}
		}
		if len(en) == 0 {
			ok := false
			for _, g := range ex.gs {
				if g.state == gPending && g.quiesce {
					// quiescence is ordered after everything that happened
					for _, o := range ex.gs {
						g.dp = g.dp.join(o.dp)
						if o != g && o.id >= 0 {
							g.hb = g.hb.join(o.hb)
							ex.tick(o)
						}
					}
					g.desc = "quiesced"
					ex.beginStep(g, nil)
					return g
				}
			}
			ok = ex.advance(cur)
			if !ok {
				ex.deadlock()
			}
			continue
		}
		var g *G
		var sn *schedNode
		if len(en) == 1 {
			g = ex.gs[en[0]]
			if _, s := ex.sleep[g.id]; s && ex.cfg.Mode == "" {
				panic(pathEnd{"sleep"})
			}
		} else if ex.cfg.Mode == "delay" {
			g = ex.pickDelay(cur, en)
		} else {
			g, sn = ex.pickDPOR(cur, en)
		}
		if g.id == 0 {
			ex.advances = 0
		}
		ex.beginStep(g, sn)
		if g.timer != nil {
			ex.fire(g)
			ex.endStep()
			continue
		}
		return g
	}
}

func (ex *Exec) pickDelay(cur *G, en []int) *G {
	// rotate so that the current goroutine (or the next one) comes first
	i := sort.SearchInts(en, cur.id)
	ord := append(append([]int{}, en[i:]...), en[:i]...)
	n := len(ord)
	if b := ex.cfg.Delays - ex.delayUsed + 1; n > b {
		n = b
	}
	k := ex.choose(nil, n, "sched")
	ex.delayUsed += k
	return ex.gs[ord[k]]
}

func (ex *Exec) pickDPOR(cur *G, en []int) (*G, *schedNode) {
	w := ex.w
	if ex.replaying() {
		nd := w.stack[ex.pos]
		ex.pos++
		if nd.kind != nSched {
			panic(engineErr("replay diverged: expected scheduling choice"))
		}
		n := nd.sched
		ok := false
		for _, e := range en {
			if e == nd.val {
				ok = true
			}
		}
		if !ok {
			panic(engineErr(fmt.Sprintf("replay diverged: goroutine %d not enabled (enabled %v, recorded %v)", nd.val, en, n.enabled)))
		}
		n.cur = nd.val
		ex.sleep = map[int][]access{}
		for q, a := range n.sleep {
			if q != nd.val {
				ex.sleep[q] = a
			}
		}
		for q, a := range n.done {
			if q != nd.val && !isAll(a) {
				ex.sleep[q] = a
			}
		}
		// objects in recorded accesses are identified by stable ids, so they survive re-execution
		return ex.gs[nd.val], n
	}
	sel := -1
	for _, e := range en {
		if _, s := ex.sleep[e]; s {
			continue
		}
		if sel < 0 || e == cur.id {
			sel = e
		}
	}
	if sel < 0 {
		panic(pathEnd{"sleep"})
	}
	n := &schedNode{enabled: en, cur: sel, backtrk: map[int]bool{sel: true}, done: map[int][]access{}, sleep: map[int][]access{}}
	for q, a := range ex.sleep {
		n.sleep[q] = a
	}
	ex.push(&node{kind: nSched, val: sel, sched: n, vals: ex.model.vals})
	return ex.gs[sel], n
}

func (ex *Exec) deadlock() {
	var lines []string
	for _, g := range ex.gs {
		if g.state == gDone || g.timer != nil {
			continue
		}
		where := ""
		if g.top != nil {
			where = g.top.where()
		}
		lines = append(lines, fmt.Sprintf("goroutine %s blocked: %s at %s", g.name, g.desc, where))
	}
	main := ex.gs[0]
	v := &Violation{Kind: "deadlock", Msg: "all goroutines are blocked: " + main.desc, Harness: ex.cfg.Harness, Params: ex.cfg.Params, Cfg: ex.cfg}
	if main.top != nil {
		v.Where = main.top.where()
		v.Stack = main.top.stack()
	}
	v.Notes = lines
	panic(violEnd{v})
}

func (ex *Exec) traceStrings() []string {
	var out []string
	for i, s := range ex.trace {
		pos := ""
		if s.ci != nil {
			pos = ex.w.prog.pos(s.ci.in.Pos()) + " " + s.fn
		}
		out = append(out, fmt.Sprintf("%d: [%s] %s %s", i, ex.gs[s.g].name, s.desc, pos))
		if len(out) > 400 {
			out = append(out, "…")
			break
		}
	}
	return out
}

// ---- mutual exclusion ----

type mutexSt struct {
	locked bool
	hb, dp vc
	id     int
}

type objID struct {
	kind string
	n    int
}

func (ex *Exec) mutex(p *Value) *mutexSt {
	m := ex.mutexes[p]
	if m == nil {
		m = &mutexSt{id: len(ex.mutexes)}
		ex.mutexes[p] = m
	}
	return m
}

func (ex *Exec) mutexLock(fr *frame, p *Value) {
	m := ex.mutex(p)
	o := ex.oid(p)
	ex.visible(fr, "Lock", func() bool { return !m.locked }, access{o, aLock})
	m.locked = true
	g := fr.g
	ex.access(g, o, aLock)
	g.hb, g.dp = g.hb.join(m.hb), g.dp.join(m.dp)
}

func (ex *Exec) mutexTryLock(fr *frame, p *Value) bool {
	m := ex.mutex(p)
	o := ex.oid(p)
	ex.visible(fr, "TryLock", nil, access{o, aLock})
	ex.access(fr.g, o, aLock)
	if m.locked {
		return false
	}
	m.locked = true
	g := fr.g
	g.hb, g.dp = g.hb.join(m.hb), g.dp.join(m.dp)
	return true
}

func (ex *Exec) mutexUnlock(fr *frame, p *Value) {
	m := ex.mutex(p)
	if !m.locked {
		ex.violation(fr, "fatal", "sync: unlock of unlocked mutex")
	}
	m.locked = false
	g := fr.g
	m.hb, m.dp = g.hb.clone(), g.dp.clone()
	ex.tick(g)
}

func (ex *Exec) tick(g *G) {
	if g.id >= 0 {
		g.hb[g.id]++
	}
}

// oid gives an address a stable identity across re-executions of the same prefix:
// objects are numbered in the order in which they are first synchronised on.
func (ex *Exec) oid(p any) any {
	m, ok := ex.intr["oids"].(map[any]objID)
	if !ok {
		m = map[any]objID{}
		ex.intr["oids"] = m
	}
	if id, ok := m[p]; ok {
		return id
	}
	id := objID{"o", len(m)}
	m[p] = id
	return id
}

type rwSt struct {
	writer  bool
	wpend   bool
	readers int
	whb     vc
	wdp     vc
	rhb     vc
	rdp     vc
}

func (ex *Exec) rw(p *Value) *rwSt {
	m := ex.rws[p]
	if m == nil {
		m = &rwSt{}
		ex.rws[p] = m
	}
	return m
}

func (ex *Exec) rlock(fr *frame, p *Value) {
	m := ex.rw(p)
	o := ex.oid(p)
	ex.visible(fr, "RLock", func() bool { return !m.writer && !m.wpend }, access{o, aRLock})
	m.readers++
	g := fr.g
	ex.access(g, o, aRLock)
	g.hb, g.dp = g.hb.join(m.whb), g.dp.join(m.wdp)
}

func (ex *Exec) runlock(fr *frame, p *Value) {
	m := ex.rw(p)
	if m.readers == 0 {
		ex.violation(fr, "fatal", "sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	g := fr.g
	m.rhb, m.rdp = m.rhb.join(g.hb), m.rdp.join(g.dp)
	ex.tick(g)
}

func (ex *Exec) wlock(fr *frame, p *Value) {
	m := ex.rw(p)
	o := ex.oid(p)
	ex.visible(fr, "RWMutex.Lock", func() bool { return !m.writer && !m.wpend }, access{o, aWLock})
	g := fr.g
	ex.access(g, o, aWLock)
	if m.readers > 0 {
		m.wpend = true
		a, f := g.atomic, g.atomicFirst
		g.atomic = 0
		ex.visible(fr, "RWMutex.Lock (waiting for readers)", func() bool { return m.readers == 0 })
		g.atomic, g.atomicFirst = a, f
		m.wpend = false
	}
	m.writer = true
	g.hb = g.hb.join(m.whb).join(m.rhb)
	g.dp = g.dp.join(m.wdp).join(m.rdp)
}

func (ex *Exec) wunlock(fr *frame, p *Value) {
	m := ex.rw(p)
	if !m.writer {
		ex.violation(fr, "fatal", "sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	g := fr.g
	m.whb, m.wdp = g.hb.clone(), g.dp.clone()
	ex.tick(g)
}

type wgSt struct {
	n       int64
	waiters []*G
	hb, dp  vc
}

func (ex *Exec) wg(p *Value) *wgSt {
	m := ex.wgs[p]
	if m == nil {
		m = &wgSt{}
		ex.wgs[p] = m
	}
	return m
}

func (ex *Exec) wgAdd(fr *frame, p *Value, d int64) {
	m := ex.wg(p)
	o := ex.oid(p)
	k := aAddPos
	if d < 0 {
		k = aAddNeg
	}
	ex.visible(fr, fmt.Sprintf("WaitGroup.Add(%d)", d), nil, access{o, k})
	g := fr.g
	ex.access(g, o, k)
	m.n += d
	if d < 0 {
		m.hb, m.dp = m.hb.join(g.hb), m.dp.join(g.dp)
		ex.tick(g)
	}
	if m.n < 0 {
		ex.userPanic(fr, "sync: negative WaitGroup counter")
	}
	if m.n == 0 {
		ws := m.waiters
		m.waiters = nil
		for _, x := range ws {
			x.hb = x.hb.join(m.hb)
			x.dp = x.dp.join(m.dp)
			ex.ready(x, g)
		}
	}
}

func (ex *Exec) wgWait(fr *frame, p *Value) {
	m := ex.wg(p)
	o := ex.oid(p)
	ex.visible(fr, "WaitGroup.Wait", nil, access{o, aWait})
	g := fr.g
	ex.access(g, o, aWait)
	if m.n == 0 {
		g.hb, g.dp = g.hb.join(m.hb), g.dp.join(m.dp)
		return
	}
	m.waiters = append(m.waiters, g)
	ex.park(fr, "WaitGroup.Wait")
}

type condSt struct{ waiters []*G }

func (ex *Exec) condWait(fr *frame, p *Value, unlock, lock func()) {
	m := ex.conds[p]
	if m == nil {
		m = &condSt{}
		ex.conds[p] = m
	}
	o := ex.oid(p)
	ex.visible(fr, "Cond.Wait", nil, access{o, aWrite})
	ex.access(fr.g, o, aWrite)
	m.waiters = append(m.waiters, fr.g)
	unlock()
	if fr.g.state == gRunning {
		still := false
		for _, x := range m.waiters {
			still = still || x == fr.g
		}
		if still {
			ex.park(fr, "Cond.Wait")
		}
	}
	lock()
}

func (ex *Exec) condSignal(fr *frame, p *Value, all bool) {
	o := ex.oid(p)
	ex.visible(fr, "Cond.Signal", nil, access{o, aWrite})
	ex.access(fr.g, o, aWrite)
	m := ex.conds[p]
	if m == nil {
		return
	}
	n := 1
	if all {
		n = len(m.waiters)
	}
	for i := 0; i < n && len(m.waiters) > 0; i++ {
		x := m.waiters[0]
		m.waiters = m.waiters[1:]
		if x.state == gParked {
			x.hb = x.hb.join(fr.g.hb)
			ex.ready(x, fr.g)
		}
	}
	ex.tick(fr.g)
}

// ---- atomics ----

type atomSt struct{ hb vc }

func (ex *Exec) atomic(fr *frame, p any, desc string, read, write bool) {
	k := aRead
	if write {
		k = aWrite
	}
	if ex.inInit > 0 {
		return
	}
	o := ex.oid(p)
	ex.visible(fr, desc, nil, access{o, k})
	if !ex.multi {
		return
	}
	g := fr.g
	ex.access(g, o, k)
	a := ex.atoms[p]
	if a == nil {
		a = &atomSt{}
		ex.atoms[p] = a
	}
	if read {
		g.hb = g.hb.join(a.hb)
	}
	if write {
		if read {
			a.hb = a.hb.join(g.hb)
		} else {
			a.hb = g.hb.clone()
		}
		ex.tick(g)
	}
}

// ---- channels ----

type Chan struct {
	cap    int
	zero   Value
	buf    []chanElem
	recvq  []*waiter
	sendq  []*waiter
	closed bool
	chb    vc
	cdp    vc
	nsend  int
	rclk   []vc // hb clocks of receives, in order
	rdp    []vc
	id     any
	tm     *Timer
	epoch  uint64
}

type chanElem struct {
	v      Value
	hb, dp vc
}

type waiter struct {
	g     *G
	idx   int
	v     Value
	fired *bool
	hb    vc
	dp    vc
}

func (ex *Exec) newChan(n int, z Value) *Chan {
	c := &Chan{cap: n, zero: z, epoch: ex.epoch}
	return c
}

func (ex *Exec) chkChan(c *Chan) {
	if c.epoch == 0 && ex.epoch != 0 {
		panic(unsupported("use of a channel created during initialisation"))
	}
}

func (ex *Exec) chid(c *Chan) any {
	return ex.oid(c)
}

func live(q []*waiter) []*waiter {
	out := q[:0]
	for _, w := range q {
		if !*w.fired {
			out = append(out, w)
		}
	}
	return out
}

// takeRecv removes a parked receiver (any of them, when several wait).
func (ex *Exec) takeRecv(fr *frame, c *Chan) *waiter {
	c.recvq = live(c.recvq)
	if len(c.recvq) == 0 {
		return nil
	}
	i := 0
	if len(c.recvq) > 1 {
		i = ex.choose(fr, len(c.recvq), "receiver")
	}
	w := c.recvq[i]
	c.recvq = append(append([]*waiter{}, c.recvq[:i]...), c.recvq[i+1:]...)
	*w.fired = true
	return w
}

func (ex *Exec) takeSend(c *Chan) *waiter {
	c.sendq = live(c.sendq)
	if len(c.sendq) == 0 {
		return nil
	}
	w := c.sendq[0]
	c.sendq = c.sendq[1:]
	*w.fired = true
	return w
}

// trySend performs a send if it can complete now.
func (ex *Exec) trySend(fr *frame, c *Chan, v Value) bool {
	g := fr.g
	if c.closed {
		ex.userPanicErr(fr, "send on closed channel")
	}
	if w := ex.takeRecv(fr, c); w != nil {
		w.g.parkIdx, w.g.parkVal, w.g.parkOK = w.idx, v, true
		gh := g.hb.clone()
		g.hb = g.hb.join(w.hb)
		w.g.hb = w.g.hb.join(gh)
		c.nsend++
		if c.cap > 0 {
			c.rclk, c.rdp = append(c.rclk, w.hb), append(c.rdp, w.dp)
		}
		ex.ready(w.g, g)
		ex.tick(g)
		return true
	}
	if len(c.buf) < c.cap {
		if k := c.nsend - c.cap; k >= 0 && k < len(c.rclk) {
			g.hb, g.dp = g.hb.join(c.rclk[k]), g.dp.join(c.rdp[k])
		}
		c.nsend++
		c.buf = append(c.buf, chanElem{v, g.hb.clone(), g.dp.clone()})
		ex.tick(g)
		return true
	}
	return false
}

func (ex *Exec) userPanicErr(fr *frame, msg string) {
	panic(goPanic{iface{ex.w.prog.rtErrT, msg}, fr.where()})
}

// tryRecv performs a receive if it can complete now.
func (ex *Exec) tryRecv(fr *frame, c *Chan) (v Value, ok, done bool) {
	g := fr.g
	if len(c.buf) > 0 {
		e := c.buf[0]
		c.buf = append([]chanElem{}, c.buf[1:]...)
		g.hb, g.dp = g.hb.join(e.hb), g.dp.join(e.dp)
		c.rclk, c.rdp = append(c.rclk, g.hb.clone()), append(c.rdp, g.dp.clone())
		ex.tick(g)
		if w := ex.takeSend(c); w != nil {
			w.g.hb = w.g.hb.join(c.rclk[len(c.rclk)-1])
			c.nsend++
			c.buf = append(c.buf, chanElem{w.v, w.hb, w.dp})
			w.g.parkIdx, w.g.parkOK = w.idx, true
			ex.ready(w.g, g)
		}
		return e.v, true, true
	}
	if w := ex.takeSend(c); w != nil { // unbuffered
		gh := g.hb.clone()
		g.hb, g.dp = g.hb.join(w.hb), g.dp.join(w.dp)
		w.g.hb = w.g.hb.join(gh)
		w.g.parkIdx, w.g.parkOK = w.idx, true
		c.nsend++
		ex.ready(w.g, g)
		ex.tick(g)
		return w.v, true, true
	}
	if c.closed {
		g.hb, g.dp = g.hb.join(c.chb), g.dp.join(c.cdp)
		return copyVal(c.zero), false, true
	}
	return nil, false, false
}

func (c *Chan) canSend() bool {
	if c.closed {
		return true
	}
	c.recvq = live(c.recvq)
	return len(c.recvq) > 0 || len(c.buf) < c.cap
}

func (c *Chan) canRecv() bool {
	if len(c.buf) > 0 || c.closed {
		return true
	}
	c.sendq = live(c.sendq)
	return len(c.sendq) > 0
}

func (c *Chan) drained() bool { return c.closed && len(c.buf) == 0 && len(live(c.sendq)) == 0 }

func (ex *Exec) chanSend(fr *frame, c *Chan, v Value) {
	if c == nil {
		ex.visible(fr, "send on nil channel", func() bool { return false })
		return
	}
	ex.chkChan(c)
	o := ex.chid(c)
	ex.visible(fr, "send", nil, access{o, aSend})
	g := fr.g
	ex.access(g, o, aSend)
	if ex.trySend(fr, c, v) {
		return
	}
	w := &waiter{g: g, v: v, fired: new(bool), hb: g.hb.clone(), dp: g.dp.clone()}
	ex.tick(g)
	c.sendq = append(c.sendq, w)
	ex.park(fr, "send")
}

func (ex *Exec) chanRecv(fr *frame, c *Chan, et types.Type) (Value, bool) {
	if c == nil {
		ex.visible(fr, "receive on nil channel", func() bool { return false })
		return nil, false
	}
	if !(c.epoch == 0 && c.closed) {
		ex.chkChan(c)
	}
	o := ex.chid(c)
	ex.visible(fr, "receive", nil, access{o, aRecv})
	g := fr.g
	if c.drained() {
		ex.access(g, o, aRecvC)
	} else {
		ex.access(g, o, aRecv)
	}
	if v, ok, done := ex.tryRecv(fr, c); done {
		return v, ok
	}
	w := &waiter{g: g, fired: new(bool), hb: g.hb.clone(), dp: g.dp.clone()}
	c.recvq = append(c.recvq, w)
	ex.park(fr, "receive")
	return g.parkVal, g.parkOK
}

func (ex *Exec) chanClose(fr *frame, c *Chan) {
	if c == nil {
		ex.userPanicErr(fr, "close of nil channel")
	}
	if ex.epoch == 0 {
		c.closed = true
		return
	}
	ex.chkChan(c)
	o := ex.chid(c)
	ex.visible(fr, "close", nil, access{o, aClose})
	g := fr.g
	ex.access(g, o, aClose)
	if c.closed {
		ex.userPanicErr(fr, "close of closed channel")
	}
	c.closed = true
	c.chb, c.cdp = g.hb.clone(), g.dp.clone()
	for _, w := range live(c.recvq) {
		*w.fired = true
		w.g.parkIdx, w.g.parkVal, w.g.parkOK = w.idx, copyVal(c.zero), false
		w.g.hb = w.g.hb.join(g.hb)
		ex.ready(w.g, g)
	}
	c.recvq = nil
	for _, w := range live(c.sendq) {
		*w.fired = true
		w.g.parkPanic = "send on closed channel"
		ex.ready(w.g, g)
	}
	c.sendq = nil
	ex.tick(g)
}

func (ex *Exec) chanLen(fr *frame, c *Chan) int {
	if c == nil {
		return 0
	}
	o := ex.chid(c)
	ex.visible(fr, "len(chan)", nil, access{o, aLen})
	ex.access(fr.g, o, aLen)
	return len(c.buf)
}

// fairCases are the ready cases that a select may choose: a case that was ready and not chosen for too many times
// in a row is chosen at last, as Go's select would with any probability one likes.
func (ex *Exec) fairCases(g *G, in *ssa.Select, ready []int) []int {
	if ex.cfg.Fair == 0 || len(ready) < 2 || g.starved == nil {
		return ready
	}
	n := g.starved[in]
	for _, i := range ready {
		if n != nil && n[i] >= ex.cfg.Fair {
			return []int{i}
		}
	}
	return ready
}

func (ex *Exec) chosenCase(g *G, in *ssa.Select, ready []int, chosen int) {
	if ex.cfg.Fair == 0 {
		return
	}
	if g.starved == nil {
		g.starved = map[*ssa.Select][]int{}
	}
	old := g.starved[in]
	n := make([]int, len(in.States))
	for _, i := range ready {
		if i != chosen {
			n[i] = 1
			if old != nil {
				n[i] += old[i]
			}
		}
	}
	g.starved[in] = n
}

func (ex *Exec) doSelect(fr *frame, in *ssa.Select, ci *cinstr) Value {
	g := fr.g
	n := len(in.States)
	chans := make([]*Chan, n)
	vals := make([]Value, n)
	var pred []access
	for i, s := range in.States {
		chans[i] = fr.val(&ci.ops[2*i]).(*Chan)
		if chans[i] == nil {
			continue
		}
		if !(chans[i].epoch == 0 && chans[i].closed) {
			ex.chkChan(chans[i])
		}
		if s.Dir == types.SendOnly {
			vals[i] = copyVal(fr.val(&ci.ops[2*i+1]))
			pred = append(pred, access{ex.chid(chans[i]), aSend}, access{ex.chid(chans[i]), aPollFull})
		} else {
			pred = append(pred, access{ex.chid(chans[i]), aRecv}, access{ex.chid(chans[i]), aPoll})
		}
	}
	ex.visible(fr, "select", nil, pred...)
	var ready []int
	for i, s := range in.States {
		c := chans[i]
		if c == nil {
			continue
		}
		if s.Dir == types.SendOnly && c.canSend() || s.Dir != types.SendOnly && c.canRecv() {
			ready = append(ready, i)
		}
	}
	chosen := -1
	if len(ready) > 0 {
		from := ex.fairCases(g, in, ready)
		chosen = from[ex.choose(fr, len(from), "select")]
		ex.chosenCase(g, in, ready, chosen)
	}
	isReady := func(i int) bool {
		for _, r := range ready {
			if r == i {
				return true
			}
		}
		return false
	}
	for i, s := range in.States {
		c := chans[i]
		if c == nil {
			continue
		}
		o := ex.chid(c)
		send := s.Dir == types.SendOnly
		switch {
		case i == chosen && send:
			ex.access(g, o, aSend)
		case i == chosen:
			if c.drained() {
				ex.access(g, o, aRecvC)
			} else {
				ex.access(g, o, aRecv)
			}
		case isReady(i):
			if send || !c.drained() {
				ex.access(g, o, aObs)
			}
		case send:
			ex.access(g, o, aPollFull)
		default:
			ex.access(g, o, aPoll)
		}
	}
	idx := chosen
	var rv Value
	rok := false
	switch {
	case chosen >= 0:
		if in.States[chosen].Dir == types.SendOnly {
			if !ex.trySend(fr, chans[chosen], vals[chosen]) {
				panic(engineErr("select send"))
			}
		} else {
			v, ok, done := ex.tryRecv(fr, chans[chosen])
			if !done {
				panic(engineErr("select receive"))
			}
			rv, rok = v, ok
		}
	case !in.Blocking:
		idx = -1
	default:
		fired := new(bool)
		any := false
		for i, s := range in.States {
			c := chans[i]
			if c == nil {
				continue
			}
			any = true
			w := &waiter{g: g, idx: i, v: vals[i], fired: fired, hb: g.hb.clone(), dp: g.dp.clone()}
			if s.Dir == types.SendOnly {
				c.sendq = append(c.sendq, w)
			} else {
				c.recvq = append(c.recvq, w)
			}
		}
		_ = any
		ex.tick(g)
		ex.park(fr, "select")
		idx = g.parkIdx
		rv, rok = g.parkVal, g.parkOK
	}
	res := tuple{uint64(int64(idx)), rok}
	for i, s := range in.States {
		if s.Dir == types.SendOnly {
			continue
		}
		if i == idx {
			res = append(res, rv)
		} else {
			res = append(res, zero(under(s.Chan.Type()).(*types.Chan).Elem()))
		}
	}
	if idx >= 0 && in.States[idx].Dir == types.SendOnly {
		res[1] = false
	}
	return res
}

// ---- data races ----

type shadow struct {
	wg   int32
	wclk int32
	wat  *cinstr
	wfn  *cfunc
	rd   []rdAcc
}
type rdAcc struct {
	g, clk int32
	at     *cinstr
	fn     *cfunc
}

func (ex *Exec) raceAccess(fr *frame, p *Value, write bool) {
	if ex.inInit > 0 {
		return
	}
	switch v := (*p).(type) {
	case structure:
		for i := range v {
			ex.raceAccess(fr, &v[i], write)
		}
		return
	case array:
		if len(v) <= 64 {
			for i := range v {
				ex.raceAccess(fr, &v[i], write)
			}
		}
		return
	}
	ex.raceObj(fr, p, write)
}

func (ex *Exec) raceMap(fr *frame, m *Map, write bool) {
	if !ex.raceOn || ex.inInit > 0 {
		return
	}
	ex.raceObj(fr, m, write)
}

func (ex *Exec) raceObj(fr *frame, p any, write bool) {
	g := fr.g
	if g.id < 0 {
		return
	}
	s := ex.shadow[p]
	if s == nil {
		s = &shadow{wg: -1}
		ex.shadow[p] = s
	}
	report := func(og int32, at *cinstr, fn *cfunc, k1 string) {
		k2 := "read"
		if write {
			k2 = "write"
		}
		a := k1 + " in " + fn.name
		b := k2 + " in " + fr.fn.name
		if a > b {
			a, b = b, a
		}
		v := &Violation{Kind: "data-race", Msg: a + " / " + b, Harness: ex.cfg.Harness, Params: ex.cfg.Params, Cfg: ex.cfg}
		v.Where = fr.where()
		v.Stack = fr.stack()
		v.Notes = append(v.Notes, fmt.Sprintf("other access by %s at %s", ex.gs[og].name, ex.w.prog.pos(at.in.Pos())))
		panic(violEnd{v})
	}
	if s.wg >= 0 && int(s.wg) != g.id && g.hb.get(int(s.wg)) < s.wclk {
		report(s.wg, s.wat, s.wfn, "write")
	}
	if write {
		for _, r := range s.rd {
			if int(r.g) != g.id && g.hb.get(int(r.g)) < r.clk {
				report(r.g, r.at, r.fn, "read")
			}
		}
		s.wg, s.wclk, s.wat, s.wfn = int32(g.id), g.hb[g.id], fr.cur, fr.fn
		s.rd = s.rd[:0]
		return
	}
	for i := range s.rd {
		if int(s.rd[i].g) == g.id {
			s.rd[i].clk, s.rd[i].at, s.rd[i].fn = g.hb[g.id], fr.cur, fr.fn
			return
		}
	}
	s.rd = append(s.rd, rdAcc{int32(g.id), g.hb[g.id], fr.cur, fr.fn})
}

// ---- time ----

type Timer struct {
	g      *G // pseudo goroutine that fires it
	ch     *Chan
	fn     *Closure // AfterFunc
	sleepG *G
	armed  bool
	when   Value // absolute ns
	period Value // ns; nil for one-shot
	hb     vc
	ptr    *Value
	due    bool
}

func (ex *Exec) newTimer(fr *frame, when Value) *Timer {
	t := &Timer{when: when, armed: true, hb: fr.g.hb.clone()}
	ex.setMulti()
	g := ex.newG(fmt.Sprintf("%d:timer", len(ex.gs)))
	g.state = gPending
	g.timer = t
	g.dp = fr.g.dp.clone().set(g.id, -1)
	g.desc = "timer fires"
	t.g = g
	g.pred = []access{{ex.oid(t), aWrite}}
	g.enabled = func() bool { return t.armed && t.due }
	ex.timers = append(ex.timers, t)
	ex.tick(fr.g)
	ex.markDue(t)
	return t
}

// markDue determines whether the deadline has been reached already.
func (ex *Exec) markDue(t *Timer) {
	t.due = ex.truth(ex.sle(t.when, ex.clock))
}

func (ex *Exec) sle(a, b Value) Value {
	x, ok1 := a.(uint64)
	y, ok2 := b.(uint64)
	if ok1 && ok2 {
		return int64(x) <= int64(y)
	}
	return ex.fromTerm(ex.tt().Sle(ex.toTerm(a, 64), ex.toTerm(b, 64)))
}

func (ex *Exec) addV(a, b Value) Value {
	x, ok1 := a.(uint64)
	y, ok2 := b.(uint64)
	if ok1 && ok2 {
		return x + y
	}
	return ex.fromTerm(ex.tt().Add(ex.toTerm(a, 64), ex.toTerm(b, 64)))
}

// advance moves the clock to the earliest deadline; false if no timer is armed.
func (ex *Exec) advance(cur *G) bool {
	var min *Timer
	for _, t := range ex.timers {
		if !t.armed {
			continue
		}
		if min == nil {
			min = t
			continue
		}
		if !ex.truth(ex.sle(min.when, t.when)) {
			min = t
		}
	}
	if min == nil {
		return false
	}
	ex.advances++
	lim := ex.cfg.Advances
	if lim == 0 {
		lim = 400
	}
	if strings.HasPrefix(ex.gs[0].desc, "Sleep") && ex.gs[0].state != gDone {
		lim *= 50 // the harness itself waits for time to pass
		if ex.advances > lim {
			panic(pathEnd{"incomplete: clock limit"})
		}
	}
	if ex.advances > lim {
		if ex.gs[0].state != gDone {
			ex.deadlock()
		}
		panic(pathEnd{"incomplete: clock limit"})
	}
	ex.clock = min.when
	var all vc
	for _, g := range ex.gs {
		all = all.join(g.dp)
	}
	for _, t := range ex.timers {
		if t.armed {
			ex.markDue(t)
			if t.due {
				t.g.dp = t.g.dp.join(all)
			}
		}
	}
	ex.dropTimers()
	return true
}

func (ex *Exec) dropTimers() {
	out := ex.timers[:0]
	for _, t := range ex.timers {
		if t.armed || t.ptr != nil {
			out = append(out, t)
		} else {
			t.g.state = gDone
		}
	}
	ex.timers = out
}

func (ex *Exec) fire(g *G) {
	t := g.timer
	o := ex.oid(t)
	ex.access(g, o, aWrite)
	g.hb = g.hb.join(t.hb)
	if t.period != nil {
		// next := when + period, skipping missed ticks (there are none: the clock stops at every deadline)
		t.when = ex.addV(t.when, t.period)
		ex.markDue(t)
	} else {
		t.armed, t.due = false, false
	}
	fr := &frame{ex: ex, g: g}
	switch {
	case t.sleepG != nil:
		t.sleepG.hb = t.sleepG.hb.join(t.hb)
		ex.ready(t.sleepG, g)
		g.state = gDone
	case t.fn != nil:
		ex.spawn(fr, t.fn, nil, "AfterFunc")
	case t.ch != nil:
		c := t.ch
		co := ex.chid(c)
		if c.canSend() {
			ex.access(g, co, aSend)
			ex.trySend(fr, c, ex.timeNow())
		} else {
			ex.access(g, co, aPollFull)
		}
	}
}

func (ex *Exec) sleepFor(fr *frame, d Value) {
	if ex.truth(ex.sle(d, uint64(0))) {
		return
	}
	t := ex.newTimer(fr, ex.addV(ex.clock, d))
	t.sleepG = fr.g
	ex.park(fr, "Sleep")
}

func (ex *Exec) stopTimer(fr *frame, t *Timer) bool {
	o := ex.oid(t)
	ex.visible(fr, "Timer.Stop", nil, access{o, aWrite})
	ex.access(fr.g, o, aWrite)
	was := t.armed
	t.armed, t.due = false, false
	if t.ch != nil && !ex.cfg.AsyncTime && len(t.ch.buf) > 0 {
		ex.access(fr.g, ex.chid(t.ch), aRecv)
		t.ch.buf = nil
		t.ch.rclk, t.ch.rdp = append(t.ch.rclk, fr.g.hb.clone()), append(t.ch.rdp, fr.g.dp.clone())
		was = true
	}
	return was
}

func (ex *Exec) resetTimer(fr *frame, t *Timer, d Value, period bool) bool {
	was := ex.stopTimer(fr, t)
	t.when = ex.addV(ex.clock, d)
	t.armed = true
	if period {
		t.period = d
	}
	t.hb = fr.g.hb.clone()
	ex.tick(fr.g)
	t.g.dp = t.g.dp.join(fr.g.dp)
	if t.g.state == gDone {
		t.g.state = gPending
		ex.timers = append(ex.timers, t)
	}
	ex.markDue(t)
	return was
}
