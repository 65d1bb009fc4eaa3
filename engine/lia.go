package main

import (
	"fmt"
	"os"
	"strconv"
	"strings"
)

// Constraints that are linear over the integers, and in which nothing can wrap around, are given to the
// solver as integer arithmetic (QF_LIA), which decides comparisons of clocks and durations much faster
// than bit-vectors do. Everything else is decided as bit-vectors.

const linMax = int64(1) << 61

// linear tells whether t can be read over the integers; slo and shi bound its signed value.
func (t *Term) linear() bool {
	if t.lin == 0 {
		t.lin = 2
		if t.linCalc() {
			t.lin = 1
		}
	}
	return t.lin == 1
}

func (t *Term) linCalc() bool {
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil && !x.linear() {
			return false
		}
	}
	bound := func(lo, hi int64) bool {
		if lo < -linMax || hi > linMax {
			return false
		}
		if t.w < 64 {
			// narrower values are kept unsigned
			if lo < 0 || uint64(hi) > mask(t.w) {
				return false
			}
		}
		t.slo, t.shi = lo, hi
		return true
	}
	switch t.op {
	case OConst:
		if t.w == 0 {
			return true
		}
		return bound(int64(t.k), int64(t.k))
	case OVar:
		if t.w == 0 {
			return true
		}
		if t.hi > uint64(linMax) {
			return false
		}
		return bound(int64(t.lo), int64(t.hi))
	case ONot, OAnd, OOr:
		return t.w == 0
	case OIte:
		if t.w == 0 {
			return true
		}
		return bound(min(t.b.slo, t.c.slo), max(t.b.shi, t.c.shi))
	case OEq:
		return true
	case OAdd:
		return bound(t.a.slo+t.b.slo, t.a.shi+t.b.shi)
	case OSub:
		return bound(t.a.slo-t.b.shi, t.a.shi-t.b.slo)
	case OMul:
		x, c := t.a, t.b
		if x.isConst() {
			x, c = c, x
		}
		if !c.isConst() || c.slo < 0 || c.slo > 0 && (x.slo < -linMax/c.slo || x.shi > linMax/c.slo) {
			return false
		}
		return bound(x.slo*c.slo, x.shi*c.slo)
	case OUlt, OUle:
		return t.a.slo >= 0 && t.b.slo >= 0
	case OSlt, OSle:
		return t.a.w == 64
	case OZext:
		return bound(t.a.slo, t.a.shi)
	}
	return false
}

func (s *Solver) linVars(t *Term) []*Term {
	if t == nil {
		return nil
	}
	if l, ok := s.varMemo[t]; ok {
		return l
	}
	var l []*Term
	if t.op == OVar {
		if t.w > 0 {
			l = []*Term{t}
		}
	} else {
		seen := map[*Term]bool{}
		for _, c := range []*Term{t.a, t.b, t.c} {
			for _, x := range s.linVars(c) {
				if !seen[x] {
					seen[x] = true
					l = append(l, x)
				}
			}
		}
	}
	s.varMemo[t] = l
	return l
}

// assertBounds states the ranges of the variables of t, at the current level.
func (s *Solver) assertBounds(t *Term, level int) {
	for _, v := range s.linVars(t) {
		if _, ok := s.bounds[v]; ok {
			continue
		}
		s.bounds[v] = level
		r := s.ref(v)
		fmt.Fprintf(s, "(assert (and (<= %d %s) (<= %s %d)))\n", v.lo, r, r, v.hi)
	}
}

var intOp = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=", OAdd: "+", OSub: "-", OMul: "*",
	OUlt: "<", OUle: "<=", OSlt: "<", OSle: "<="}

func (s *Solver) defineInt(t *Term) {
	if t == nil || t.op == OConst || t.emitInt == s.gen {
		return
	}
	t.emitInt = s.gen
	sort := "Int"
	if t.w == 0 {
		sort = "Bool"
	}
	s.defs++
	if t.op == OVar {
		s.write("(declare-const |" + t.name + "| " + sort + ")\n")
		return
	}
	s.defineInt(t.a)
	s.defineInt(t.b)
	s.defineInt(t.c)
	var b strings.Builder
	b.WriteString("(define-fun t" + strconv.Itoa(int(t.id)) + " () " + sort + " ")
	if t.op == OZext {
		b.WriteString(s.ref(t.a))
	} else {
		b.WriteString("(" + intOp[t.op])
		for _, x := range []*Term{t.a, t.b, t.c} {
			if x != nil {
				b.WriteString(" " + s.ref(x))
			}
		}
		b.WriteString(")")
	}
	b.WriteString(")\n")
	s.write(b.String())
}

// Deciders route each query to the integer or the bit-vector process.
type Deciders struct {
	bv, lia *Solver
}

func NewDeciders(tt *Terms, bin string, timeoutMs int) *Deciders {
	d := &Deciders{bv: NewSolver(tt, bin, timeoutMs), lia: NewSolver(tt, bin, timeoutMs)}
	d.lia.ints = true
	return d
}

func (d *Deciders) Close() { d.bv.Close(); d.lia.Close() }

func (d *Deciders) Check(pc []*Term, extra *Term, vars []*Term) (satRes, map[string]uint64) {
	ok := extra.linear()
	for i := 0; ok && i < len(pc); i++ {
		ok = pc[i].linear()
	}
	if !ok {
		if dbgLin {
			for _, t := range append(append([]*Term(nil), pc...), extra) {
				if !t.linear() {
					fmt.Println("NONLIN", t.str(0))
				}
			}
		}
		return d.bv.Check(pc, extra, vars)
	}
	// variables that occur in no constraint may have any value in their range
	use := map[*Term]bool{}
	for _, c := range pc {
		for _, v := range d.lia.linVars(c) {
			use[v] = true
		}
	}
	for _, v := range d.lia.linVars(extra) {
		use[v] = true
	}
	var vs []*Term
	for _, v := range vars {
		if v.w == 0 || use[v] {
			vs = append(vs, v)
		}
	}
	res, m := d.lia.Check(pc, extra, vs)
	if res == resSat {
		for _, v := range vars {
			if _, ok := m[v.name]; !ok {
				m[v.name] = v.lo
			}
		}
	}
	return res, m
}

var dbgLin = os.Getenv("GOSYMX_NONLIN") != ""
