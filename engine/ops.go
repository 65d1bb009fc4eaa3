package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
)

func (fr *frame) binop(ci *cinstr, op token.Token, x, y Value) Value {
	ex := fr.ex
	switch op {
	case token.EQL:
		return ex.equal(fr, ci.t, x, y)
	case token.NEQ:
		v := ex.equal(fr, ci.t, x, y)
		if b, ok := v.(bool); ok {
			return !b
		}
		return ex.fromTerm(ex.tt().Not(v.(*Term)))
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		return fr.cmp(op, ci.kind, ci.w, ci.signed, x, y)
	}
	switch ci.kind {
	case kInt:
		xv, ok1 := x.(uint64)
		yv, ok2 := y.(uint64)
		if ok1 && ok2 {
			return fr.intop(op, ci, xv, yv)
		}
		return fr.symop(op, ci, x, y)
	case kString:
		if op == token.ADD {
			return ex.strConcat(fr, x, y)
		}
	case kFloat:
		a, b := x.(float64), y.(float64)
		var r float64
		switch op {
		case token.ADD:
			r = a + b
		case token.SUB:
			r = a - b
		case token.MUL:
			r = a * b
		case token.QUO:
			r = a / b
		}
		if bt, ok := under(ci.t).(*types.Basic); ok && bt.Kind() == types.Float32 {
			r = float64(float32(r))
		}
		return r
	case kBool:
		tt := ex.tt()
		switch op {
		case token.AND, token.LAND:
			return ex.fromTerm(tt.And(ex.toTerm(x, 0), ex.toTerm(y, 0)))
		case token.OR, token.LOR:
			return ex.fromTerm(tt.Or(ex.toTerm(x, 0), ex.toTerm(y, 0)))
		}
	case kComplex:
		a, b := x.(complex128), y.(complex128)
		switch op {
		case token.ADD:
			return a + b
		case token.SUB:
			return a - b
		case token.MUL:
			return a * b
		case token.QUO:
			return a / b
		}
	}
	panic(engineErr(fmt.Sprintf("binop %s kind %d %T %T at %s", op, ci.kind, x, y, fr.where())))
}

func (fr *frame) intop(op token.Token, ci *cinstr, x, y uint64) Value {
	w, m := ci.w, mask(ci.w)
	switch op {
	case token.ADD:
		return (x + y) & m
	case token.SUB:
		return (x - y) & m
	case token.MUL:
		return (x * y) & m
	case token.QUO:
		if y == 0 {
			fr.ex.rtPanic(fr, "integer divide by zero")
		}
		if ci.signed {
			a, b := sx(x, w), sx(y, w)
			if b == -1 {
				return uint64(-a) & m
			}
			return uint64(a/b) & m
		}
		return x / y
	case token.REM:
		if y == 0 {
			fr.ex.rtPanic(fr, "integer divide by zero")
		}
		if ci.signed {
			a, b := sx(x, w), sx(y, w)
			if b == -1 {
				return uint64(0)
			}
			return uint64(a%b) & m
		}
		return x % y
	case token.AND:
		return x & y
	case token.OR:
		return x | y
	case token.XOR:
		return x ^ y
	case token.AND_NOT:
		return x &^ y
	case token.SHL, token.SHR:
		yw, ys, _ := intInfo(ci.t2)
		sh := y
		if ys {
			if sx(y, yw) < 0 {
				fr.ex.rtPanic(fr, "negative shift amount")
			}
		}
		if op == token.SHL {
			if sh >= uint64(w) {
				return uint64(0)
			}
			return (x << sh) & m
		}
		if ci.signed {
			if sh >= uint64(w) {
				sh = uint64(w) - 1
			}
			return uint64(sx(x, w)>>sh) & m
		}
		if sh >= uint64(w) {
			return uint64(0)
		}
		return x >> sh
	}
	panic(engineErr("intop " + op.String()))
}

func (fr *frame) symop(op token.Token, ci *cinstr, xv, yv Value) Value {
	ex := fr.ex
	tt := ex.tt()
	w := ci.w
	x := ex.toTerm(xv, w)
	if op == token.SHL || op == token.SHR {
		yw, ys, _ := intInfo(ci.t2)
		y := ex.toTerm(yv, yw)
		if ys && !tt.nonneg(y) {
			if ex.branch(tt.Slt(y, tt.Const(yw, 0))) {
				ex.rtPanic(fr, "negative shift amount")
			}
		}
		// bring shift count to width w, saturating
		var sh *Term
		if yw <= w {
			sh = tt.Zext(y, w)
		} else {
			big := tt.Ule(tt.Const(yw, uint64(w)), y)
			sh = tt.Ite(big, tt.Const(w, uint64(w)), tt.Extract(y, w-1, 0))
		}
		if op == token.SHL {
			return ex.fromTerm(tt.Shl(x, sh))
		}
		if ci.signed {
			return ex.fromTerm(tt.AShr(x, sh))
		}
		return ex.fromTerm(tt.LShr(x, sh))
	}
	y := ex.toTerm(yv, w)
	var r *Term
	switch op {
	case token.ADD:
		r = tt.Add(x, y)
	case token.SUB:
		r = tt.Sub(x, y)
	case token.MUL:
		r = tt.Mul(x, y)
	case token.QUO, token.REM:
		if !y.isConst() || y.k == 0 {
			if ex.branch(tt.Eq(y, tt.Const(w, 0))) {
				ex.rtPanic(fr, "integer divide by zero")
			}
		}
		switch {
		case op == token.QUO && ci.signed:
			r = tt.SDiv(x, y)
		case op == token.QUO:
			r = tt.UDiv(x, y)
		case ci.signed:
			r = tt.SRem(x, y)
		default:
			r = tt.URem(x, y)
		}
	case token.AND:
		r = tt.BAnd(x, y)
	case token.OR:
		r = tt.BOr(x, y)
	case token.XOR:
		r = tt.BXor(x, y)
	case token.AND_NOT:
		r = tt.BAnd(x, tt.BNot(y))
	default:
		panic(engineErr("symop " + op.String()))
	}
	return ex.fromTerm(r)
}

func (fr *frame) cmp(op token.Token, kind, w uint8, signed bool, x, y Value) Value {
	ex := fr.ex
	switch kind {
	case kInt:
		xv, ok1 := x.(uint64)
		yv, ok2 := y.(uint64)
		if ok1 && ok2 {
			if signed {
				a, b := sx(xv, w), sx(yv, w)
				switch op {
				case token.LSS:
					return a < b
				case token.LEQ:
					return a <= b
				case token.GTR:
					return a > b
				default:
					return a >= b
				}
			}
			switch op {
			case token.LSS:
				return xv < yv
			case token.LEQ:
				return xv <= yv
			case token.GTR:
				return xv > yv
			default:
				return xv >= yv
			}
		}
		tt := ex.tt()
		a, b := ex.toTerm(x, w), ex.toTerm(y, w)
		if op == token.GTR || op == token.GEQ {
			a, b = b, a
		}
		strict := op == token.LSS || op == token.GTR
		switch {
		case signed && strict:
			return ex.fromTerm(tt.Slt(a, b))
		case signed:
			return ex.fromTerm(tt.Sle(a, b))
		case strict:
			return ex.fromTerm(tt.Ult(a, b))
		}
		return ex.fromTerm(tt.Ule(a, b))
	case kString:
		xs, ok1 := x.(string)
		ys, ok2 := y.(string)
		if ok1 && ok2 {
			c := strings.Compare(xs, ys)
			switch op {
			case token.LSS:
				return c < 0
			case token.LEQ:
				return c <= 0
			case token.GTR:
				return c > 0
			default:
				return c >= 0
			}
		}
		switch op {
		case token.LSS:
			return ex.fromTerm(ex.strLess(x, y, false))
		case token.LEQ:
			return ex.fromTerm(ex.strLess(x, y, true))
		case token.GTR:
			return ex.fromTerm(ex.strLess(y, x, false))
		default:
			return ex.fromTerm(ex.strLess(y, x, true))
		}
	case kFloat:
		a, b := x.(float64), y.(float64)
		switch op {
		case token.LSS:
			return a < b
		case token.LEQ:
			return a <= b
		case token.GTR:
			return a > b
		default:
			return a >= b
		}
	}
	panic(engineErr("cmp"))
}

// equal returns bool or *Term.
func (ex *Exec) equal(fr *frame, t types.Type, x, y Value) Value {
	switch a := x.(type) {
	case bool:
		if b, ok := y.(bool); ok {
			return a == b
		}
		return ex.fromTerm(ex.tt().Eq(ex.toTerm(x, 0), y.(*Term)))
	case uint64:
		if b, ok := y.(uint64); ok {
			return a == b
		}
		b := y.(*Term)
		return ex.fromTerm(ex.tt().Eq(ex.tt().Const(b.w, a), b))
	case *Term:
		return ex.fromTerm(ex.tt().Eq(a, ex.toTerm(y, a.w)))
	case string:
		if b, ok := y.(string); ok {
			return a == b
		}
		return ex.fromTerm(ex.strEq(x, y))
	case *SymStr, *Opaque:
		return ex.fromTerm(ex.strEq(x, y))
	case float64:
		return a == y.(float64)
	case complex128:
		return a == y.(complex128)
	case *Value:
		b, ok := y.(*Value)
		return ok && a == b
	case *symPtr:
		panic(unsupported("comparison of symbolic element address"))
	case *Chan:
		b, ok := y.(*Chan)
		return ok && a == b
	case *Map:
		b, ok := y.(*Map)
		return ok && a == b
	case *Closure:
		b, ok := y.(*Closure)
		return ok && a == b
	case []Value:
		b, ok := y.([]Value)
		return ok && (a == nil) == (b == nil) && a == nil
	case iface:
		b, ok := y.(iface)
		if !ok {
			panic(engineErr(fmt.Sprintf("iface compared with %T", y)))
		}
		if a.t != b.t {
			return false
		}
		if a.t == nil {
			return true
		}
		if !types.Comparable(a.t) {
			ex.rtPanic(fr, "comparing uncomparable type "+typeStr(a.t))
		}
		return ex.equal(fr, a.t, a.v, b.v)
	case structure:
		b := y.(structure)
		st := under(t).(*types.Struct)
		var acc Value = true
		for i := range a {
			if st.Field(i).Name() == "_" {
				continue
			}
			r := ex.equal(fr, st.Field(i).Type(), a[i], b[i])
			acc = ex.and(acc, r)
			if acc == false {
				return false
			}
		}
		return acc
	case array:
		b := y.(array)
		et := under(t).(*types.Array).Elem()
		var acc Value = true
		for i := range a {
			acc = ex.and(acc, ex.equal(fr, et, a[i], b[i]))
			if acc == false {
				return false
			}
		}
		return acc
	case nil:
		return isNilValue(y)
	}
	// opaque handles
	return x == y
}

func (ex *Exec) and(a, b Value) Value {
	if x, ok := a.(bool); ok {
		if !x {
			return false
		}
		return b
	}
	if y, ok := b.(bool); ok {
		if !y {
			return false
		}
		return a
	}
	return ex.fromTerm(ex.tt().And(a.(*Term), b.(*Term)))
}

// ---- maps ----

func (ex *Exec) touchMap(m *Map) {
	if m.epoch == ex.epoch || ex.epoch == 0 {
		return
	}
	// created before this path: snapshot for undo
	if ex.mapSnap == nil {
		ex.mapSnap = map[*Map]*Map{}
	}
	if _, ok := ex.mapSnap[m]; ok {
		return
	}
	c := &Map{epoch: m.epoch, nsym: m.nsym, live: m.live, idx: map[any]*mapEnt{}}
	for _, e := range m.ents {
		ne := &mapEnt{k: e.k, v: copyVal(e.v), dead: e.dead, sym: e.sym, hk: e.hk}
		c.ents = append(c.ents, ne)
		if !e.dead && !e.sym {
			c.idx[e.hk] = ne
		}
	}
	ex.mapSnap[m] = c
}

func (ex *Exec) checkHashable(fr *frame, k Value) {
	if i, ok := k.(iface); ok && i.t != nil && !types.Comparable(i.t) {
		ex.rtPanic(fr, "hash of unhashable type "+typeStr(i.t))
	}
}

// mapFind returns the entry for k (forking on symbolic key equality).
func (ex *Exec) mapFind(fr *frame, m *Map, k Value) *mapEnt {
	if m == nil {
		return nil
	}
	ex.checkHashable(fr, k)
	hk, conc := hashKey(k)
	if conc {
		if e := m.idx[hk]; e != nil {
			return e
		}
		if m.nsym == 0 {
			return nil
		}
		for _, e := range m.ents {
			if e.dead || !e.sym {
				continue
			}
			if ex.truth(ex.keyEq(fr, e.k, k)) {
				return e
			}
		}
		return nil
	}
	for _, e := range m.ents {
		if e.dead {
			continue
		}
		if ex.truth(ex.keyEq(fr, e.k, k)) {
			return e
		}
	}
	return nil
}

func (ex *Exec) keyEq(fr *frame, a, b Value) Value {
	if ia, ok := a.(iface); ok {
		ib := b.(iface)
		if ia.t != ib.t {
			return false
		}
		if ia.t == nil {
			return true
		}
		return ex.equal(fr, ia.t, ia.v, ib.v)
	}
	if sa, ok := a.(structure); ok {
		sb := b.(structure)
		var acc Value = true
		for i := range sa {
			acc = ex.and(acc, ex.keyEq(fr, sa[i], sb[i]))
			if acc == false {
				return false
			}
		}
		return acc
	}
	return ex.equal(fr, nil, a, b)
}

func (ex *Exec) mapSet(fr *frame, m *Map, k, v Value) {
	e := ex.mapFind(fr, m, k)
	ex.touchMap(m)
	if e != nil {
		e.v = v
		return
	}
	hk, conc := hashKey(k)
	e = &mapEnt{k: k, v: v, sym: !conc, hk: hk}
	m.ents = append(m.ents, e)
	m.live++
	if conc {
		m.idx[hk] = e
	} else {
		m.nsym++
	}
}

func (ex *Exec) mapDelete(fr *frame, m *Map, k Value) {
	e := ex.mapFind(fr, m, k)
	if e == nil {
		return
	}
	ex.touchMap(m)
	e.dead = true
	m.live--
	if e.sym {
		m.nsym--
	} else {
		delete(m.idx, e.hk)
	}
	if m.iters == 0 || len(m.ents) > 64 {
		j := 0
		out := make([]*mapEnt, 0, len(m.ents))
		for _, x := range m.ents {
			if !x.dead {
				out = append(out, x)
				j++
			}
		}
		m.ents = out
	}
}

func (fr *frame) lookup(ci *cinstr, commaOk bool, x, k Value) Value {
	ex := fr.ex
	if ci.kind == kString {
		return fr.strIndex(x, k)
	}
	m := x.(*Map)
	if m == nil {
		ex.checkHashable(fr, k)
	} else {
		ex.raceMap(fr, m, false)
	}
	e := ex.mapFind(fr, m, k)
	var v Value
	if e != nil {
		v = copyVal(e.v)
	} else {
		v = zero(ci.t)
	}
	if commaOk {
		return tuple{v, e != nil}
	}
	return v
}

type mapIter struct {
	m    *Map
	keys []*mapEnt
	i    int
	kind int
}
type strIter struct {
	s Value
	i int
}

func (fr *frame) rangeIter(ci *cinstr, x Value) Value {
	ex := fr.ex
	if ci.kind == kString {
		if _, ok := x.(string); !ok {
			x = ex.fixLen(fr, x)
		}
		return &strIter{s: x}
	}
	m := x.(*Map)
	it := &mapIter{m: m}
	if m != nil {
		ex.raceMap(fr, m, false)
		for _, e := range m.ents {
			if !e.dead {
				it.keys = append(it.keys, e)
			}
		}
		ex.permute(fr, it.keys)
	}
	return it
}

// permute chooses the iteration order of a map range.
func (ex *Exec) permute(fr *frame, ks []*mapEnt) {
	n := len(ks)
	if n < 2 || ex.epoch == 0 {
		return
	}
	switch ex.cfg.MapOrder {
	case "insertion":
		return
	case "all":
		if n <= ex.cfg.permMax() {
			for i := 0; i < n-1; i++ {
				j := i + ex.choose(fr, n-i, "maporder")
				ks[i], ks[j] = ks[j], ks[i]
			}
			return
		}
		fallthrough
	case "both": // decided per range
		if ex.choose(fr, 2, "maporder") == 1 {
			for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
				ks[i], ks[j] = ks[j], ks[i]
			}
		}
	default: // one direction for the whole path
		if ex.mapDir == 0 {
			ex.mapDir = 1 + ex.choose(fr, 2, "maporder")
		}
		if ex.mapDir == 2 {
			for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
				ks[i], ks[j] = ks[j], ks[i]
			}
		}
	}
}
