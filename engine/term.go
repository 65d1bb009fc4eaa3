package main

import (
	"fmt"
	"math/bits"
	"strconv"
	"strings"
)

// Terms are hash-consed bit-vector / boolean expressions. w==0 means Bool.
type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OIte
	OEq
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OShl
	OLShr
	OAShr
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OUlt
	OUle
	OSlt
	OSle
	OConcat
	OExtract // k = hi<<8|lo
	OZext
	OSext
)

var smtOp = [...]string{"", "", "not", "and", "or", "ite", "=", "bvadd", "bvsub", "bvmul", "bvudiv", "bvurem", "bvsdiv", "bvsrem",
	"bvshl", "bvlshr", "bvashr", "bvand", "bvor", "bvxor", "bvnot", "bvneg", "bvult", "bvule", "bvslt", "bvsle", "concat", "", "", ""}

type Term struct {
	op      Op
	w       uint8
	a, b, c *Term
	k       uint64
	id      int32
	name    string
	lo, hi  uint64 // unsigned range for BV

	lin      uint8 // can be read over the integers: 1 yes, 2 no
	slo, shi int64
	emitInt  uint32
	emitted  uint32 // solver generation in which it was defined
	evGen    uint64
	evVal    uint64
	nvars    int32
	div      bool // contains a division by a constant
}

type termKey struct {
	op      Op
	w       uint8
	a, b, c int32
	k       uint64
	name    string
}

type Terms struct {
	tab   map[termKey]*Term
	n     int32
	T, F  *Term
	evGen uint64
	// pathRange gives path-specific bounds learned from asserted constraints
	pathRange map[*Term][2]uint64
	// timeOf maps the seconds of an instant to its nanoseconds since the simulation's epoch
	timeOf map[[2]*Term]*Term
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func NewTerms() *Terms {
	t := &Terms{tab: map[termKey]*Term{}, pathRange: map[*Term][2]uint64{}, timeOf: map[[2]*Term]*Term{}}
	t.T = t.mk(OConst, 0, nil, nil, nil, 1, "")
	t.F = t.mk(OConst, 0, nil, nil, nil, 0, "")
	return t
}

func tid(t *Term) int32 {
	if t == nil {
		return -1
	}
	return t.id
}

func (tt *Terms) mk(op Op, w uint8, a, b, c *Term, k uint64, name string) *Term {
	key := termKey{op, w, tid(a), tid(b), tid(c), k, name}
	if t, ok := tt.tab[key]; ok {
		return t
	}
	t := &Term{op: op, w: w, a: a, b: b, c: c, k: k, name: name, id: tt.n}
	tt.n++
	t.div = isDivC(t) || a != nil && a.div || b != nil && b.div || c != nil && c.div
	tt.tab[key] = t
	if w > 0 {
		t.lo, t.hi = tt.rangeOf(t)
	}
	return t
}

// isDivC: unsigned division or remainder by a non-zero constant.
func isDivC(t *Term) bool {
	return (t.op == OUDiv || t.op == OURem) && t.b.op == OConst && t.b.k != 0
}

func (tt *Terms) Const(w uint8, v uint64) *Term {
	if w == 0 {
		if v != 0 {
			return tt.T
		}
		return tt.F
	}
	return tt.mk(OConst, w, nil, nil, nil, v&mask(w), "")
}
func (tt *Terms) Bool(b bool) *Term {
	if b {
		return tt.T
	}
	return tt.F
}

// Var makes a variable with an (asserted elsewhere) unsigned range.
func (tt *Terms) Var(name string, w uint8, lo, hi uint64) *Term {
	key := termKey{OVar, w, -1, -1, -1, 0, name}
	if t, ok := tt.tab[key]; ok {
		return t
	}
	t := &Term{op: OVar, w: w, name: name, id: tt.n, lo: lo, hi: hi}
	tt.n++
	tt.tab[key] = t
	return t
}

func (t *Term) isConst() bool { return t.op == OConst }

func (tt *Terms) rng(t *Term) (uint64, uint64) {
	lo, hi := t.lo, t.hi
	if r, ok := tt.pathRange[t]; ok {
		if r[0] > lo {
			lo = r[0]
		}
		if r[1] < hi {
			hi = r[1]
		}
	}
	return lo, hi
}

// rangeOf computes the intrinsic unsigned range (path independent).
func (tt *Terms) rangeOf(t *Term) (uint64, uint64) {
	m := mask(t.w)
	switch t.op {
	case OConst:
		return t.k, t.k
	case OIte:
		return min(t.b.lo, t.c.lo), max(t.b.hi, t.c.hi)
	case OAdd:
		hi, c := bits.Add64(t.a.hi, t.b.hi, 0)
		if c == 0 && hi <= m {
			return t.a.lo + t.b.lo, hi
		}
	case OSub:
		if t.a.lo >= t.b.hi {
			return t.a.lo - t.b.hi, t.a.hi - t.b.lo
		}
	case OMul:
		h, l := bits.Mul64(t.a.hi, t.b.hi)
		if h == 0 && l <= m {
			return t.a.lo * t.b.lo, l
		}
	case OUDiv:
		if t.b.lo > 0 {
			return t.a.lo / t.b.hi, t.a.hi / t.b.lo
		}
	case OURem:
		if t.b.hi > 0 && t.b.lo > 0 {
			return 0, min(t.a.hi, t.b.hi-1)
		}
	case OBAnd:
		return 0, min(t.a.hi, t.b.hi)
	case OBOr:
		hb := max(t.a.hi, t.b.hi)
		n := bits.Len64(hb)
		return max(t.a.lo, t.b.lo), mask(uint8(n)) | hb
	case OBXor:
		n := bits.Len64(max(t.a.hi, t.b.hi))
		return 0, mask(uint8(n))
	case OLShr:
		if t.b.isConst() {
			if t.b.k >= uint64(t.w) {
				return 0, 0
			}
			return t.a.lo >> t.b.k, t.a.hi >> t.b.k
		}
		return 0, t.a.hi
	case OShl:
		if t.b.isConst() && t.b.k < uint64(t.w) {
			if bits.Len64(t.a.hi)+int(t.b.k) <= int(t.w) {
				return t.a.lo << t.b.k, t.a.hi << t.b.k
			}
		}
	case OZext:
		return t.a.lo, t.a.hi
	case OSext:
		if t.a.hi < uint64(1)<<(t.a.w-1) {
			return t.a.lo, t.a.hi
		}
	case OExtract:
		lo := uint8(t.k)
		if lo == 0 && t.a.hi <= m {
			return t.a.lo, t.a.hi
		}
		if lo > 0 && t.a.hi>>lo <= m {
			return t.a.lo >> lo, t.a.hi >> lo
		}
	case OConcat:
		return t.a.lo<<t.b.w | t.b.lo, t.a.hi<<t.b.w | t.b.hi
	}
	return 0, m
}

func sx(v uint64, w uint8) int64 {
	s := 64 - w
	return int64(v<<s) >> s
}

func (tt *Terms) Not(a *Term) *Term {
	switch a.op {
	case OConst:
		return tt.Bool(a.k == 0)
	case ONot:
		return a.a
	case OUlt:
		return tt.Ule(a.b, a.a)
	case OUle:
		return tt.Ult(a.b, a.a)
	case OSlt:
		return tt.Sle(a.b, a.a)
	case OSle:
		return tt.Slt(a.b, a.a)
	}
	return tt.mk(ONot, 0, a, nil, nil, 0, "")
}

func (tt *Terms) And(a, b *Term) *Term {
	if a == tt.F || b == tt.F {
		return tt.F
	}
	if a == tt.T {
		return b
	}
	if b == tt.T || a == b {
		return a
	}
	if tt.Not(a) == b {
		return tt.F
	}
	if b.op == OAnd && (b.a == a || b.b == a) {
		return b
	}
	if a.op == OAnd && (a.a == b || a.b == b) {
		return a
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tt.mk(OAnd, 0, a, b, nil, 0, "")
}

func (tt *Terms) Or(a, b *Term) *Term {
	if a == tt.T || b == tt.T {
		return tt.T
	}
	if a == tt.F {
		return b
	}
	if b == tt.F || a == b {
		return a
	}
	if tt.Not(a) == b {
		return tt.T
	}
	if b.op == OOr && (b.a == a || b.b == a) {
		return b
	}
	if a.op == OOr && (a.a == b || a.b == b) {
		return a
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tt.mk(OOr, 0, a, b, nil, 0, "")
}

func (tt *Terms) Ite(c, a, b *Term) *Term {
	if c == tt.T {
		return a
	}
	if c == tt.F {
		return b
	}
	if a == b {
		return a
	}
	if c.op == ONot {
		return tt.Ite(c.a, b, a)
	}
	if a.w == 0 {
		switch {
		case a == tt.T && b == tt.F:
			return c
		case a == tt.F && b == tt.T:
			return tt.Not(c)
		case a == tt.T:
			return tt.Or(c, b)
		case a == tt.F:
			return tt.And(tt.Not(c), b)
		case b == tt.T:
			return tt.Or(tt.Not(c), a)
		case b == tt.F:
			return tt.And(c, a)
		}
	}
	return tt.mk(OIte, a.w, c, a, b, 0, "")
}

func (tt *Terms) Eq(a, b *Term) *Term {
	if a == b {
		return tt.T
	}
	if a.isConst() && b.isConst() {
		return tt.Bool(a.k == b.k)
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.w == 0 {
		if b == tt.T {
			return a
		}
		if b == tt.F {
			return tt.Not(a)
		}
		if tt.Not(a) == b {
			return tt.F
		}
	} else {
		if a.w != b.w {
			panic(fmt.Sprintf("eq width mismatch %d %d", a.w, b.w))
		}
		al, ah := tt.rng(a)
		bl, bh := tt.rng(b)
		if ah < bl || bh < al {
			return tt.F
		}
		if b.isConst() {
			switch a.op {
			case OIte:
				if a.b.isConst() && a.c.isConst() {
					t, f := a.b.k == b.k, a.c.k == b.k
					switch {
					case t && f:
						return tt.T
					case t:
						return a.a
					case f:
						return tt.Not(a.a)
					default:
						return tt.F
					}
				}
				if a.b.isConst() || a.c.isConst() {
					return tt.Ite(a.a, tt.Eq(a.b, b), tt.Eq(a.c, b))
				}
			case OAdd:
				if a.b.isConst() {
					return tt.Eq(a.a, tt.Const(a.w, b.k-a.b.k))
				}
			case OMul:
				if a.b.isConst() && a.b.k != 0 {
					_, hi := tt.rng(a.a)
					if noOvMul(a.a, a.b.k, a.w, hi) {
						if b.k%a.b.k != 0 {
							return tt.F
						}
						return tt.Eq(a.a, tt.Const(a.w, b.k/a.b.k))
					}
				}
			case OZext:
				if b.k > mask(a.a.w) {
					return tt.F
				}
				return tt.Eq(a.a, tt.Const(a.a.w, b.k))
			case OConcat:
				return tt.And(tt.Eq(a.a, tt.Const(a.a.w, b.k>>a.b.w)), tt.Eq(a.b, tt.Const(a.b.w, b.k)))
			}
		} else {
			if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
				return tt.Eq(a.a, b.a)
			}
			if a.op == OConcat && b.op == OConcat && a.a.w == b.a.w {
				return tt.And(tt.Eq(a.a, b.a), tt.Eq(a.b, b.b))
			}
			if a.op == OAdd && b.op == OAdd && a.b == b.b && a.b.isConst() {
				return tt.Eq(a.a, b.a)
			}
		}
	}
	if a.id > b.id && !b.isConst() {
		a, b = b, a
	}
	return tt.mk(OEq, 0, a, b, nil, 0, "")
}

func (tt *Terms) Add(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return tt.Const(a.w, a.k+b.k)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.k == 0 {
			return a
		}
		if a.op == OAdd && a.b.isConst() {
			return tt.Add(a.a, tt.Const(a.w, a.b.k+b.k))
		}
		return tt.mk(OAdd, a.w, a, b, nil, 0, "")
	}
	// push constants outward
	if a.op == OAdd && a.b.isConst() {
		return tt.Add(tt.Add(a.a, b), a.b)
	}
	if b.op == OAdd && b.b.isConst() {
		return tt.Add(tt.Add(a, b.a), b.b)
	}
	// (x/c)*c + x%c -> x
	if r := tt.divmod(a, b); r != nil {
		return r
	}
	if r := tt.divmod(b, a); r != nil {
		return r
	}
	if a.op == OSub && a.b == b {
		return a.a
	}
	if b.op == OSub && b.b == a {
		return b.a
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tt.mk(OAdd, a.w, a, b, nil, 0, "")
}

func (tt *Terms) divmod(m, r *Term) *Term {
	if m.op == OMul && m.b.isConst() && r.op == OURem && r.b == m.b && m.a.op == OUDiv && m.a.b == m.b && m.a.a == r.a {
		return r.a
	}
	return nil
}

func (tt *Terms) Sub(a, b *Term) *Term {
	if a == b {
		return tt.Const(a.w, 0)
	}
	if b.isConst() {
		return tt.Add(a, tt.Const(a.w, -b.k))
	}
	if a.isConst() && b.isConst() {
		return tt.Const(a.w, a.k-b.k)
	}
	// (x+y)-y
	if a.op == OAdd {
		if a.a == b {
			return a.b
		}
		if a.b == b {
			return a.a
		}
		if a.b.isConst() {
			return tt.Add(tt.Sub(a.a, b), a.b)
		}
	}
	if b.op == OAdd && b.b.isConst() {
		return tt.Add(tt.Sub(a, b.a), tt.Const(a.w, -b.b.k))
	}
	return tt.mk(OSub, a.w, a, b, nil, 0, "")
}

func (tt *Terms) Mul(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return tt.Const(a.w, a.k*b.k)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		switch b.k {
		case 0:
			return b
		case 1:
			return a
		}
		if a.op == OMul && a.b.isConst() {
			return tt.Mul(a.a, tt.Const(a.w, a.b.k*b.k))
		}
		return tt.mk(OMul, a.w, a, b, nil, 0, "")
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tt.mk(OMul, a.w, a, b, nil, 0, "")
}

func noOvMul(a *Term, c uint64, w uint8, hi uint64) bool {
	h, l := bits.Mul64(hi, c)
	return h == 0 && l <= mask(w)
}

// splitMulC recognises x*c + y with y<c without overflow; returns x,y (y may be nil)
func (tt *Terms) splitMulC(a *Term, c uint64) (x, y *Term, ok bool) {
	isM := func(t *Term) bool {
		if t.op == OMul && t.b.isConst() && t.b.k == c {
			_, hi := tt.rng(t.a)
			return noOvMul(t.a, c, t.w, hi)
		}
		return false
	}
	if isM(a) {
		return a.a, nil, true
	}
	if a.op == OAdd {
		for _, p := range [][2]*Term{{a.a, a.b}, {a.b, a.a}} {
			if isM(p[0]) {
				_, yh := tt.rng(p[1])
				_, xh := tt.rng(p[0])
				if yh < c {
					s, cr := bits.Add64(xh, yh, 0)
					_, ah := tt.rng(p[0].a)
					h, l := bits.Mul64(ah, c)
					if h == 0 {
						s, cr = bits.Add64(l, yh, 0)
					}
					if cr == 0 && s <= mask(a.w) {
						return p[0].a, p[1], true
					}
				}
			}
		}
	}
	return nil, nil, false
}

func (tt *Terms) UDiv(a, b *Term) *Term {
	if b.isConst() && b.k != 0 {
		if a.isConst() {
			return tt.Const(a.w, a.k/b.k)
		}
		if b.k == 1 {
			return a
		}
		if x, _, ok := tt.splitMulC(a, b.k); ok {
			return x
		}
		_, ah := tt.rng(a)
		if ah < b.k {
			return tt.Const(a.w, 0)
		}
		if bits.OnesCount64(b.k) == 1 {
			return tt.LShr(a, tt.Const(a.w, uint64(bits.TrailingZeros64(b.k))))
		}
	}
	return tt.mk(OUDiv, a.w, a, b, nil, 0, "")
}

func (tt *Terms) URem(a, b *Term) *Term {
	if b.isConst() && b.k != 0 {
		if a.isConst() {
			return tt.Const(a.w, a.k%b.k)
		}
		if b.k == 1 {
			return tt.Const(a.w, 0)
		}
		_, ah := tt.rng(a)
		if ah < b.k {
			return a
		}
		if _, y, ok := tt.splitMulC(a, b.k); ok {
			if y == nil {
				return tt.Const(a.w, 0)
			}
			return y
		}
		if bits.OnesCount64(b.k) == 1 {
			return tt.BAnd(a, tt.Const(a.w, b.k-1))
		}
	}
	return tt.mk(OURem, a.w, a, b, nil, 0, "")
}

func (tt *Terms) nonneg(a *Term) bool {
	_, hi := tt.rng(a)
	return hi < uint64(1)<<(a.w-1)
}

func (tt *Terms) SDiv(a, b *Term) *Term {
	if a.isConst() && b.isConst() && b.k != 0 {
		if sx(b.k, b.w) == -1 {
			return tt.Const(a.w, -a.k)
		}
		return tt.Const(a.w, uint64(sx(a.k, a.w)/sx(b.k, b.w)))
	}
	if tt.nonneg(a) && tt.nonneg(b) {
		return tt.UDiv(a, b)
	}
	if b.isConst() && sx(b.k, b.w) > 0 {
		neg := tt.Slt(a, tt.Const(a.w, 0))
		return tt.Ite(neg, tt.Neg(tt.UDiv(tt.Neg(a), b)), tt.UDiv(a, b))
	}
	return tt.mk(OSDiv, a.w, a, b, nil, 0, "")
}

func (tt *Terms) SRem(a, b *Term) *Term {
	if a.isConst() && b.isConst() && b.k != 0 {
		if sx(b.k, b.w) == -1 {
			return tt.Const(a.w, 0)
		}
		return tt.Const(a.w, uint64(sx(a.k, a.w)%sx(b.k, b.w)))
	}
	if tt.nonneg(a) && tt.nonneg(b) {
		return tt.URem(a, b)
	}
	if b.isConst() && sx(b.k, b.w) > 0 {
		neg := tt.Slt(a, tt.Const(a.w, 0))
		return tt.Ite(neg, tt.Neg(tt.URem(tt.Neg(a), b)), tt.URem(a, b))
	}
	return tt.mk(OSRem, a.w, a, b, nil, 0, "")
}

func (tt *Terms) Shl(a, b *Term) *Term {
	if b.isConst() {
		if b.k == 0 {
			return a
		}
		if b.k >= uint64(a.w) {
			return tt.Const(a.w, 0)
		}
		if a.isConst() {
			return tt.Const(a.w, a.k<<b.k)
		}
	}
	return tt.mk(OShl, a.w, a, b, nil, 0, "")
}
func (tt *Terms) LShr(a, b *Term) *Term {
	if b.isConst() {
		if b.k == 0 {
			return a
		}
		if b.k >= uint64(a.w) {
			return tt.Const(a.w, 0)
		}
		if a.isConst() {
			return tt.Const(a.w, a.k>>b.k)
		}
		if _, hi := tt.rng(a); hi>>b.k == 0 {
			return tt.Const(a.w, 0)
		}
		if a.op == OConcat && b.k == uint64(a.b.w) {
			return tt.Zext(a.a, a.w)
		}
	}
	return tt.mk(OLShr, a.w, a, b, nil, 0, "")
}
func (tt *Terms) AShr(a, b *Term) *Term {
	if tt.nonneg(a) {
		return tt.LShr(a, b)
	}
	if b.isConst() {
		if b.k == 0 {
			return a
		}
		k := b.k
		if k >= uint64(a.w) {
			k = uint64(a.w) - 1
		}
		if a.isConst() {
			return tt.Const(a.w, uint64(sx(a.k, a.w)>>k))
		}
	}
	return tt.mk(OAShr, a.w, a, b, nil, 0, "")
}
func (tt *Terms) BAnd(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.isConst() && b.isConst() {
		return tt.Const(a.w, a.k&b.k)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.k == 0 {
			return b
		}
		if b.k == mask(a.w) {
			return a
		}
		_, hi := tt.rng(a)
		if b.k&(b.k+1) == 0 && hi <= b.k {
			return a
		}
		// bits disjoint from range
		if n := bits.Len64(hi); n < 64 && b.k>>uint(n) != 0 && b.k&mask(uint8(n)) == 0 {
			return tt.Const(a.w, 0)
		}
		if a.op == OBAnd && a.b.isConst() {
			return tt.BAnd(a.a, tt.Const(a.w, a.b.k&b.k))
		}
		if a.op == OBOr && a.b.isConst() {
			return tt.BOr(tt.BAnd(a.a, b), tt.Const(a.w, a.b.k&b.k))
		}
		return tt.mk(OBAnd, a.w, a, b, nil, 0, "")
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tt.mk(OBAnd, a.w, a, b, nil, 0, "")
}
func (tt *Terms) BOr(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.isConst() && b.isConst() {
		return tt.Const(a.w, a.k|b.k)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.k == 0 {
			return a
		}
		if b.k == mask(a.w) {
			return b
		}
		return tt.mk(OBOr, a.w, a, b, nil, 0, "")
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tt.mk(OBOr, a.w, a, b, nil, 0, "")
}
func (tt *Terms) BXor(a, b *Term) *Term {
	if a == b {
		return tt.Const(a.w, 0)
	}
	if a.isConst() && b.isConst() {
		return tt.Const(a.w, a.k^b.k)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() && b.k == 0 {
		return a
	}
	if b.isConst() && b.k == mask(a.w) {
		return tt.BNot(a)
	}
	return tt.mk(OBXor, a.w, a, b, nil, 0, "")
}
func (tt *Terms) BNot(a *Term) *Term {
	if a.isConst() {
		return tt.Const(a.w, ^a.k)
	}
	if a.op == OBNot {
		return a.a
	}
	return tt.mk(OBNot, a.w, a, nil, nil, 0, "")
}
func (tt *Terms) Neg(a *Term) *Term {
	if a.isConst() {
		return tt.Const(a.w, -a.k)
	}
	if a.op == ONeg {
		return a.a
	}
	return tt.mk(ONeg, a.w, a, nil, nil, 0, "")
}
func (tt *Terms) Ult(a, b *Term) *Term {
	if a == b {
		return tt.F
	}
	if a.isConst() && b.isConst() {
		return tt.Bool(a.k < b.k)
	}
	al, ah := tt.rng(a)
	bl, bh := tt.rng(b)
	if ah < bl {
		return tt.T
	}
	if al >= bh {
		return tt.F
	}
	if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
		return tt.Ult(a.a, b.a)
	}
	return tt.mk(OUlt, 0, a, b, nil, 0, "")
}
func (tt *Terms) Ule(a, b *Term) *Term {
	if a == b {
		return tt.T
	}
	if a.isConst() && b.isConst() {
		return tt.Bool(a.k <= b.k)
	}
	al, ah := tt.rng(a)
	bl, bh := tt.rng(b)
	if ah <= bl {
		return tt.T
	}
	if al > bh {
		return tt.F
	}
	if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
		return tt.Ule(a.a, b.a)
	}
	return tt.mk(OUle, 0, a, b, nil, 0, "")
}
func (tt *Terms) Slt(a, b *Term) *Term {
	if a == b {
		return tt.F
	}
	if a.isConst() && b.isConst() {
		return tt.Bool(sx(a.k, a.w) < sx(b.k, b.w))
	}
	an, bn := tt.nonneg(a), tt.nonneg(b)
	if an && bn {
		return tt.Ult(a, b)
	}
	al, _ := tt.rng(a)
	bl, _ := tt.rng(b)
	half := uint64(1) << (a.w - 1)
	if an && bl >= half {
		return tt.F
	}
	if bn && al >= half {
		return tt.T
	}
	return tt.mk(OSlt, 0, a, b, nil, 0, "")
}
func (tt *Terms) Sle(a, b *Term) *Term {
	if a == b {
		return tt.T
	}
	if a.isConst() && b.isConst() {
		return tt.Bool(sx(a.k, a.w) <= sx(b.k, b.w))
	}
	an, bn := tt.nonneg(a), tt.nonneg(b)
	if an && bn {
		return tt.Ule(a, b)
	}
	al, _ := tt.rng(a)
	bl, _ := tt.rng(b)
	half := uint64(1) << (a.w - 1)
	if an && bl >= half {
		return tt.F
	}
	if bn && al >= half {
		return tt.T
	}
	return tt.mk(OSle, 0, a, b, nil, 0, "")
}
func (tt *Terms) Concat(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return tt.Const(a.w+b.w, a.k<<b.w|b.k)
	}
	if a.op == OExtract && b.op == OExtract && a.a == b.a && uint8(a.k) == uint8(b.k>>8)+1 {
		return tt.Extract(a.a, uint8(a.k>>8), uint8(b.k))
	}
	return tt.mk(OConcat, a.w+b.w, a, b, nil, 0, "")
}
func (tt *Terms) Extract(a *Term, hi, lo uint8) *Term {
	if lo == 0 && hi == a.w-1 {
		return a
	}
	w := hi - lo + 1
	switch a.op {
	case OConst:
		return tt.Const(w, a.k>>lo)
	case OZext:
		if hi < a.a.w {
			return tt.Extract(a.a, hi, lo)
		}
		if lo >= a.a.w {
			return tt.Const(w, 0)
		}
		if lo == 0 {
			return tt.Zext(a.a, w)
		}
	case OSext:
		if hi < a.a.w {
			return tt.Extract(a.a, hi, lo)
		}
	case OConcat:
		if hi < a.b.w {
			return tt.Extract(a.b, hi, lo)
		}
		if lo >= a.b.w {
			return tt.Extract(a.a, hi-a.b.w, lo-a.b.w)
		}
	case OExtract:
		l := uint8(a.k)
		return tt.Extract(a.a, hi+l, lo+l)
	case OLShr:
		if a.b.isConst() && uint64(hi)+a.b.k < uint64(a.w) {
			return tt.Extract(a.a, hi+uint8(a.b.k), lo+uint8(a.b.k))
		}
	case OShl:
		if a.b.isConst() && uint64(lo) >= a.b.k {
			return tt.Extract(a.a, hi-uint8(a.b.k), lo-uint8(a.b.k))
		}
		if a.b.isConst() && uint64(hi) < a.b.k {
			return tt.Const(w, 0)
		}
	case OBOr:
		return tt.BOr(tt.Extract(a.a, hi, lo), tt.Extract(a.b, hi, lo))
	case OBAnd:
		return tt.BAnd(tt.Extract(a.a, hi, lo), tt.Extract(a.b, hi, lo))
	case OIte:
		if a.b.isConst() || a.c.isConst() {
			return tt.Ite(a.a, tt.Extract(a.b, hi, lo), tt.Extract(a.c, hi, lo))
		}
	}
	return tt.mk(OExtract, w, a, nil, nil, uint64(hi)<<8|uint64(lo), "")
}
func (tt *Terms) Zext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return tt.Const(w, a.k)
	}
	if a.op == OZext {
		return tt.Zext(a.a, w)
	}
	if a.op == OExtract && uint8(a.k) == 0 {
		// zx(x[n:0]) is x if x fits
		if _, hi := tt.rng(a.a); hi <= mask(a.w) {
			if a.a.w > w {
				return tt.Extract(a.a, w-1, 0)
			}
			return tt.Zext(a.a, w)
		}
	}
	return tt.mk(OZext, w, a, nil, nil, 0, "")
}
func (tt *Terms) Sext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return tt.Const(w, uint64(sx(a.k, a.w)))
	}
	if tt.nonneg(a) {
		return tt.Zext(a, w)
	}
	return tt.mk(OSext, w, a, nil, nil, 0, "")
}

// Model maps variable names to values (absent = 0 or the var's lower bound).
type Model struct {
	vals map[string]uint64
	gen  uint64
}

var modelGen uint64

func (tt *Terms) NewModel(vals map[string]uint64) *Model {
	tt.evGen++
	return &Model{vals: vals, gen: tt.evGen}
}

func (tt *Terms) Eval(t *Term, m *Model) uint64 {
	if t.op == OConst {
		return t.k
	}
	if t.evGen == m.gen {
		return t.evVal
	}
	var v uint64
	w := t.w
	b2 := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch t.op {
	case OVar:
		x, ok := m.vals[t.name]
		if !ok {
			x = t.lo
		}
		v = x
	case ONot:
		v = 1 - tt.Eval(t.a, m)
	case OAnd:
		v = tt.Eval(t.a, m) & tt.Eval(t.b, m)
	case OOr:
		v = tt.Eval(t.a, m) | tt.Eval(t.b, m)
	case OIte:
		if tt.Eval(t.a, m) != 0 {
			v = tt.Eval(t.b, m)
		} else {
			v = tt.Eval(t.c, m)
		}
	default:
		a := tt.Eval(t.a, m)
		var b uint64
		if t.b != nil {
			b = tt.Eval(t.b, m)
		}
		switch t.op {
		case OEq:
			v = b2(a == b)
		case OAdd:
			v = a + b
		case OSub:
			v = a - b
		case OMul:
			v = a * b
		case OUDiv:
			if b == 0 {
				v = mask(w)
			} else {
				v = a / b
			}
		case OURem:
			if b == 0 {
				v = a
			} else {
				v = a % b
			}
		case OSDiv:
			sa, sb := sx(a, w), sx(b, w)
			switch {
			case sb == 0:
				if sa >= 0 {
					v = mask(w)
				} else {
					v = 1
				}
			case sb == -1:
				v = uint64(-sa)
			default:
				v = uint64(sa / sb)
			}
		case OSRem:
			sa, sb := sx(a, w), sx(b, w)
			switch {
			case sb == 0:
				v = a
			case sb == -1:
				v = 0
			default:
				v = uint64(sa % sb)
			}
		case OShl:
			if b < uint64(w) {
				v = a << b
			}
		case OLShr:
			if b < uint64(w) {
				v = a >> b
			}
		case OAShr:
			if b >= uint64(w) {
				b = uint64(w) - 1
			}
			v = uint64(sx(a, w) >> b)
		case OBAnd:
			v = a & b
		case OBOr:
			v = a | b
		case OBXor:
			v = a ^ b
		case OBNot:
			v = ^a
		case ONeg:
			v = -a
		case OUlt:
			v = b2(a < b)
		case OUle:
			v = b2(a <= b)
		case OSlt:
			v = b2(sx(a, t.a.w) < sx(b, t.a.w))
		case OSle:
			v = b2(sx(a, t.a.w) <= sx(b, t.a.w))
		case OConcat:
			v = a<<t.b.w | b
		case OExtract:
			v = a >> uint8(t.k)
		case OZext:
			v = a
		case OSext:
			v = uint64(sx(a, t.a.w))
		}
		if w > 0 {
			v &= mask(w)
		}
	}
	t.evGen, t.evVal = m.gen, v
	return v
}

func (t *Term) String() string { return t.str(0) }
func (t *Term) str(d int) string {
	if d > 6 {
		return "…"
	}
	switch t.op {
	case OConst:
		if t.w == 0 {
			return strconv.FormatBool(t.k != 0)
		}
		return strconv.FormatUint(t.k, 10)
	case OVar:
		return t.name
	case OExtract:
		return fmt.Sprintf("%s[%d:%d]", t.a.str(d+1), t.k>>8, uint8(t.k))
	case OZext:
		return fmt.Sprintf("zx%d(%s)", t.w, t.a.str(d+1))
	case OSext:
		return fmt.Sprintf("sx%d(%s)", t.w, t.a.str(d+1))
	}
	var sb strings.Builder
	sb.WriteString("(" + smtOp[t.op])
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			sb.WriteString(" " + x.str(d+1))
		}
	}
	sb.WriteString(")")
	return sb.String()
}
