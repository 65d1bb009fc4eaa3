package main

import (
	"fmt"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func (ex *Exec) symOf(v Value) *SymStr {
	switch v := v.(type) {
	case *SymStr:
		return v
	case string:
		s := &SymStr{n: ex.tt().Const(64, uint64(len(v)))}
		for i := 0; i < len(v); i++ {
			s.b = append(s.b, ex.tt().Const(8, uint64(v[i])))
		}
		return s
	case *Opaque:
		panic(unsupported("inspection of opaque text: " + v.desc))
	}
	panic(engineErr(fmt.Sprintf("symOf %T", v)))
}

// normStr turns an all-constant SymStr into a Go string.
func normStr(s *SymStr) Value {
	if !s.n.isConst() {
		return s
	}
	n := int(s.n.k)
	for i := 0; i < n; i++ {
		if !s.b[i].isConst() {
			if n < len(s.b) {
				return &SymStr{b: s.b[:n:n], n: s.n}
			}
			return s
		}
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(s.b[i].k)
	}
	return string(b)
}

func (ex *Exec) strLen(v Value) *Term {
	switch v := v.(type) {
	case string:
		return ex.tt().Const(64, uint64(len(v)))
	}
	return ex.symOf(v).n
}

func (ex *Exec) strEq(x, y Value) *Term {
	tt := ex.tt()
	a, b := ex.symOf(x), ex.symOf(y)
	acc := tt.Eq(a.n, b.n)
	if acc == tt.F {
		return acc
	}
	m := min(len(a.b), len(b.b))
	for i := 0; i < m; i++ {
		acc = tt.And(acc, tt.Eq(a.b[i], b.b[i]))
		if acc == tt.F {
			return acc
		}
	}
	return acc
}

func (ex *Exec) strLess(x, y Value, orEq bool) *Term {
	tt := ex.tt()
	a, b := ex.symOf(x), ex.symOf(y)
	var acc *Term
	if orEq {
		acc = tt.Ule(a.n, b.n)
	} else {
		acc = tt.Ult(a.n, b.n)
	}
	z := tt.Const(8, 0)
	at := func(s *SymStr, i int) *Term {
		if i < len(s.b) {
			return s.b[i]
		}
		return z
	}
	for i := max(len(a.b), len(b.b)) - 1; i >= 0; i-- {
		p, q := at(a, i), at(b, i)
		acc = tt.Ite(tt.Eq(p, q), acc, tt.Ult(p, q))
	}
	return acc
}

func (ex *Exec) strConcat(fr *frame, x, y Value) Value {
	if a, ok := x.(string); ok {
		if b, ok := y.(string); ok {
			return a + b
		}
		if a == "" {
			return y
		}
	}
	if b, ok := y.(string); ok && b == "" {
		return x
	}
	if o, ok := x.(*Opaque); ok {
		return &Opaque{o.desc + "+…"}
	}
	if o, ok := y.(*Opaque); ok {
		return &Opaque{"…+" + o.desc}
	}
	tt := ex.tt()
	a, b := ex.symOf(x), ex.symOf(y)
	r := &SymStr{n: tt.Add(a.n, b.n)}
	if a.n.isConst() {
		k := int(a.n.k)
		r.b = append(append([]*Term{}, a.b[:k]...), b.b...)
		return normStr(r)
	}
	m1, m2 := len(a.b), len(b.b)
	z := tt.Const(8, 0)
	lo, hi := tt.rng(a.n)
	if hi > uint64(m1) {
		hi = uint64(m1)
	}
	for i := 0; i < m1+m2; i++ {
		var acc *Term
		for l := int(hi); l >= int(lo); l-- {
			v := z
			if i < l {
				v = a.b[i]
			} else if i-l < m2 {
				v = b.b[i-l]
			}
			if acc == nil {
				acc = v
			} else {
				acc = tt.Ite(tt.Eq(a.n, tt.Const(64, uint64(l))), v, acc)
			}
		}
		r.b = append(r.b, acc)
	}
	return normStr(r)
}

func (fr *frame) strIndex(x, idx Value) Value {
	ex := fr.ex
	tt := ex.tt()
	if s, ok := x.(string); ok {
		if i, ok := idx.(uint64); ok {
			i = fr.idx64(i)
			if i >= uint64(len(s)) {
				ex.rtPanic(fr, fmt.Sprintf("index out of range [%d] with length %d", int64(i), len(s)))
			}
			return uint64(s[i])
		}
	}
	s := ex.symOf(x)
	var it *Term
	if i, ok := idx.(uint64); ok {
		it = tt.Const(64, fr.idx64(i))
	} else {
		it = fr.idxTerm(idx.(*Term))
	}
	if !ex.branch(tt.Ult(it, s.n)) {
		ex.rtPanic(fr, "index out of range")
	}
	if it.isConst() {
		return ex.fromTerm(s.b[it.k])
	}
	acc := s.b[len(s.b)-1]
	for i := len(s.b) - 2; i >= 0; i-- {
		acc = tt.Ite(tt.Eq(it, tt.Const(64, uint64(i))), s.b[i], acc)
	}
	return ex.fromTerm(acc)
}

func (fr *frame) strSlice(x, lo, hi Value) Value {
	ex := fr.ex
	if s, ok := x.(string); ok {
		l, h := uint64(0), uint64(len(s))
		if hi != nil {
			h = ex.concretizeV(fr, hi)
		}
		if lo != nil {
			l = ex.concretizeV(fr, lo)
		}
		if h > uint64(len(s)) || l > h {
			ex.rtPanic(fr, fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", int64(l), int64(h), len(s)))
		}
		return s[l:h]
	}
	return ex.strSub(fr, x, lo, hi)
}

func (ex *Exec) strSub(fr *frame, x, lo, hi Value) Value {
	tt := ex.tt()
	s := ex.symOf(x)
	r := s
	if hi != nil {
		h := ex.concretizeV(fr, hi)
		if !ex.branch(tt.Ule(tt.Const(64, h), s.n)) {
			ex.rtPanic(fr, "slice bounds out of range")
		}
		r = &SymStr{b: s.b[:h:h], n: tt.Const(64, h)}
	}
	if lo != nil {
		l := ex.concretizeV(fr, lo)
		if !ex.branch(tt.Ule(tt.Const(64, l), r.n)) {
			ex.rtPanic(fr, "slice bounds out of range")
		}
		r = &SymStr{b: r.b[l:], n: tt.Sub(r.n, tt.Const(64, l))}
	}
	return normStr(r)
}

// fixLen makes the length concrete by forking.
func (ex *Exec) fixLen(fr *frame, x Value) Value {
	s, ok := x.(*SymStr)
	if !ok {
		if o, ok := x.(*Opaque); ok {
			panic(unsupported("inspection of opaque text: " + o.desc))
		}
		return x
	}
	if s.fixed() {
		return s
	}
	n := ex.concretize(fr, s.n)
	return normStr(&SymStr{b: s.b[:n:n], n: ex.tt().Const(64, n)})
}

func (ex *Exec) strBytes(fr *frame, x Value) []Value {
	x = ex.fixLen(fr, x)
	switch s := x.(type) {
	case string:
		out := make([]Value, len(s))
		for i := range out {
			out[i] = uint64(s[i])
		}
		return out
	case *SymStr:
		out := make([]Value, len(s.b))
		for i := range out {
			out[i] = ex.fromTerm(s.b[i])
		}
		return out
	}
	panic(engineErr(fmt.Sprintf("strBytes %T", x)))
}

func (ex *Exec) bytesToStr(b []Value) Value {
	conc := true
	for _, x := range b {
		if _, ok := x.(uint64); !ok {
			conc = false
			break
		}
	}
	if conc {
		out := make([]byte, len(b))
		for i := range out {
			out[i] = byte(b[i].(uint64))
		}
		return string(out)
	}
	s := &SymStr{n: ex.tt().Const(64, uint64(len(b)))}
	for _, x := range b {
		s.b = append(s.b, ex.toTerm(x, 8))
	}
	return normStr(s)
}

// concStr makes a string fully concrete (forking on every symbolic byte).
func (ex *Exec) concStr(fr *frame, x Value) string {
	x = ex.fixLen(fr, x)
	switch s := x.(type) {
	case string:
		return s
	case *SymStr:
		out := make([]byte, len(s.b))
		for i := range out {
			out[i] = byte(ex.concretize(fr, s.b[i]))
		}
		return string(out)
	}
	panic(engineErr("concStr"))
}

func (fr *frame) next(in *ssa.Next, it Value) Value {
	ex := fr.ex
	switch it := it.(type) {
	case *strIter:
		switch s := it.s.(type) {
		case string:
			if it.i >= len(s) {
				return tuple{false, uint64(0), uint64(0)}
			}
			r, n := utf8.DecodeRuneInString(s[it.i:])
			k := it.i
			it.i += n
			return tuple{true, uint64(k), uint64(uint32(r))}
		case *SymStr:
			if it.i >= len(s.b) {
				return tuple{false, uint64(0), uint64(0)}
			}
			tt := ex.tt()
			k := it.i
			b := s.b[k]
			if ex.branch(tt.Ult(b, tt.Const(8, 0x80))) {
				it.i++
				return tuple{true, uint64(k), ex.fromTerm(tt.Zext(b, 32))}
			}
			// concretise a non-ASCII sequence
			var buf []byte
			for j := k; j < len(s.b) && j < k+4; j++ {
				buf = append(buf, byte(ex.concretize(fr, s.b[j])))
				if utf8.FullRune(buf) {
					break
				}
			}
			r, n := utf8.DecodeRune(buf)
			it.i += n
			return tuple{true, uint64(k), uint64(uint32(r))}
		}
	case *mapIter:
		for it.i < len(it.keys) {
			e := it.keys[it.i]
			it.i++
			if e.dead {
				continue
			}
			if ex.raceOn {
				ex.raceMap(fr, it.m, false)
			}
			return tuple{true, copyVal(e.k), copyVal(e.v)}
		}
		return tuple{false, nil, nil}
	}
	panic(engineErr(fmt.Sprintf("next on %T", it)))
}
