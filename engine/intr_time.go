package main

import (
	"math"
	"time"

	"golang.org/x/tools/go/ssa"
)

const (
	simEpoch     = 946684800   // 2000-01-01T00:00:00Z, as in testing/synctest
	unixInternal = 62135596800 // seconds from year 1 to 1970
)

func (ex *Exec) localLoc() Value {
	p := ex.w.prog.prog.ImportedPackage("time")
	g := p.Members["localLoc"].(*ssa.Global)
	return ex.w.global(ex, ex.w.prog.gid(g))
}

func (ex *Exec) mkTime(ns Value) Value {
	switch c := ns.(type) {
	case uint64:
		return structure{c % 1e9, uint64(simEpoch+unixInternal) + c/1e9, ex.localLoc()}
	case *Term:
		tt := ex.tt()
		g := tt.Const(64, 1e9)
		s := tt.Add(tt.Const(64, simEpoch+unixInternal), tt.UDiv(c, g))
		n := tt.URem(c, g)
		tt.timeOf[[2]*Term{s, n}] = c
		return structure{ex.fromTerm(n), ex.fromTerm(tt.Add(tt.Const(64, simEpoch+unixInternal), tt.UDiv(c, g))), ex.localLoc()}
	}
	panic(engineErr("clock"))
}

// nsOf is the instant in nanoseconds since the simulation's epoch, if it is known in that form.
func (ex *Exec) nsOf(v Value) (*Term, bool) {
	tt := ex.tt()
	s, n := ex.secNsec(v)
	if s.isConst() && n.isConst() {
		d := int64(s.k) - (simEpoch + unixInternal)
		if d < -1e8 || d > 1e8 {
			return nil, false
		}
		return tt.Const(64, uint64(d*1e9+int64(n.k))), true
	}
	c, ok := tt.timeOf[[2]*Term{s, n}]
	return c, ok
}

func (ex *Exec) timeNow() Value { return ex.mkTime(ex.clock) }

func (ex *Exec) secNsec(v Value) (*Term, *Term) {
	s := v.(structure)
	tt := ex.tt()
	return ex.toTerm(s[1], 64), tt.BAnd(ex.toTerm(s[0], 64), tt.Const(64, 1<<30-1))
}

func regTime() {
	reg("time.Now", func(fr *frame, a []Value) Value { return fr.ex.timeNow() })
	reg("time.runtimeNano", func(fr *frame, a []Value) Value { return fr.ex.addV(fr.ex.clock, uint64(1)) })
	reg("time.runtimeIsBubbled", func(fr *frame, a []Value) Value { return false })
	reg("time.Sleep", func(fr *frame, a []Value) Value { fr.ex.sleepFor(fr, a[0]); return nil })
	reg("(time.Time).IsZero", func(fr *frame, a []Value) Value {
		// one condition, so that a time that cannot be zero does not fork on its nanoseconds
		ex, tt := fr.ex, fr.ex.tt()
		t := a[0].(structure)
		return ex.fromTerm(tt.And(tt.Eq(ex.toTerm(t[0], 64), tt.Const(64, 0)), tt.Eq(ex.toTerm(t[1], 64), tt.Const(64, 0))))
	})
	cmp := func(f func(tt *Terms, s, n, us, un *Term) *Term) intrFn {
		return func(fr *frame, a []Value) Value {
			ex := fr.ex
			if x, ok := ex.nsOf(a[0]); ok {
				if y, ok := ex.nsOf(a[1]); ok {
					// as if all in nanoseconds: compared as signed values
					return ex.fromTerm(f(ex.tt(), x, ex.tt().Const(64, 0), y, ex.tt().Const(64, 0)))
				}
			}
			s, n := ex.secNsec(a[0])
			us, un := ex.secNsec(a[1])
			return ex.fromTerm(f(ex.tt(), s, n, us, un))
		}
	}
	before := func(tt *Terms, s, n, us, un *Term) *Term {
		return tt.Or(tt.Slt(s, us), tt.And(tt.Eq(s, us), tt.Ult(n, un)))
	}
	reg("(time.Time).Before", cmp(before))
	reg("(time.Time).After", cmp(func(tt *Terms, s, n, us, un *Term) *Term { return before(tt, us, un, s, n) }))
	reg("(time.Time).Equal", cmp(func(tt *Terms, s, n, us, un *Term) *Term { return tt.And(tt.Eq(s, us), tt.Eq(n, un)) }))
	reg("(time.Time).Compare", cmp(func(tt *Terms, s, n, us, un *Term) *Term {
		return tt.Ite(before(tt, s, n, us, un), tt.Const(64, mask(64)), tt.Ite(before(tt, us, un, s, n), tt.Const(64, 1), tt.Const(64, 0)))
	}))
	sub := func(fr *frame, x, y Value) Value {
		ex := fr.ex
		tt := ex.tt()
		if x, ok := ex.nsOf(x); ok {
			if y, ok := ex.nsOf(y); ok {
				return ex.fromTerm(tt.Sub(x, y))
			}
		}
		s, n := ex.secNsec(x)
		us, un := ex.secNsec(y)
		d := tt.Sub(s, us)
		if d.isConst() && n.isConst() && un.isConst() {
			ds := int64(d.k)
			big := float64(int64(s.k)) - float64(int64(us.k))
			switch {
			case big > 9.2e9:
				return uint64(math.MaxInt64)
			case big < -9.2e9:
				return uint64(1) << 63
			}
			return uint64(ds*1e9 + int64(n.k) - int64(un.k))
		}
		lo1, hi1 := tt.rng(s)
		lo2, hi2 := tt.rng(us)
		if hi1 > 1<<40 || hi2 > 1<<40 || hi1-lo2 > 9e9 && hi1 > lo2 || hi2-lo1 > 9e9 && hi2 > lo1 {
			return noIntr
		}
		return ex.fromTerm(tt.Add(tt.Mul(d, tt.Const(64, 1e9)), tt.Sub(n, un)))
	}
	reg("(time.Time).Sub", func(fr *frame, a []Value) Value { return sub(fr, a[0], a[1]) })
	reg("(time.Time).Add", func(fr *frame, a []Value) Value {
		ex, tt := fr.ex, fr.ex.tt()
		x, ok := ex.nsOf(a[0])
		if !ok {
			return noIntr
		}
		d := ex.toTerm(a[1], 64)
		xl, xh := tt.rng(x)
		dl, dh := tt.rng(d)
		if x.isConst() && d.isConst() || xl > xh || xh > 1<<60 || dl > dh || dh > 1<<60 {
			return noIntr
		}
		t := ex.mkTime(ex.fromTerm(tt.Add(x, d))).(structure)
		t[2] = a[0].(structure)[2]
		return t
	})
	reg("time.Since", func(fr *frame, a []Value) Value { return sub(fr, fr.ex.timeNow(), a[0]) })
	reg("time.Until", func(fr *frame, a []Value) Value { return sub(fr, a[0], fr.ex.timeNow()) })
	reg("(time.Time).Format", func(fr *frame, a []Value) Value { return &Opaque{"formatted time"} })
	reg("(time.Time).String", func(fr *frame, a []Value) Value { return &Opaque{"formatted time"} })
	reg("(time.Duration).String", func(fr *frame, a []Value) Value {
		if d, ok := a[0].(uint64); ok {
			return time.Duration(d).String()
		}
		return &Opaque{"formatted duration"}
	})

	mk := func(fr *frame, typ string, d Value, fn *Closure, period bool) Value {
		ex := fr.ex
		ptr := new(Value)
		var ch Value = (*Chan)(nil)
		var c *Chan
		if fn == nil {
			c = ex.newChan(1, zero(ex.w.namedType("time", "Time")))
			ch = c
		}
		*ptr = structure{ch, true}
		when := ex.clock
		if !ex.truth(ex.sle(d, uint64(0))) {
			when = ex.addV(ex.clock, d)
		}
		if ex.inInit > 0 {
			return ptr
		}
		t := ex.newTimer(fr, when)
		t.ch, t.fn, t.ptr = c, fn, ptr
		if c != nil {
			c.tm = t
		}
		if period {
			t.period = d
		}
		ex.tmByPtr[ptr] = t
		return ptr
	}
	reg("time.NewTimer", func(fr *frame, a []Value) Value { return mk(fr, "Timer", a[0], nil, false) })
	reg("time.AfterFunc", func(fr *frame, a []Value) Value { return mk(fr, "Timer", a[0], a[1].(*Closure), false) })
	reg("time.NewTicker", func(fr *frame, a []Value) Value {
		if fr.ex.truth(fr.ex.sle(a[0], uint64(0))) {
			fr.ex.userPanic(fr, "non-positive interval for NewTicker")
		}
		return mk(fr, "Ticker", a[0], nil, true)
	})
	get := func(fr *frame, v Value) *Timer {
		p := fr.ptr(v)
		t := fr.ex.tmByPtr[p]
		if t == nil {
			fr.ex.userPanic(fr, "time: Stop called on uninitialized Timer")
		}
		return t
	}
	reg("(*time.Timer).Stop", func(fr *frame, a []Value) Value { return fr.ex.stopTimer(fr, get(fr, a[0])) })
	reg("(*time.Timer).Reset", func(fr *frame, a []Value) Value { return fr.ex.resetTimer(fr, get(fr, a[0]), a[1], false) })
	reg("(*time.Ticker).Stop", func(fr *frame, a []Value) Value {
		p := fr.ptr(a[0])
		if t := fr.ex.tmByPtr[p]; t != nil {
			fr.ex.stopTimer(fr, t)
		}
		return nil
	})
	reg("(*time.Ticker).Reset", func(fr *frame, a []Value) Value {
		if fr.ex.truth(fr.ex.sle(a[1], uint64(0))) {
			fr.ex.userPanic(fr, "non-positive interval for Ticker.Reset")
		}
		fr.ex.resetTimer(fr, get(fr, a[0]), a[1], true)
		return nil
	})
}
