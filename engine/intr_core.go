package main

import (
	"encoding/base64"
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrFn = func(fr *frame, args []Value) Value

type noIntrT struct{ x int }

// noIntr is returned by an intrinsic that declines: the function's own body is executed.
var noIntr = &noIntrT{}

var intrinsics map[string]intrFn

func init() {
	intrinsics = map[string]intrFn{}
	regND()
	regSync()
	regRuntime()
	regTime()
	regFmt()
	regStrings()
	regReflect()
}

func reg(name string, f intrFn) { intrinsics[name] = f }

// packages whose every function is a no-op returning zero values
var noopPkgs = map[string]bool{"log/slog": true, "log": true, "log/slog/internal": true, "log/internal": true}

var skipStdInit = map[string]bool{"crypto/rand": true, "os": true, "log": true, "log/slog": true, "runtime": true, "syscall": true,
	"internal/poll": true, "reflect": true, "fmt": true, "sync": true, "internal/godebug": true, "testing": true, "net": true, "crypto/tls": true, "crypto/x509": true}

func lookupIntrinsic(name string, f *ssa.Function) intrFn {
	if h, ok := intrinsics[name]; ok {
		return h
	}
	p := pkgPathOf(f)
	if noopPkgs[p] && f.Synthetic != "package initializer" {
		sig := f.Signature
		return func(fr *frame, args []Value) Value { return zeroResult(sig) }
	}
	return nil
}

func globalOverride(w *Worker, g *ssa.Global) Value {
	switch g.String() {
	case "crypto/rand.Reader", "crypto/internal/rand.Reader":
		for _, path := range []string{"crypto/rand", "crypto/internal/rand"} {
			t := w.prog.prog.ImportedPackage(path)
			if t == nil {
				continue
			}
			if rt := t.Type("reader"); rt != nil {
				p := new(Value)
				*p = zero(rt.Type())
				return iface{canon(types.NewPointer(rt.Type())), p}
			}
		}
	}
	return nil
}

func str1(v Value) string {
	s, ok := v.(string)
	if !ok {
		panic(engineErr("nd label must be a constant string"))
	}
	return s
}

func regND() {
	const P = "verif/harness/nd."
	mkInt := func(kind string, w uint8) intrFn {
		return func(fr *frame, a []Value) Value {
			ex := fr.ex
			l := str1(a[0])
			t := ex.newVar(l, w, 0, mask(w))
			ex.nds = append(ex.nds, ndRec{kind: kind, label: l, terms: []*Term{t}})
			return ex.fromTerm(t)
		}
	}
	reg(P+"Int64", mkInt("int", 64))
	reg(P+"Uint64", mkInt("int", 64))
	reg(P+"Int32", mkInt("int", 32))
	reg(P+"Uint32", mkInt("int", 32))
	reg(P+"Byte", mkInt("int", 8))
	reg(P+"Bool", func(fr *frame, a []Value) Value {
		ex := fr.ex
		l := str1(a[0])
		t := ex.newVar(l, 0, 0, 1)
		ex.nds = append(ex.nds, ndRec{kind: "bool", label: l, terms: []*Term{t}})
		return ex.fromTerm(t)
	})
	reg(P+"IntRange", func(fr *frame, a []Value) Value { // lo, hi >= 0
		ex := fr.ex
		l := str1(a[0])
		lo, hi := a[1].(uint64), a[2].(uint64)
		if int64(lo) < 0 || int64(hi) < int64(lo) {
			panic(engineErr("IntRange needs 0 <= lo <= hi"))
		}
		t := ex.newVar(l, 64, lo, hi)
		ex.nds = append(ex.nds, ndRec{kind: "int", label: l, terms: []*Term{t}})
		return ex.fromTerm(t)
	})
	reg(P+"String", func(fr *frame, a []Value) Value {
		ex := fr.ex
		tt := ex.tt()
		l := str1(a[0])
		max := int(a[1].(uint64))
		n := ex.newVar(l+"_len", 64, 0, uint64(max))
		rec := ndRec{kind: "string", label: l, terms: []*Term{n}}
		s := &SymStr{n: n}
		for i := 0; i < max; i++ {
			b := ex.newVar(fmt.Sprintf("%s_%d", l, i), 8, 0, 255)
			rec.terms = append(rec.terms, b)
			c := tt.Ite(tt.Ult(tt.Const(64, uint64(i)), n), b, tt.Const(8, 0))
			s.b = append(s.b, c)
		}
		ex.nds = append(ex.nds, rec)
		return normStr(s)
	})
	reg(P+"StringN", func(fr *frame, a []Value) Value { // fixed length
		ex := fr.ex
		l := str1(a[0])
		n := int(a[1].(uint64))
		tn := ex.tt().Const(64, uint64(n))
		rec := ndRec{kind: "string", label: l, terms: []*Term{tn}}
		s := &SymStr{n: tn}
		for i := 0; i < n; i++ {
			b := ex.newVar(fmt.Sprintf("%s_%d", l, i), 8, 0, 255)
			rec.terms = append(rec.terms, b)
			s.b = append(s.b, b)
		}
		ex.nds = append(ex.nds, rec)
		return normStr(s)
	})
	reg(P+"Choose", func(fr *frame, a []Value) Value {
		ex := fr.ex
		l := str1(a[0])
		n := int(ex.concInt(fr, a[1]))
		k := ex.choose(fr, n, l)
		ex.nds = append(ex.nds, ndRec{kind: "choose", label: l, val: int64(k)})
		return uint64(k)
	})
	reg(P+"Assume", func(fr *frame, a []Value) Value { fr.ex.assume(fr, a[0]); return nil })
	reg(P+"Assert", func(fr *frame, a []Value) Value {
		msg := "assertion"
		if s, ok := a[1].(string); ok {
			msg = s
		}
		fr.ex.assert(fr, a[0], msg)
		return nil
	})
	reg(P+"Fail", func(fr *frame, a []Value) Value {
		fr.ex.assert(fr, false, fmt.Sprint(a[0]))
		return nil
	})
	reg(P+"Cover", func(fr *frame, a []Value) Value {
		ex := fr.ex
		m, ok := ex.intr["covers"].(map[string]bool)
		if !ok {
			m = map[string]bool{}
			ex.intr["covers"] = m
		}
		m[str1(a[0])] = true
		return nil
	})
	reg(P+"Observe", func(fr *frame, a []Value) Value {
		fr.ex.obs = append(fr.ex.obs, obsRec{str1(a[0]), a[1]})
		return nil
	})
	reg(P+"Note", func(fr *frame, a []Value) Value {
		fr.ex.notes = append(fr.ex.notes, vstr(a[0], 0))
		if debugFlag {
			fmt.Fprintln(debugOut, "note:", vstr(a[0], 0))
		}
		return nil
	})
	reg(P+"Param", func(fr *frame, a []Value) Value {
		if v, ok := fr.ex.cfg.Params[str1(a[0])]; ok {
			return uint64(int64(v))
		}
		return a[1]
	})
	reg(P+"Quiesce", func(fr *frame, a []Value) Value { fr.ex.waitQuiesce(fr); return nil })
	reg(P+"Goroutines", func(fr *frame, a []Value) Value {
		n := 0
		for _, g := range fr.ex.gs {
			if g.state != gDone && g.timer == nil && g.id > 0 {
				n++
			}
		}
		return uint64(n)
	})
	reg(P+"Stamp", func(fr *frame, a []Value) Value {
		n, _ := fr.ex.intr["stamp"].(uint64)
		n++
		fr.ex.intr["stamp"] = n
		return n
	})
	reg(P+"Symbolic", func(fr *frame, a []Value) Value { return true })
	bin := func(op func(tt *Terms, a, b *Term) *Term) intrFn {
		return func(fr *frame, a []Value) Value {
			ex := fr.ex
			return ex.fromTerm(op(ex.tt(), ex.toTerm(a[0], 0), ex.toTerm(a[1], 0)))
		}
	}
	reg(P+"And", bin(func(tt *Terms, a, b *Term) *Term { return tt.And(a, b) }))
	reg(P+"Or", bin(func(tt *Terms, a, b *Term) *Term { return tt.Or(a, b) }))
	reg(P+"Implies", bin(func(tt *Terms, a, b *Term) *Term { return tt.Or(tt.Not(a), b) }))
	reg(P+"Iff", bin(func(tt *Terms, a, b *Term) *Term { return tt.Eq(a, b) }))
	reg(P+"Ite", func(fr *frame, a []Value) Value {
		ex := fr.ex
		return ex.fromTerm(ex.tt().Ite(ex.toTerm(a[0], 0), ex.toTerm(a[1], 64), ex.toTerm(a[2], 64)))
	})
	// Concrete forks until the value is concrete.
	reg(P+"Concrete", func(fr *frame, a []Value) Value { return fr.ex.concStr(fr, a[0]) })
	reg(P+"ConcreteInt", func(fr *frame, a []Value) Value { return fr.ex.concretizeV(fr, a[0]) })
}

// ---- sync ----

func regSync() {
	p := func(v Value) *Value { return v.(*Value) }
	chk := func(fr *frame, v Value) *Value { return fr.ptr(v) }
	for _, t := range []string{"sync.Mutex", "internal/sync.Mutex"} {
		t := "(*" + t + ")."
		reg(t+"Lock", func(fr *frame, a []Value) Value { fr.ex.mutexLock(fr, chk(fr, a[0])); return nil })
		reg(t+"Unlock", func(fr *frame, a []Value) Value { fr.ex.mutexUnlock(fr, chk(fr, a[0])); return nil })
		reg(t+"TryLock", func(fr *frame, a []Value) Value { return fr.ex.mutexTryLock(fr, chk(fr, a[0])) })
	}
	reg("(*sync.RWMutex).Lock", func(fr *frame, a []Value) Value { fr.ex.wlock(fr, chk(fr, a[0])); return nil })
	reg("(*sync.RWMutex).Unlock", func(fr *frame, a []Value) Value { fr.ex.wunlock(fr, chk(fr, a[0])); return nil })
	reg("(*sync.RWMutex).RLock", func(fr *frame, a []Value) Value { fr.ex.rlock(fr, chk(fr, a[0])); return nil })
	reg("(*sync.RWMutex).RUnlock", func(fr *frame, a []Value) Value { fr.ex.runlock(fr, chk(fr, a[0])); return nil })
	reg("(*sync.RWMutex).TryLock", func(fr *frame, a []Value) Value {
		ex := fr.ex
		m := ex.rw(p(a[0]))
		o := ex.oid(p(a[0]))
		ex.visible(fr, "RWMutex.TryLock", nil, access{o, aWLock})
		ex.access(fr.g, o, aWLock)
		if m.writer || m.wpend || m.readers > 0 {
			return false
		}
		m.writer = true
		g := fr.g
		g.hb = g.hb.join(m.whb).join(m.rhb)
		g.dp = g.dp.join(m.wdp).join(m.rdp)
		return true
	})
	reg("(*sync.RWMutex).TryRLock", func(fr *frame, a []Value) Value {
		ex := fr.ex
		m := ex.rw(p(a[0]))
		o := ex.oid(p(a[0]))
		ex.visible(fr, "RWMutex.TryRLock", nil, access{o, aWLock})
		ex.access(fr.g, o, aWLock)
		if m.writer || m.wpend {
			return false
		}
		m.readers++
		g := fr.g
		g.hb, g.dp = g.hb.join(m.whb), g.dp.join(m.wdp)
		return true
	})
	reg("(*sync.WaitGroup).Add", func(fr *frame, a []Value) Value {
		fr.ex.wgAdd(fr, chk(fr, a[0]), fr.ex.concInt(fr, a[1]))
		return nil
	})
	reg("(*sync.WaitGroup).Done", func(fr *frame, a []Value) Value { fr.ex.wgAdd(fr, chk(fr, a[0]), -1); return nil })
	reg("(*sync.WaitGroup).Wait", func(fr *frame, a []Value) Value { fr.ex.wgWait(fr, chk(fr, a[0])); return nil })
	// sync.Cond{noCopy, L, notify, checker}
	locker := func(fr *frame, c *Value) iface {
		st := (*c).(structure)
		for _, f := range st {
			if i, ok := f.(iface); ok {
				return i
			}
		}
		panic(engineErr("sync.Cond layout"))
	}
	reg("(*sync.Cond).Wait", func(fr *frame, a []Value) Value {
		ex := fr.ex
		c := chk(fr, a[0])
		l := locker(fr, c)
		inv := func(name string) func() {
			return func() {
				f := ex.w.prog.prog.LookupMethod(l.t, nil, name)
				ex.callFn(fr, ex.w.prog.cfn(f), []Value{l.v}, nil)
			}
		}
		ex.condWait(fr, c, inv("Unlock"), inv("Lock"))
		return nil
	})
	reg("(*sync.Cond).Signal", func(fr *frame, a []Value) Value { fr.ex.condSignal(fr, chk(fr, a[0]), false); return nil })
	reg("(*sync.Cond).Broadcast", func(fr *frame, a []Value) Value { fr.ex.condSignal(fr, chk(fr, a[0]), true); return nil })
	// sync.Pool: always empty (Get calls New)
	reg("(*sync.Pool).Put", func(fr *frame, a []Value) Value { return nil })
	reg("(*sync.Pool).Get", func(fr *frame, a []Value) Value {
		st := (*chk(fr, a[0])).(structure)
		if c, ok := st[len(st)-1].(*Closure); ok && c != nil {
			return fr.ex.call(fr, c, nil)
		}
		return iface{}
	})
	// sync.Map, each operation atomic
	smap := func(fr *frame, v Value, write bool) *Map {
		ex := fr.ex
		ptr := chk(fr, v)
		ms, ok := ex.intr["syncmaps"].(map[*Value]*Map)
		if !ok {
			ms = map[*Value]*Map{}
			ex.intr["syncmaps"] = ms
		}
		ex.atomic(fr, ptr, "sync.Map", true, write)
		m := ms[ptr]
		if m == nil {
			m = newMap(ex.epoch)
			ms[ptr] = m
		}
		return m
	}
	reg("(*sync.Map).Load", func(fr *frame, a []Value) Value {
		e := fr.ex.mapFind(fr, smap(fr, a[0], false), a[1])
		if e == nil {
			return tuple{iface{}, false}
		}
		return tuple{e.v, true}
	})
	reg("(*sync.Map).Store", func(fr *frame, a []Value) Value {
		fr.ex.mapSet(fr, smap(fr, a[0], true), a[1], a[2])
		return nil
	})
	reg("(*sync.Map).LoadOrStore", func(fr *frame, a []Value) Value {
		m := smap(fr, a[0], true)
		if e := fr.ex.mapFind(fr, m, a[1]); e != nil {
			return tuple{e.v, true}
		}
		fr.ex.mapSet(fr, m, a[1], a[2])
		return tuple{a[2], false}
	})
	reg("(*sync.Map).LoadAndDelete", func(fr *frame, a []Value) Value {
		m := smap(fr, a[0], true)
		if e := fr.ex.mapFind(fr, m, a[1]); e != nil {
			v := e.v
			fr.ex.mapDelete(fr, m, a[1])
			return tuple{v, true}
		}
		return tuple{iface{}, false}
	})
	reg("(*sync.Map).Delete", func(fr *frame, a []Value) Value {
		fr.ex.mapDelete(fr, smap(fr, a[0], true), a[1])
		return nil
	})
	reg("(*sync.Map).Swap", func(fr *frame, a []Value) Value {
		m := smap(fr, a[0], true)
		var r Value = tuple{iface{}, false}
		if e := fr.ex.mapFind(fr, m, a[1]); e != nil {
			r = tuple{e.v, true}
		}
		fr.ex.mapSet(fr, m, a[1], a[2])
		return r
	})
	reg("(*sync.Map).CompareAndSwap", func(fr *frame, a []Value) Value {
		m := smap(fr, a[0], true)
		if e := fr.ex.mapFind(fr, m, a[1]); e != nil && fr.ex.truth(fr.ex.keyEq(fr, e.v, a[2])) {
			fr.ex.mapSet(fr, m, a[1], a[3])
			return true
		}
		return false
	})
	reg("(*sync.Map).CompareAndDelete", func(fr *frame, a []Value) Value {
		m := smap(fr, a[0], true)
		if e := fr.ex.mapFind(fr, m, a[1]); e != nil && fr.ex.truth(fr.ex.keyEq(fr, e.v, a[2])) {
			fr.ex.mapDelete(fr, m, a[1])
			return true
		}
		return false
	})
	reg("(*sync.Map).Clear", func(fr *frame, a []Value) Value {
		m := smap(fr, a[0], true)
		m.ents, m.idx, m.nsym, m.live = nil, map[any]*mapEnt{}, 0, 0
		return nil
	})
	reg("(*sync.Map).Range", func(fr *frame, a []Value) Value {
		m := smap(fr, a[0], false)
		var es []*mapEnt
		for _, e := range m.ents {
			if !e.dead {
				es = append(es, e)
			}
		}
		fr.ex.permute(fr, es)
		for _, e := range es {
			if !fr.ex.truth(fr.ex.call(fr, a[1].(*Closure), []Value{e.k, e.v})) {
				break
			}
		}
		return nil
	})

	// sync/atomic functions
	ww := map[string]uint8{"Int32": 32, "Uint32": 32, "Int64": 64, "Uint64": 64, "Uintptr": 64, "Pointer": 0}
	for _, pk := range []string{"sync/atomic."} {
		for suf, w := range ww {
			w := w
			reg(pk+"Load"+suf, func(fr *frame, a []Value) Value {
				ptr := chk(fr, a[0])
				fr.ex.atomic(fr, ptr, "atomic load", true, false)
				return copyVal(*ptr)
			})
			reg(pk+"Store"+suf, func(fr *frame, a []Value) Value {
				ptr := chk(fr, a[0])
				fr.ex.atomic(fr, ptr, "atomic store", false, true)
				fr.ex.storeRaw(ptr, a[1])
				return nil
			})
			reg(pk+"Swap"+suf, func(fr *frame, a []Value) Value {
				ptr := chk(fr, a[0])
				fr.ex.atomic(fr, ptr, "atomic swap", true, true)
				o := *ptr
				fr.ex.storeRaw(ptr, a[1])
				return o
			})
			reg(pk+"CompareAndSwap"+suf, func(fr *frame, a []Value) Value {
				ptr := chk(fr, a[0])
				fr.ex.atomic(fr, ptr, "atomic cas", true, true)
				if fr.ex.truth(fr.ex.equal(fr, nil, *ptr, a[1])) {
					fr.ex.storeRaw(ptr, a[2])
					return true
				}
				return false
			})
			if w == 0 {
				continue
			}
			bop := func(op string, f func(x, y uint64) uint64, g func(tt *Terms, x, y *Term) *Term, old bool) {
				reg(pk+op+suf, func(fr *frame, a []Value) Value {
					ex := fr.ex
					ptr := chk(fr, a[0])
					ex.atomic(fr, ptr, "atomic "+op, true, true)
					o := *ptr
					var n Value
					x, ok1 := o.(uint64)
					y, ok2 := a[1].(uint64)
					if ok1 && ok2 {
						n = f(x, y) & mask(w)
					} else {
						n = ex.fromTerm(g(ex.tt(), ex.toTerm(o, w), ex.toTerm(a[1], w)))
					}
					ex.storeRaw(ptr, n)
					if old {
						return o
					}
					return n
				})
			}
			bop("Add", func(x, y uint64) uint64 { return x + y }, func(tt *Terms, x, y *Term) *Term { return tt.Add(x, y) }, false)
			bop("And", func(x, y uint64) uint64 { return x & y }, func(tt *Terms, x, y *Term) *Term { return tt.BAnd(x, y) }, true)
			bop("Or", func(x, y uint64) uint64 { return x | y }, func(tt *Terms, x, y *Term) *Term { return tt.BOr(x, y) }, true)
		}
	}
	// atomic.Value{v any}
	vp := func(fr *frame, v Value) *Value {
		st := (*chk(fr, v)).(structure)
		return &st[0]
	}
	reg("(*sync/atomic.Value).Load", func(fr *frame, a []Value) Value {
		c := vp(fr, a[0])
		fr.ex.atomic(fr, c, "atomic.Value load", true, false)
		return *c
	})
	reg("(*sync/atomic.Value).Store", func(fr *frame, a []Value) Value {
		c := vp(fr, a[0])
		if a[1].(iface).t == nil {
			fr.ex.userPanic(fr, "sync/atomic: store of nil value into Value")
		}
		fr.ex.atomic(fr, c, "atomic.Value store", false, true)
		if o := (*c).(iface); o.t != nil && o.t != a[1].(iface).t {
			fr.ex.userPanic(fr, "sync/atomic: store of inconsistently typed value into Value")
		}
		fr.ex.storeRaw(c, a[1])
		return nil
	})
	reg("(*sync/atomic.Value).Swap", func(fr *frame, a []Value) Value {
		c := vp(fr, a[0])
		fr.ex.atomic(fr, c, "atomic.Value swap", true, true)
		o := *c
		fr.ex.storeRaw(c, a[1])
		return o
	})
	reg("(*sync/atomic.Value).CompareAndSwap", func(fr *frame, a []Value) Value {
		c := vp(fr, a[0])
		fr.ex.atomic(fr, c, "atomic.Value cas", true, true)
		if fr.ex.truth(fr.ex.keyEq(fr, *c, a[1])) {
			fr.ex.storeRaw(c, a[2])
			return true
		}
		return false
	})
	_ = p
}

// ---- runtime and friends ----

func regRuntime() {
	nop := func(fr *frame, a []Value) Value { return nil }
	for _, n := range []string{"runtime.GC", "runtime.Gosched", "runtime.KeepAlive", "runtime.SetFinalizer", "internal/race.Acquire", "internal/race.Release",
		"internal/race.Enable", "internal/race.Disable", "internal/race.ReleaseMerge", "internal/race.Read", "internal/race.Write",
		"(*internal/godebug.Setting).IncNonDefault", "internal/godebug.registerMetric", "runtime.UnlockOSThread", "runtime.LockOSThread",
		"os/signal.Notify", "os/signal.Stop"} {
		reg(n, nop)
	}
	reg("runtime.GOROOT", func(fr *frame, a []Value) Value { return "" })
	reg("runtime.NumGoroutine", func(fr *frame, a []Value) Value { return uint64(len(fr.ex.gs)) })
	reg("(*internal/godebug.Setting).Value", func(fr *frame, a []Value) Value { return "" })
	reg("(*internal/godebug.Setting).Name", func(fr *frame, a []Value) Value { return "" })
	reg("internal/godebug.New", func(fr *frame, a []Value) Value { p := new(Value); *p = structure{}; return p })
	reg("internal/abi.NoEscape", func(fr *frame, a []Value) Value { return a[0] })
	reg("internal/abi.Escape", func(fr *frame, a []Value) Value { return a[0] })
	reg("strings.noescape", func(fr *frame, a []Value) Value { return a[0] })
	reg("os.Getenv", func(fr *frame, a []Value) Value { return "" })
	reg("os.LookupEnv", func(fr *frame, a []Value) Value { return tuple{"", false} })
	reg("internal/bytealg.MakeNoZero", func(fr *frame, a []Value) Value {
		n := int(fr.ex.concInt(fr, a[0]))
		s := make([]Value, n)
		for i := range s {
			s[i] = uint64(0)
		}
		return s
	})
	// randomness: distinct, otherwise arbitrary concrete bytes
	rnd := func(fr *frame, b []Value) {
		ex := fr.ex
		n, _ := ex.intr["rand"].(uint64)
		n++
		ex.intr["rand"] = n
		x := n * 0x9E3779B97F4A7C15
		for i := range b {
			x ^= x >> 29
			x *= 0xBF58476D1CE4E5B9
			x ^= x >> 32
			ex.store(fr, &b[i], uint64(byte(x)))
		}
	}
	reg("crypto/rand.Read", func(fr *frame, a []Value) Value {
		rnd(fr, a[0].([]Value))
		return tuple{uint64(len(a[0].([]Value))), iface{}}
	})
	for _, n := range []string{"(*crypto/rand.reader).Read", "(*crypto/internal/rand.reader).Read"} {
		reg(n, func(fr *frame, a []Value) Value {
			rnd(fr, a[1].([]Value))
			return tuple{uint64(len(a[1].([]Value))), iface{}}
		})
	}
	for _, p := range []string{"math/rand.", "math/rand/v2."} {
		reg(p+"Float64", func(fr *frame, a []Value) Value { return 0.5 })
		for _, n := range []string{"Int", "Int63", "Uint64", "Int64", "Uint32", "Int31"} {
			reg(p+n, func(fr *frame, a []Value) Value { return uint64(5) })
		}
		for _, n := range []string{"Intn", "Int63n", "Int31n", "IntN", "Int64N", "Uint64N", "N"} {
			reg(p+n, func(fr *frame, a []Value) Value {
				if k := fr.ex.concInt(fr, a[0]); k <= 0 {
					fr.ex.userPanic(fr, "invalid argument to Intn")
				}
				return uint64(0)
			})
		}
	}
	for _, n := range []string{"math/rand.runtime_rand", "math/rand/v2.runtime_rand", "hash/maphash.runtime_rand"} {
		reg(n, func(fr *frame, a []Value) Value { return uint64(0x5bd1e9955bd1e995) })
	}
	reg("os.Getpid", func(fr *frame, a []Value) Value { return uint64(4242) })
	reg("syscall.Getenv", func(fr *frame, a []Value) Value { return tuple{"", false} })
	reg("time.initLocal", func(fr *frame, a []Value) Value { return nil })
	mathf := func(n string, f func(float64) float64) {
		reg("math."+n, func(fr *frame, a []Value) Value {
			x, ok := a[0].(float64)
			if !ok {
				panic(unsupported("math." + n + " of a symbolic number"))
			}
			return f(x)
		})
	}
	for n, f := range map[string]func(float64) float64{"Floor": math.Floor, "Ceil": math.Ceil, "Trunc": math.Trunc, "Round": math.Round, "Sqrt": math.Sqrt, "Log": math.Log,
		"Log2": math.Log2, "Exp": math.Exp, "Exp2": math.Exp2} {
		mathf(n, f)
	}
	for n, f := range map[string]func(float64, float64) float64{"Max": math.Max, "Min": math.Min, "Pow": math.Pow, "Mod": math.Mod} {
		reg("math."+n, func(fr *frame, a []Value) Value {
			x, ok := a[0].(float64)
			y, ok2 := a[1].(float64)
			if !ok || !ok2 {
				panic(unsupported("math." + n + " of a symbolic number"))
			}
			return f(x, y)
		})
	}
	reg("maps.clone", func(fr *frame, a []Value) Value {
		i := a[0].(iface)
		m, ok := i.v.(*Map)
		if !ok || m == nil {
			return i
		}
		fr.ex.raceMap(fr, m, false)
		c := newMap(fr.ex.epoch)
		for _, e := range m.ents {
			if e.dead {
				continue
			}
			ne := &mapEnt{k: e.k, v: copyVal(e.v), sym: e.sym, hk: e.hk}
			c.ents = append(c.ents, ne)
			c.live++
			if e.sym {
				c.nsym++
			} else {
				c.idx[e.hk] = ne
			}
		}
		return iface{i.t, c}
	})
	reg("math.Float64bits", nil)
	delete(intrinsics, "math.Float64bits")
}

// ---- strings, bytes, base64, sort, errors ----

func regStrings() {
	// index of sub in s, forking on the match position
	idx := func(fr *frame, s, sub Value) int {
		ex := fr.ex
		if a, ok := s.(string); ok {
			if b, ok := sub.(string); ok {
				return strings.Index(a, b)
			}
		}
		sb, pb := ex.strBytes(fr, s), ex.strBytes(fr, sub)
		for i := 0; i+len(pb) <= len(sb); i++ {
			var acc Value = true
			for j := range pb {
				acc = ex.and(acc, ex.equal(fr, nil, sb[i+j], pb[j]))
			}
			if ex.truth(acc) {
				return i
			}
		}
		return -1
	}
	ret := func(i int) Value { return uint64(int64(i)) }
	reg("strings.Index", func(fr *frame, a []Value) Value { return ret(idx(fr, a[0], a[1])) })
	reg("strings.Contains", func(fr *frame, a []Value) Value { return idx(fr, a[0], a[1]) >= 0 })
	reg("internal/bytealg.IndexString", func(fr *frame, a []Value) Value { return ret(idx(fr, a[0], a[1])) })
	reg("internal/stringslite.Index", func(fr *frame, a []Value) Value { return ret(idx(fr, a[0], a[1])) })
	byteIdx := func(fr *frame, s []Value, b Value) Value {
		for i, x := range s {
			if fr.ex.truth(fr.ex.equal(fr, nil, x, b)) {
				return ret(i)
			}
		}
		return ret(-1)
	}
	for _, n := range []string{"strings.IndexByte", "internal/bytealg.IndexByteString", "internal/stringslite.IndexByte"} {
		reg(n, func(fr *frame, a []Value) Value { return byteIdx(fr, fr.ex.strBytes(fr, a[0]), a[1]) })
	}
	for _, n := range []string{"bytes.IndexByte", "internal/bytealg.IndexByte"} {
		reg(n, func(fr *frame, a []Value) Value { return byteIdx(fr, a[0].([]Value), a[1]) })
	}
	reg("internal/bytealg.LastIndexByteString", func(fr *frame, a []Value) Value {
		s := fr.ex.strBytes(fr, a[0])
		for i := len(s) - 1; i >= 0; i-- {
			if fr.ex.truth(fr.ex.equal(fr, nil, s[i], a[1])) {
				return ret(i)
			}
		}
		return ret(-1)
	})
	reg("internal/bytealg.CountString", func(fr *frame, a []Value) Value {
		n := 0
		for _, x := range fr.ex.strBytes(fr, a[0]) {
			if fr.ex.truth(fr.ex.equal(fr, nil, x, a[1])) {
				n++
			}
		}
		return ret(n)
	})
	reg("internal/bytealg.Count", func(fr *frame, a []Value) Value {
		n := 0
		for _, x := range a[0].([]Value) {
			if fr.ex.truth(fr.ex.equal(fr, nil, x, a[1])) {
				n++
			}
		}
		return ret(n)
	})
	beq := func(fr *frame, a []Value) Value {
		x, y := a[0].([]Value), a[1].([]Value)
		if len(x) != len(y) {
			return false
		}
		var acc Value = true
		for i := range x {
			acc = fr.ex.and(acc, fr.ex.equal(fr, nil, x[i], y[i]))
		}
		return acc
	}
	reg("bytes.Equal", beq)
	reg("internal/bytealg.Equal", beq)
	scmp := func(fr *frame, x, y Value) Value {
		ex := fr.ex
		if a, ok := x.(string); ok {
			if b, ok := y.(string); ok {
				return uint64(int64(strings.Compare(a, b)))
			}
		}
		tt := ex.tt()
		return ex.fromTerm(tt.Ite(ex.strEq(x, y), tt.Const(64, 0), tt.Ite(ex.strLess(x, y, false), tt.Const(64, mask(64)), tt.Const(64, 1))))
	}
	for _, n := range []string{"strings.Compare", "internal/bytealg.CompareString", "runtime.cmpstring"} {
		reg(n, func(fr *frame, a []Value) Value { return scmp(fr, a[0], a[1]) })
	}
	for _, n := range []string{"bytes.Compare", "internal/bytealg.Compare"} {
		reg(n, func(fr *frame, a []Value) Value {
			return scmp(fr, fr.ex.bytesToStr(a[0].([]Value)), fr.ex.bytesToStr(a[1].([]Value)))
		})
	}
	hasPre := func(fr *frame, a []Value) Value {
		ex := fr.ex
		if s, ok := a[0].(string); ok {
			if p, ok := a[1].(string); ok {
				return strings.HasPrefix(s, p)
			}
		}
		pre, ok := a[1].(string)
		if !ok {
			return noIntr
		}
		s := ex.symOf(a[0])
		tt := ex.tt()
		if len(pre) > len(s.b) {
			return false
		}
		acc := tt.Ule(tt.Const(64, uint64(len(pre))), s.n)
		for i := 0; i < len(pre); i++ {
			acc = tt.And(acc, tt.Eq(s.b[i], tt.Const(8, uint64(pre[i]))))
		}
		return ex.fromTerm(acc)
	}
	reg("strings.HasPrefix", hasPre)
	reg("internal/stringslite.HasPrefix", hasPre)
	reg("strings.Clone", func(fr *frame, a []Value) Value { return a[0] })
	reg("internal/stringslite.Clone", func(fr *frame, a []Value) Value { return a[0] })
	// concrete-only fast paths
	cs := func(f func(a []string) Value) intrFn {
		return func(fr *frame, a []Value) Value {
			var ss []string
			for _, x := range a {
				s, ok := x.(string)
				if !ok {
					return noIntr
				}
				ss = append(ss, s)
			}
			return f(ss)
		}
	}
	reg("strings.TrimSpace", cs(func(a []string) Value { return strings.TrimSpace(a[0]) }))
	reg("strings.ToLower", cs(func(a []string) Value { return strings.ToLower(a[0]) }))
	reg("strings.ToUpper", cs(func(a []string) Value { return strings.ToUpper(a[0]) }))
	reg("strings.EqualFold", cs(func(a []string) Value { return strings.EqualFold(a[0], a[1]) }))
	reg("strings.ReplaceAll", cs(func(a []string) Value { return strings.ReplaceAll(a[0], a[1], a[2]) }))
	reg("strings.Trim", cs(func(a []string) Value { return strings.Trim(a[0], a[1]) }))
	reg("strings.TrimLeft", cs(func(a []string) Value { return strings.TrimLeft(a[0], a[1]) }))
	reg("strings.TrimRight", cs(func(a []string) Value { return strings.TrimRight(a[0], a[1]) }))

	// base64 on concrete text
	encs := map[string]*base64.Encoding{"StdEncoding": base64.StdEncoding, "URLEncoding": base64.URLEncoding, "RawStdEncoding": base64.RawStdEncoding, "RawURLEncoding": base64.RawURLEncoding}
	which := func(fr *frame, p Value) *base64.Encoding {
		pk := fr.ex.w.prog.prog.ImportedPackage("encoding/base64")
		for n, e := range encs {
			g, _ := pk.Members[n].(*ssa.Global)
			if g == nil {
				continue
			}
			c := fr.ex.w.global(fr.ex, fr.ex.w.prog.gid(g))
			if (*c).(*Value) == p.(*Value) {
				return e
			}
		}
		return nil
	}
	reg("(*encoding/base64.Encoding).EncodeToString", func(fr *frame, a []Value) Value {
		e := which(fr, a[0])
		s, ok := fr.ex.bytesToStr(a[1].([]Value)).(string)
		if e == nil || !ok {
			return noIntr
		}
		return e.EncodeToString([]byte(s))
	})
	reg("(*encoding/base64.Encoding).DecodeString", func(fr *frame, a []Value) Value {
		e := which(fr, a[0])
		s, ok := a[1].(string)
		if e == nil || !ok {
			return noIntr
		}
		b, err := e.DecodeString(s)
		if err != nil {
			return noIntr
		}
		out := make([]Value, len(b))
		for i := range b {
			out[i] = uint64(b[i])
		}
		return tuple{out, iface{}}
	})

	// sort.Slice: stable insertion sort through the real comparison function
	ss := func(fr *frame, a []Value) Value {
		ex := fr.ex
		s, ok := a[0].(iface).v.([]Value)
		if !ok {
			ex.userPanic(fr, "sort.Slice of non-slice")
		}
		less := a[1].(*Closure)
		for i := 1; i < len(s); i++ {
			for j := i; j > 0; j-- {
				if !ex.truth(ex.call(fr, less, []Value{uint64(j), uint64(j - 1)})) {
					break
				}
				x, y := copyVal(s[j]), copyVal(s[j-1])
				ex.store(fr, &s[j], y)
				ex.store(fr, &s[j-1], x)
			}
		}
		return nil
	}
	reg("sort.Slice", ss)
	reg("sort.SliceStable", ss)

	reg("errors.As", func(fr *frame, a []Value) Value {
		ex := fr.ex
		err, tgt := a[0].(iface), a[1].(iface)
		if err.t == nil {
			return false
		}
		if tgt.t == nil {
			ex.userPanic(fr, "errors: target cannot be nil")
		}
		pt, ok := under(tgt.t).(*types.Pointer)
		if !ok || tgt.v.(*Value) == nil {
			ex.userPanic(fr, "errors: target must be a non-nil pointer")
		}
		T := canon(pt.Elem())
		return ex.errorsAs(fr, err, T, tgt.v.(*Value), tgt)
	})
}

func (ex *Exec) tryMethod(t types.Type, name string) *cfunc {
	sel := ex.w.prog.prog.MethodSets.MethodSet(t).Lookup(nil, name)
	if sel == nil {
		return nil
	}
	f := ex.w.prog.prog.MethodValue(sel)
	if f == nil {
		return nil
	}
	return ex.w.prog.cfn(f)
}

func (ex *Exec) errorsAs(fr *frame, err iface, T types.Type, dst *Value, tgt iface) bool {
	for err.t != nil {
		if it, ok := under(T).(*types.Interface); ok {
			if ex.w.implements(err.t, T, it) {
				ex.store(fr, dst, err)
				return true
			}
		} else if err.t == T {
			ex.store(fr, dst, copyVal(err.v))
			return true
		}
		if m := ex.tryMethod(err.t, "As"); m != nil && m.fn.Signature.Params().Len() == 1 && m.fn.Signature.Results().Len() == 1 {
			if ex.truth(ex.callFn(fr, m, []Value{copyVal(err.v), tgt}, nil)) {
				return true
			}
		}
		m := ex.tryMethod(err.t, "Unwrap")
		if m == nil {
			return false
		}
		switch r := ex.callFn(fr, m, []Value{copyVal(err.v)}, nil).(type) {
		case iface:
			err = r
		case []Value:
			for _, x := range r {
				if ex.errorsAs(fr, x.(iface), T, dst, tgt) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return false
}
