package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

// goPanic is a panic of the interpreted program.
type goPanic struct {
	v     iface
	where string
}

// pathEnd ends the current path (infeasible assumption, pruned, violation found ...).
type pathEnd struct{ why string }

// killG unwinds a parked goroutine at the end of a path.
type killG struct{}

type deferRec struct {
	fn   *Closure
	args []Value
	tail *deferRec
	bi   *cinstr
}

type frame struct {
	ex        *Exec
	g         *G
	caller    *frame
	fn        *cfunc
	env       []Value
	defers    *deferRec
	result    Value
	panicking bool
	pval      any
	cur       *cinstr
	block     int
	prev      int
	depth     int
	done      bool
}

func (fr *frame) val(o *opnd) Value {
	switch o.k {
	case oSlot:
		return fr.env[o.i]
	case oConst:
		return o.v
	case oGlobal:
		w := fr.ex.w
		if int(o.i) < len(w.globals) {
			if p := w.globals[o.i]; p != nil {
				return p
			}
		}
		return w.global(fr.ex, o.i)
	}
	return nil
}

func (fr *frame) where() string {
	for f := fr; f != nil; f = f.caller {
		if f.fn != nil && f.cur != nil {
			p := f.cur.in.Pos()
			if p.IsValid() {
				return fr.ex.w.prog.pos(p) + " (" + f.fn.name + ")"
			}
		}
	}
	return "?"
}

func (fr *frame) stack() []string {
	var out []string
	for f := fr; f != nil && len(out) < 24; f = f.caller {
		if f.fn == nil {
			continue
		}
		p := token.NoPos
		if f.cur != nil {
			p = f.cur.in.Pos()
		}
		out = append(out, f.fn.name+" at "+fr.ex.w.prog.pos(p))
	}
	return out
}

func (ex *Exec) rtPanic(fr *frame, msg string) {
	panic(goPanic{iface{ex.w.prog.rtErrT, msg}, fr.where()})
}

func (ex *Exec) userPanic(fr *frame, msg string) {
	panic(goPanic{iface{canon(types.Typ[types.String]), msg}, fr.where()})
}

// call invokes a function value.
func (ex *Exec) call(caller *frame, c *Closure, args []Value) Value {
	if c == nil {
		ex.rtPanic(caller, "invalid memory address or nil pointer dereference (nil func call)")
	}
	if c.native != nil {
		return c.native(caller, args)
	}
	return ex.callFn(caller, c.fn, args, c.env)
}

func (ex *Exec) callFn(caller *frame, fn *cfunc, args []Value, env []Value) Value {
	ex.w.prog.compile(fn)
	if fn.intr != nil {
		if r := fn.intr(caller, args); r != any(noIntr) {
			return r
		}
		if fn.blocks == nil {
			panic(unsupported("function " + fn.name + " on these arguments"))
		}
	}
	if fn.isInit {
		// package initialisers run on demand (std) or eagerly (others)
		return ex.w.nestedInit(ex, caller, fn, args)
	}
	return ex.run(caller, fn, args, env)
}

const maxDepth = 1500

func (ex *Exec) run(caller *frame, fn *cfunc, args []Value, env []Value) Value {
	g := caller.g
	fr := &frame{ex: ex, g: g, caller: caller, fn: fn, depth: caller.depth + 1}
	if fr.depth > maxDepth {
		ex.violation(fr, "unbounded-recursion", "call depth exceeds "+fmt.Sprint(maxDepth)+" in "+fn.name)
	}
	fr.env = make([]Value, fn.nslots)
	for i, s := range fn.params {
		fr.env[s] = args[i]
	}
	for i, s := range fn.fvs {
		fr.env[s] = env[i]
	}
	if fn.repo && !ex.w.coverFn[fn] {
		ex.w.coverFn[fn] = true
	}
	g.top = fr
	if fn.atomic && g.atomic == 0 {
		g.atomicFirst = true
	}
	if fn.atomic {
		g.atomic++
	}
	if fn.hasDefer {
		fr.execDefer()
	} else {
		fr.loop()
	}
	if fn.atomic {
		g.atomic--
	}
	g.top = caller
	return fr.result
}

func (fr *frame) execDefer() {
	at, af := fr.g.atomic, fr.g.atomicFirst
	for {
		r := fr.tryLoop()
		if r == nil {
			return
		}
		fr.g.top = fr
		fr.g.atomic, fr.g.atomicFirst = at, af
		fr.panicking = true
		fr.pval = r
		fr.runDefers() // re-panics unless recovered
		// recovered
		if fr.fn.recover >= 0 {
			fr.block, fr.prev = fr.fn.recover, 0
			continue
		}
		fr.result = zeroResult(fr.fn.fn.Signature)
		return
	}
}

func zeroResult(sig *types.Signature) Value {
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		return zero(sig.Results().At(0).Type())
	}
	return zero(sig.Results())
}

func (fr *frame) tryLoop() (r any) {
	ok := false
	defer func() {
		if ok {
			return
		}
		r = recover()
		if _, isP := r.(goPanic); !isP {
			panic(r)
		}
	}()
	fr.loop()
	ok = true
	return nil
}

func (fr *frame) runDefers() {
	for fr.defers != nil {
		d := fr.defers
		fr.defers = d.tail
		fr.runDefer(d)
	}
	if fr.panicking {
		panic(fr.pval)
	}
}

func (fr *frame) runDefer(d *deferRec) {
	ok := false
	defer func() {
		if ok {
			return
		}
		r := recover()
		if _, isP := r.(goPanic); !isP {
			panic(r)
		}
		fr.g.top = fr
		fr.panicking = true
		fr.pval = r
	}()
	if d.bi != nil {
		fr.builtin(d.bi, d.args)
	} else {
		fr.ex.call(fr, d.fn, d.args)
	}
	ok = true
}

func (fr *frame) loop() {
	ex := fr.ex
	fn := fr.fn
	for {
		b := &fn.blocks[fr.block]
		ins := b.ins
		i := 0
		if b.nphi > 0 {
			// parallel phi evaluation
			pi := -1
			preds := fn.fn.Blocks[fr.block].Preds
			for k, p := range preds {
				if p.Index == fr.prev {
					pi = k
					break
				}
			}
			if b.nphi == 1 {
				fr.env[ins[0].dst] = fr.val(&ins[0].ops[pi])
			} else {
				var tmp [16]Value
				t := tmp[:0]
				for k := 0; k < b.nphi; k++ {
					t = append(t, fr.val(&ins[k].ops[pi]))
				}
				for k := 0; k < b.nphi; k++ {
					fr.env[ins[k].dst] = t[k]
				}
			}
			i = b.nphi
		}
		ex.steps += len(ins)
		if ex.steps > ex.stepLimit {
			ex.overSteps(fr)
		}
		next := -1
		for ; i < len(ins); i++ {
			ci := ins[i]
			fr.cur = ci
			switch in := ci.in.(type) {
			case *ssa.If:
				c := fr.val(&ci.ops[0])
				t, isB := c.(bool)
				if !isB {
					t = ex.branch(c.(*Term))
				}
				if t {
					next = b.succs[0]
				} else {
					next = b.succs[1]
				}
			case *ssa.Jump:
				next = b.succs[0]
			case *ssa.Return:
				switch len(ci.ops) {
				case 0:
				case 1:
					fr.result = fr.val(&ci.ops[0])
				default:
					t := make(tuple, len(ci.ops))
					for k := range ci.ops {
						t[k] = fr.val(&ci.ops[k])
					}
					fr.result = t
				}
				return
			case *ssa.Panic:
				v := fr.val(&ci.ops[0]).(iface)
				panic(goPanic{v, fr.where()})
			case *ssa.RunDefers:
				fr.runDefers()
			case *ssa.BinOp:
				fr.env[ci.dst] = fr.binop(ci, in.Op, fr.val(&ci.ops[0]), fr.val(&ci.ops[1]))
			case *ssa.UnOp:
				fr.env[ci.dst] = fr.unop(ci, in, fr.val(&ci.ops[0]))
			case *ssa.Alloc:
				p := new(Value)
				*p = zero(ci.t)
				fr.env[ci.dst] = p
			case *ssa.Store:
				p := fr.ptr(fr.val(&ci.ops[0]))
				ex.store(fr, p, copyVal(fr.val(&ci.ops[1])))
			case *ssa.FieldAddr:
				p := fr.ptr(fr.val(&ci.ops[0]))
				st, ok := (*p).(structure)
				if !ok {
					panic(unsupported(fmt.Sprintf("field address of %T in %s", *p, fr.where())))
				}
				fr.env[ci.dst] = &st[in.Field]
			case *ssa.Field:
				fr.env[ci.dst] = copyVal(fr.val(&ci.ops[0]).(structure)[in.Field])
			case *ssa.IndexAddr:
				fr.env[ci.dst] = fr.indexAddr(fr.val(&ci.ops[0]), fr.val(&ci.ops[1]))
			case *ssa.Index:
				fr.env[ci.dst] = fr.index(fr.val(&ci.ops[0]), fr.val(&ci.ops[1]))
			case *ssa.Call:
				fr.env[ci.dst] = fr.doCall(ci, &in.Call)
			case *ssa.Extract:
				fr.env[ci.dst] = fr.val(&ci.ops[0]).(tuple)[in.Index]
			case *ssa.MakeInterface:
				fr.env[ci.dst] = iface{ci.t, copyVal(fr.val(&ci.ops[0]))}
			case *ssa.ChangeInterface:
				fr.env[ci.dst] = fr.val(&ci.ops[0])
			case *ssa.ChangeType:
				fr.env[ci.dst] = fr.val(&ci.ops[0])
			case *ssa.Convert:
				fr.env[ci.dst] = fr.convert(ci.t, ci.t2, fr.val(&ci.ops[0]))
			case *ssa.MultiConvert:
				fr.env[ci.dst] = fr.convert(canon(in.Type()), canon(in.X.Type()), fr.val(&ci.ops[0]))
			case *ssa.TypeAssert:
				fr.env[ci.dst] = fr.typeAssert(in, ci, fr.val(&ci.ops[0]).(iface))
			case *ssa.MakeClosure:
				c := fr.val(&ci.ops[0]).(*Closure)
				env := make([]Value, len(ci.ops)-1)
				for k := range env {
					env[k] = fr.val(&ci.ops[k+1])
				}
				fr.env[ci.dst] = &Closure{fn: c.fn, env: env}
			case *ssa.MakeMap:
				fr.env[ci.dst] = newMap(ex.epoch)
			case *ssa.MakeChan:
				n := ex.concInt(fr, fr.val(&ci.ops[0]))
				if n < 0 {
					ex.rtPanic(fr, "makechan: size out of range")
				}
				fr.env[ci.dst] = ex.newChan(int(n), zero(ci.t))
			case *ssa.MakeSlice:
				fr.env[ci.dst] = fr.makeSlice(ci, fr.val(&ci.ops[0]), fr.val(&ci.ops[1]))
			case *ssa.Slice:
				fr.env[ci.dst] = fr.slice(ci, fr.val(&ci.ops[0]), fr.val(&ci.ops[1]), fr.val(&ci.ops[2]), fr.val(&ci.ops[3]))
			case *ssa.SliceToArrayPointer:
				s := fr.val(&ci.ops[0]).([]Value)
				n := deref(in.Type()).Underlying().(*types.Array).Len()
				if int64(len(s)) < n {
					ex.rtPanic(fr, "slice to array conversion: length too short")
				}
				p := new(Value)
				*p = array(s[:n:n])
				if s == nil {
					p = nilPtr
				}
				fr.env[ci.dst] = p
			case *ssa.Lookup:
				fr.env[ci.dst] = fr.lookup(ci, in.CommaOk, fr.val(&ci.ops[0]), fr.val(&ci.ops[1]))
			case *ssa.MapUpdate:
				m := fr.val(&ci.ops[0]).(*Map)
				if m == nil {
					panic(goPanic{iface{ex.w.prog.rtErrT, "assignment to entry in nil map"}, fr.where()})
				}
				ex.raceMap(fr, m, true)
				ex.mapSet(fr, m, copyVal(fr.val(&ci.ops[1])), copyVal(fr.val(&ci.ops[2])))
			case *ssa.Range:
				fr.env[ci.dst] = fr.rangeIter(ci, fr.val(&ci.ops[0]))
			case *ssa.Next:
				fr.env[ci.dst] = fr.next(in, fr.val(&ci.ops[0]))
			case *ssa.Defer:
				d := &deferRec{tail: fr.defers}
				d.fn, d.args, d.bi = fr.prepCall(ci, &in.Call)
				fr.defers = d
			case *ssa.Go:
				c, args, bi := fr.prepCall(ci, &in.Call)
				if bi != nil {
					panic(unsupported("go builtin"))
				}
				ex.spawn(fr, c, args, "")
			case *ssa.Send:
				ex.chanSend(fr, fr.val(&ci.ops[0]).(*Chan), copyVal(fr.val(&ci.ops[1])))
			case *ssa.Select:
				fr.env[ci.dst] = ex.doSelect(fr, in, ci)
			default:
				panic(engineErr(fmt.Sprintf("instruction %T", in)))
			}
		}
		fr.prev = fr.block
		fr.block = next
	}
}

func (fr *frame) ptr(v Value) *Value {
	switch p := v.(type) {
	case *Value:
		if p == nil {
			fr.ex.rtPanic(fr, "invalid memory address or nil pointer dereference")
		}
		return p
	case *symPtr:
		i := fr.ex.concretize(fr, p.idx)
		return &p.base[i]
	}
	panic(unsupported(fmt.Sprintf("dereference of %T at %s", v, fr.where())))
}

func (ex *Exec) load(fr *frame, p *Value) Value {
	if ex.raceOn {
		ex.raceAccess(fr, p, false)
	}
	return copyVal(*p)
}

func (ex *Exec) store(fr *frame, p *Value, v Value) {
	if ex.raceOn {
		ex.raceAccess(fr, p, true)
	}
	ex.storeRaw(p, v)
}

func (ex *Exec) storeRaw(p *Value, v Value) {
	switch n := v.(type) {
	case structure:
		if o, ok := (*p).(structure); ok && len(o) == len(n) {
			for i := range n {
				ex.storeRaw(&o[i], n[i])
			}
			return
		}
	case array:
		if o, ok := (*p).(array); ok && len(o) == len(n) {
			for i := range n {
				ex.storeRaw(&o[i], n[i])
			}
			return
		}
	}
	if ex.epoch != 0 {
		ex.journal = append(ex.journal, undo{p, *p})
	}
	*p = v
}

func (fr *frame) unop(ci *cinstr, in *ssa.UnOp, x Value) Value {
	ex := fr.ex
	switch in.Op {
	case token.MUL:
		if sp, ok := x.(*symPtr); ok {
			return ex.loadSym(fr, sp)
		}
		return ex.load(fr, fr.ptr(x))
	case token.ARROW:
		v, ok := ex.chanRecv(fr, x.(*Chan), under(in.X.Type()).(*types.Chan).Elem())
		if in.CommaOk {
			return tuple{v, ok}
		}
		return v
	case token.NOT:
		if b, ok := x.(bool); ok {
			return !b
		}
		return ex.fromTerm(ex.tt().Not(x.(*Term)))
	case token.SUB:
		switch ci.kind {
		case kInt:
			if v, ok := x.(uint64); ok {
				return (-v) & mask(ci.w)
			}
			return ex.fromTerm(ex.tt().Neg(x.(*Term)))
		case kFloat:
			return -x.(float64)
		case kComplex:
			return -x.(complex128)
		}
	case token.XOR:
		if v, ok := x.(uint64); ok {
			return (^v) & mask(ci.w)
		}
		return ex.fromTerm(ex.tt().BNot(x.(*Term)))
	}
	panic(engineErr("unop " + in.String()))
}

// loadSym builds an ite chain over scalar elements.
func (ex *Exec) loadSym(fr *frame, sp *symPtr) Value {
	tt := ex.tt()
	allScalar := true
	var w uint8
	for _, v := range sp.base {
		switch x := v.(type) {
		case uint64:
		case bool:
		case *Term:
			w = x.w
		default:
			allScalar = false
		}
		if !allScalar {
			break
		}
	}
	if !allScalar || len(sp.base) > 300 {
		i := ex.concretize(fr, sp.idx)
		return ex.load(fr, &sp.base[i])
	}
	_ = w
	// width: derive from element; integers need a static type so look at the max
	var acc *Term
	el := func(v Value) *Term {
		switch x := v.(type) {
		case *Term:
			return x
		case bool:
			return tt.Bool(x)
		case uint64:
			return tt.Const(ex.symElemW(fr), x)
		}
		return nil
	}
	lo, hi := tt.rng(sp.idx)
	if hi >= uint64(len(sp.base)) {
		hi = uint64(len(sp.base)) - 1
	}
	// group equal elements
	for i := int(hi); i >= int(lo); i-- {
		e := el(sp.base[i])
		if acc == nil {
			acc = e
			continue
		}
		acc = tt.Ite(tt.Eq(sp.idx, tt.Const(sp.idx.w, uint64(i))), e, acc)
	}
	return ex.fromTerm(acc)
}

// symElemW returns the element width for the load being executed.
func (ex *Exec) symElemW(fr *frame) uint8 {
	if u, ok := fr.cur.in.(*ssa.UnOp); ok {
		w, _, ok := intInfo(u.Type())
		if ok {
			return w
		}
	}
	if u, ok := fr.cur.in.(*ssa.Index); ok {
		w, _, ok := intInfo(u.Type())
		if ok {
			return w
		}
	}
	return 64
}

func (fr *frame) indexAddr(x, idx Value) Value {
	ex := fr.ex
	var base []Value
	switch x := x.(type) {
	case []Value:
		base = x
	case *Value:
		if x == nil {
			ex.rtPanic(fr, "invalid memory address or nil pointer dereference")
		}
		base = []Value((*x).(array))
	case *symPtr:
		base = []Value((*fr.ptr(x)).(array))
	default:
		panic(unsupported(fmt.Sprintf("index address of %T at %s", x, fr.where())))
	}
	switch i := idx.(type) {
	case uint64:
		i = fr.idx64(i)
		if i >= uint64(len(base)) {
			ex.rtPanic(fr, fmt.Sprintf("index out of range [%d] with length %d", int64(i), len(base)))
		}
		return &base[i]
	case *Term:
		t := fr.idxTerm(i)
		tt := ex.tt()
		if !ex.branch(tt.Ult(t, tt.Const(t.w, uint64(len(base))))) {
			ex.rtPanic(fr, "index out of range")
		}
		return &symPtr{base, t}
	}
	panic(engineErr("indexAddr"))
}

// index operands may have any integer type
func (fr *frame) idxType() types.Type {
	switch in := fr.cur.in.(type) {
	case *ssa.IndexAddr:
		return in.Index.Type()
	case *ssa.Index:
		return in.Index.Type()
	case *ssa.Lookup:
		return in.Index.Type()
	}
	return types.Typ[types.Int]
}
func (fr *frame) idx64(i uint64) uint64 {
	w, s, _ := intInfo(fr.idxType())
	if s && w < 64 {
		return uint64(sx(i, w))
	}
	return i
}
func (fr *frame) idxTerm(i *Term) *Term {
	_, s, _ := intInfo(fr.idxType())
	if s {
		return fr.ex.tt().Sext(i, 64)
	}
	return fr.ex.tt().Zext(i, 64)
}

func (fr *frame) index(x, idx Value) Value {
	ex := fr.ex
	switch x := x.(type) {
	case array:
		p := fr.indexAddr([]Value(x), idx)
		if sp, ok := p.(*symPtr); ok {
			return ex.loadSym(fr, sp)
		}
		return copyVal(*(p.(*Value)))
	case string, *SymStr, *Opaque:
		return fr.strIndex(x, idx)
	}
	panic(engineErr(fmt.Sprintf("index %T", x)))
}

func (fr *frame) makeSlice(ci *cinstr, l, c Value) Value {
	ex := fr.ex
	n := ex.concInt(fr, l)
	m := ex.concInt(fr, c)
	if n < 0 || n > 1<<24 {
		ex.rtPanic(fr, "makeslice: len out of range")
	}
	if m < n || m > 1<<24 {
		ex.rtPanic(fr, "makeslice: cap out of range")
	}
	s := make([]Value, m)
	if m > 0 {
		z := zero(ci.t)
		switch z.(type) {
		case structure, array:
			s[0] = z
			for i := 1; i < len(s); i++ {
				s[i] = copyVal(z)
			}
		default:
			for i := range s {
				s[i] = z
			}
		}
	}
	return s[:n]
}

func (fr *frame) slice(ci *cinstr, x, lo, hi, mx Value) Value {
	ex := fr.ex
	if ci.kind == kString {
		return fr.strSlice(x, lo, hi)
	}
	var base []Value
	isNil := false
	switch x := x.(type) {
	case []Value:
		base = x
		isNil = x == nil
	case *Value:
		if x == nil {
			ex.rtPanic(fr, "invalid memory address or nil pointer dereference")
		}
		base = []Value((*x).(array))
	default:
		panic(unsupported(fmt.Sprintf("slice of %T", x)))
	}
	l, h, m := int64(0), int64(len(base)), int64(cap(base))
	tt := ex.tt()
	bound := func(v Value, max int64, what string) int64 {
		if t, ok := v.(*Term); ok {
			t = tt.Sext(t, 64)
			if !ex.branch(tt.Ule(t, tt.Const(64, uint64(max)))) {
				ex.rtPanic(fr, "slice bounds out of range")
			}
			return int64(ex.concretize(fr, t))
		}
		return int64(v.(uint64))
	}
	if mx != nil {
		m = bound(mx, int64(cap(base)), "max")
		if m < 0 || m > int64(cap(base)) {
			ex.rtPanic(fr, fmt.Sprintf("slice bounds out of range [::%d] with capacity %d", m, cap(base)))
		}
	}
	if hi != nil {
		h = bound(hi, m, "high")
	}
	if h < 0 || h > m {
		ex.rtPanic(fr, fmt.Sprintf("slice bounds out of range [:%d] with capacity %d", h, m))
	}
	if lo != nil {
		l = bound(lo, h, "low")
	}
	if l < 0 || l > h {
		ex.rtPanic(fr, fmt.Sprintf("slice bounds out of range [%d:%d]", l, h))
	}
	if isNil {
		return []Value(nil)
	}
	return base[:cap(base)][l:h:m]
}

func (fr *frame) typeAssert(in *ssa.TypeAssert, ci *cinstr, x iface) Value {
	ok := false
	var v Value
	if it, isI := under(ci.t).(*types.Interface); isI {
		if x.t != nil {
			ok = fr.ex.w.implements(x.t, ci.t, it)
		}
		v = x
	} else {
		ok = x.t == ci.t
		v = x.v
		if ok {
			v = copyVal(v)
		}
	}
	if ok {
		if in.CommaOk {
			return tuple{v, true}
		}
		return v
	}
	if in.CommaOk {
		return tuple{zero(in.AssertedType), false}
	}
	have := "nil"
	if x.t != nil {
		have = typeStr(x.t)
	}
	fr.ex.rtPanic(fr, fmt.Sprintf("interface conversion: interface is %s, not %s", have, typeStr(ci.t)))
	return nil
}

func (w *Worker) implements(t types.Type, key types.Type, it *types.Interface) bool {
	if r, ok := w.implCache[[2]any{t, key}]; ok {
		return r
	}
	r := types.Implements(t, it)
	w.implCache[[2]any{t, key}] = r
	return r
}

func (fr *frame) prepCall(ci *cinstr, cc *ssa.CallCommon) (*Closure, []Value, *cinstr) {
	if cc.IsInvoke() {
		recv := fr.val(&ci.ops[0]).(iface)
		if recv.t == nil {
			fr.ex.rtPanic(fr, "invalid memory address or nil pointer dereference (method "+cc.Method.Name()+" on nil interface)")
		}
		fn := fr.ex.w.method(recv.t, cc.Method)
		args := make([]Value, len(ci.ops))
		args[0] = copyVal(recv.v)
		for k := 1; k < len(ci.ops); k++ {
			args[k] = copyVal(fr.val(&ci.ops[k]))
		}
		return &Closure{fn: fn}, args, nil
	}
	n := len(ci.ops) - 1
	args := make([]Value, n)
	for k := 0; k < n; k++ {
		args[k] = copyVal(fr.val(&ci.ops[k+1]))
	}
	if ci.bi != nil {
		return nil, args, ci
	}
	return fr.val(&ci.ops[0]).(*Closure), args, nil
}

func (w *Worker) method(t types.Type, m *types.Func) *cfunc {
	k := methKey{t, m}
	if f, ok := w.methCache[k]; ok {
		return f
	}
	fn := w.prog.prog.LookupMethod(t, m.Pkg(), m.Name())
	if fn == nil {
		panic(engineErr("no method " + m.Name() + " on " + t.String()))
	}
	c := w.prog.cfn(fn)
	w.methCache[k] = c
	return c
}

type methKey struct {
	t types.Type
	m *types.Func
}

func (fr *frame) doCall(ci *cinstr, cc *ssa.CallCommon) Value {
	if ci.scall != nil {
		n := len(ci.ops) - 1
		args := make([]Value, n)
		for k := 0; k < n; k++ {
			args[k] = copyVal(fr.val(&ci.ops[k+1]))
		}
		return fr.ex.callFn(fr, ci.scall, args, nil)
	}
	c, args, bi := fr.prepCall(ci, cc)
	if bi != nil {
		return fr.builtin(bi, args)
	}
	return fr.ex.call(fr, c, args)
}

func (fr *frame) builtin(ci *cinstr, args []Value) Value {
	ex := fr.ex
	switch ci.bi.Name() {
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		s := args[0].([]Value)
		var add []Value
		switch y := args[1].(type) {
		case []Value:
			add = y
		default:
			add = ex.strBytes(fr, y)
		}
		if len(add) == 0 {
			return s
		}
		if len(s)+len(add) <= cap(s) {
			// write in place (journaled)
			out := s[:len(s)+len(add)]
			tmp := make([]Value, len(add))
			for i, v := range add {
				tmp[i] = copyVal(v)
			}
			for i, v := range tmp {
				p := &out[len(s)+i]
				if *p == nil {
					*p = v
				} else {
					ex.store(fr, p, v)
				}
			}
			return out
		}
		n := len(s) + len(add)
		c := 2 * cap(s)
		if cap(s) > 256 {
			c = cap(s) + (cap(s)+768)/4
		}
		if c < n {
			c = n
		}
		out := make([]Value, n, c)
		for i, v := range s {
			if ex.raceOn {
				ex.raceAccess(fr, &s[i], false)
			}
			out[i] = copyVal(v)
		}
		for i, v := range add {
			out[len(s)+i] = copyVal(v)
		}
		if c > n {
			// spare capacity holds zero values
			var z Value
			if st, ok := under(ci.t).(*types.Slice); ok {
				z = zero(st.Elem())
			}
			sp := out[n:c]
			for i := range sp {
				sp[i] = copyVal(z)
			}
		}
		return out
	case "copy":
		dst := args[0].([]Value)
		var src []Value
		switch y := args[1].(type) {
		case []Value:
			src = y
		default:
			src = ex.strBytes(fr, y)
		}
		n := min(len(dst), len(src))
		tmp := make([]Value, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			ex.store(fr, &dst[i], tmp[i])
		}
		return uint64(n)
	case "len":
		switch x := args[0].(type) {
		case []Value:
			return uint64(len(x))
		case string:
			return uint64(len(x))
		case *SymStr:
			return ex.fromTerm(x.n)
		case *Opaque:
			panic(unsupported("len of opaque text: " + x.desc))
		case array:
			return uint64(len(x))
		case *Value:
			return uint64(under(deref(ci.t)).(*types.Array).Len())
		case *Map:
			if x == nil {
				return uint64(0)
			}
			ex.raceMap(fr, x, false)
			return uint64(x.live)
		case *Chan:
			return uint64(ex.chanLen(fr, x))
		}
	case "cap":
		switch x := args[0].(type) {
		case []Value:
			return uint64(cap(x))
		case array:
			return uint64(len(x))
		case *Chan:
			if x == nil {
				return uint64(0)
			}
			return uint64(x.cap)
		case *Value:
			return uint64(under(deref(ci.t)).(*types.Array).Len())
		}
	case "delete":
		m := args[0].(*Map)
		if m != nil {
			ex.raceMap(fr, m, true)
			ex.mapDelete(fr, m, args[1])
		}
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *Map:
			if x != nil {
				ex.raceMap(fr, x, true)
				ex.touchMap(x)
				for _, e := range x.ents {
					e.dead = true
				}
				x.ents, x.idx, x.nsym, x.live = nil, map[any]*mapEnt{}, 0, 0
			}
		case []Value:
			z := zero(under(ci.t).(*types.Slice).Elem())
			for i := range x {
				ex.store(fr, &x[i], copyVal(z))
			}
		}
		return nil
	case "close":
		ex.chanClose(fr, args[0].(*Chan))
		return nil
	case "panic":
		panic(goPanic{args[0].(iface), fr.where()})
	case "recover":
		// fr is the deferred function's frame; its caller runs the defers
		if fr.caller != nil && fr.caller.panicking {
			fr.caller.panicking = false
			p := fr.caller.pval.(goPanic)
			fr.caller.pval = nil
			return p.v
		}
		return iface{}
	case "print", "println":
		return nil
	case "min", "max":
		op := token.LSS
		if ci.bi.Name() == "max" {
			op = token.GTR
		}
		acc := args[0]
		for _, y := range args[1:] {
			c := fr.cmp(op, ci.kind, ci.w, ci.signed, y, acc)
			if t, ok := c.(*Term); ok {
				if ci.kind == kInt {
					acc = ex.fromTerm(ex.tt().Ite(t, ex.toTerm(y, ci.w), ex.toTerm(acc, ci.w)))
					continue
				}
				if ex.branch(t) {
					acc = y
				}
				continue
			}
			if c.(bool) {
				acc = y
			}
		}
		return acc
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Value); ok && p == nil {
			ex.rtPanic(fr, fmt.Sprintf("value method %v.%v called using nil pointer", vstr(args[1], 0), vstr(args[2], 0)))
		}
		return args[0]
	case "real":
		return real(args[0].(complex128))
	case "imag":
		return imag(args[0].(complex128))
	case "complex":
		return complex(args[0].(float64), args[1].(float64))
	case "String": // unsafe.String
		p := args[0]
		return ex.unsafeString(fr, p, args[1])
	case "StringData", "SliceData":
		return &unsafeData{args[0]}
	case "Slice": // unsafe.Slice
		if d, ok := args[0].(*unsafeData); ok {
			n := int(ex.concInt(fr, args[1]))
			switch x := d.v.(type) {
			case []Value:
				return x[:n]
			default:
				return ex.strBytes(fr, x)[:n]
			}
		}
	}
	panic(unsupported("builtin " + ci.bi.Name() + " at " + fr.where()))
}

type unsafeData struct{ v Value }

func (ex *Exec) unsafeString(fr *frame, p Value, n Value) Value {
	switch d := p.(type) {
	case *unsafeData:
		switch x := d.v.(type) {
		case []Value:
			k := int(ex.concInt(fr, n))
			return ex.bytesToStr(x[:k])
		default:
			return x
		}
	case *Value:
		if d == nil {
			return ""
		}
		// the first element of a slice of bytes
		return ex.bytesToStr(unsafe.Slice(d, int(ex.concInt(fr, n))))
	}
	panic(unsupported("unsafe.String at " + fr.where()))
}

// ---- conversions ----

func (fr *frame) convert(dst, src types.Type, x Value) Value {
	ex := fr.ex
	ud, us := under(dst), under(src)
	if _, ok := ud.(*types.TypeParam); ok {
		panic(engineErr("convert to type parameter"))
	}
	// unsafe pointers
	if b, ok := ud.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return x
	}
	if b, ok := us.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		if w, _, ok := intInfo(ud); ok && w == 64 {
			panic(unsupported("pointer to integer conversion at " + fr.where()))
		}
		return x
	}
	if dw, _, ok := intInfo(ud); ok {
		if sw, ss, ok := intInfo(us); ok {
			return ex.intConv(x, sw, ss, dw)
		}
		if f, ok := x.(float64); ok {
			_, ds, _ := intInfo(ud)
			if ds {
				return uint64(int64(f)) & mask(dw)
			}
			return uint64(f) & mask(dw)
		}
	}
	if isFloatT(ud) {
		f32 := ud.(*types.Basic).Kind() == types.Float32
		var f float64
		switch v := x.(type) {
		case float64:
			f = v
		case uint64:
			w, s, _ := intInfo(us)
			if s {
				f = float64(sx(v, w))
			} else {
				f = float64(v)
			}
		case *Term:
			w, s, _ := intInfo(us)
			k := ex.concretize(fr, v)
			if s {
				f = float64(sx(k, w))
			} else {
				f = float64(k)
			}
		}
		if f32 {
			f = float64(float32(f))
		}
		return f
	}
	if isStringT(ud) {
		switch v := x.(type) {
		case string, *SymStr, *Opaque:
			return v
		case []Value:
			el := under(us.(*types.Slice).Elem()).(*types.Basic)
			if el.Kind() == types.Uint8 {
				if ex.raceOn {
					for i := range v {
						ex.raceAccess(fr, &v[i], false)
					}
				}
				return ex.bytesToStr(v)
			}
			var sb strings.Builder
			for _, r := range v {
				sb.WriteRune(rune(int32(ex.concretizeV(fr, r))))
			}
			return sb.String()
		case uint64:
			w, s, _ := intInfo(us)
			if s {
				return string(rune(sx(v, w)))
			}
			return string(rune(v))
		case *Term:
			return string(rune(sx(ex.concretize(fr, v), v.w)))
		}
	}
	if sl, ok := ud.(*types.Slice); ok {
		if isStringT(us) {
			el := under(sl.Elem()).(*types.Basic)
			if el.Kind() == types.Uint8 {
				return ex.strBytes(fr, x)
			}
			s := ex.concStr(fr, x)
			out := []Value{}
			for _, r := range s {
				out = append(out, uint64(uint32(r)))
			}
			return out
		}
	}
	if isComplexT(ud) {
		return x
	}
	switch us.(type) {
	case *types.Slice:
		if at, ok := ud.(*types.Array); ok {
			s := x.([]Value)
			if int64(len(s)) < at.Len() {
				ex.rtPanic(fr, "slice to array conversion")
			}
			return copyVal(array(s[:at.Len()]))
		}
	}
	return x
}

func isComplexT(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Info()&types.IsComplex != 0
}

func (ex *Exec) intConv(x Value, sw uint8, ss bool, dw uint8) Value {
	if v, ok := x.(uint64); ok {
		if ss && sw < dw {
			return uint64(sx(v, sw)) & mask(dw)
		}
		return v & mask(dw)
	}
	t := x.(*Term)
	tt := ex.tt()
	switch {
	case dw == sw:
		return t
	case dw < sw:
		return ex.fromTerm(tt.Extract(t, dw-1, 0))
	case ss:
		return ex.fromTerm(tt.Sext(t, dw))
	}
	return ex.fromTerm(tt.Zext(t, dw))
}

func (ex *Exec) tt() *Terms { return ex.w.tt }

func (ex *Exec) toTerm(v Value, w uint8) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case uint64:
		return ex.w.tt.Const(w, v)
	case bool:
		return ex.w.tt.Bool(v)
	}
	panic(engineErr(fmt.Sprintf("toTerm %T", v)))
}

func (ex *Exec) fromTerm(t *Term) Value {
	if t.op == OConst {
		if t.w == 0 {
			return t.k != 0
		}
		return t.k
	}
	return t
}

// truth forces a boolean value (forking if symbolic)
func (ex *Exec) truth(v Value) bool {
	if b, ok := v.(bool); ok {
		return b
	}
	return ex.branch(v.(*Term))
}
