package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the loaded SSA of the harness, the code under test and everything they import.
type Program struct {
	prog    *ssa.Program
	fset    *token.FileSet
	roots   []*ssa.Package
	eager   []*ssa.Package // non-std packages in dependency order
	std     map[*ssa.Package]bool
	stdPath map[string]bool

	mu      sync.RWMutex
	cfuncs  map[*ssa.Function]*cfunc
	gmu     sync.Mutex
	gids    map[*ssa.Global]int32
	globals []*ssa.Global

	rtErrT   types.Type // runtime.errorString
	plainErr types.Type // runtime.plainErrorString? unused
	repoPfx  string
}

func loadProgram(dir string, patterns ...string) (*Program, error) {
	cfg := &packages.Config{Dir: dir, Mode: packages.LoadAllSyntax | packages.NeedModule,
		Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0")}
	ps, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load errors: %s", strings.Join(errs, "; "))
	}
	prog, roots := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{prog: prog, fset: prog.Fset, roots: roots, cfuncs: map[*ssa.Function]*cfunc{}, gids: map[*ssa.Global]int32{},
		std: map[*ssa.Package]bool{}, stdPath: map[string]bool{}}
	var order []*ssa.Package
	packages.Visit(ps, nil, func(pk *packages.Package) { // post-order
		sp := prog.Package(pk.Types)
		if sp == nil {
			return
		}
		if pk.Module == nil || lazyModule(pk.Module.Path) {
			p.std[sp] = true
			p.stdPath[pk.PkgPath] = true
		} else {
			order = append(order, sp)
		}
	})
	p.eager = order
	if rt := prog.ImportedPackage("runtime"); rt != nil {
		p.rtErrT = canon(rt.Type("errorString").Type())
	}
	return p, nil
}

// lazyModule: third-party modules whose packages are initialised when they are first used, as the standard library's are.
func lazyModule(path string) bool {
	for _, pre := range []string{"github.com/c-kruse/", "verif/", "github.com/Azure/go-amqp", "github.com/cenkalti/"} {
		if strings.HasPrefix(path, pre) {
			return false
		}
	}
	return true
}

// redirects are functions that a stand-in package replaces under the executor only.
var redirects = map[string][2]string{
	"(time.Time).MarshalJSON":                    {"/fake/json", "ModelTimeMarshalJSON"},
	"(*time.Time).UnmarshalJSON":                 {"/fake/json", "ModelTimeUnmarshalJSON"},
	"(*crypto/x509.CertPool).AppendCertsFromPEM": {"/fake/tls", "ModelAppendCertsFromPEM"},
	"crypto/x509.SystemCertPool":                 {"/fake/tls", "ModelSystemCertPool"},
	"(*crypto/x509.CertPool).Equal":              {"/fake/tls", "ModelPoolEqual"},
}

func (p *Program) redirect(name string) *ssa.Function {
	r, ok := redirects[name]
	if !ok {
		return nil
	}
	for _, pk := range p.prog.AllPackages() {
		if strings.HasPrefix(pk.Pkg.Path(), "verif/cmd/") && strings.HasSuffix(pk.Pkg.Path(), r[0]) {
			if f := pk.Func(r[1]); f != nil {
				return f
			}
		}
	}
	return nil
}

// inStd reports whether a place ("file:line (function)") is in the standard library: a crash there may be due to
// something that the executor does not model.
func (p *Program) inStd(where string) bool {
	i := strings.LastIndex(where, " (")
	if i < 0 {
		return false
	}
	f := strings.TrimSuffix(where[i+2:], ")")
	f = strings.TrimLeft(f, "(*")
	slash := strings.LastIndex(f, "/") + 1
	if dot := strings.Index(f[slash:], "."); dot >= 0 {
		return p.stdPath[f[:slash+dot]]
	}
	return false
}

func (p *Program) findFunc(name string) *ssa.Function {
	for _, r := range p.roots {
		if f := r.Func(name); f != nil {
			return f
		}
	}
	return nil
}

const (
	oSlot uint8 = iota
	oConst
	oGlobal
	oNone
)

type opnd struct {
	k uint8
	i int32
	v Value
}

const (
	kOther uint8 = iota
	kInt
	kBool
	kString
	kFloat
	kComplex
)

func kindOf(t types.Type) uint8 {
	switch b := under(t).(type) {
	case *types.Basic:
		i := b.Info()
		switch {
		case i&types.IsInteger != 0:
			return kInt
		case i&types.IsBoolean != 0:
			return kBool
		case i&types.IsString != 0:
			return kString
		case i&types.IsFloat != 0:
			return kFloat
		case i&types.IsComplex != 0:
			return kComplex
		}
	}
	return kOther
}

type cinstr struct {
	in     ssa.Instruction
	dst    int32
	ops    []opnd
	kind   uint8
	w      uint8
	signed bool
	t      types.Type // canonical main type
	t2     types.Type
	bi     *ssa.Builtin
	scall  *cfunc
	mcache sync.Map // invoke: types.Type -> *cfunc
	lib    bool
}

type cblock struct {
	ins   []*cinstr
	nphi  int
	succs []int
}

type cfunc struct {
	fn       *ssa.Function
	once     sync.Once
	intr     func(fr *frame, args []Value) Value
	nslots   int
	params   []int32
	fvs      []int32
	blocks   []cblock
	hasDefer bool
	recover  int
	atomic   bool // context package: scheduling points collapse
	isInit   bool
	std      bool
	repo     bool
	name     string
}

func (p *Program) cfn(f *ssa.Function) *cfunc {
	p.mu.RLock()
	c := p.cfuncs[f]
	p.mu.RUnlock()
	if c == nil {
		p.mu.Lock()
		c = p.cfuncs[f]
		if c == nil {
			c = &cfunc{fn: f, name: f.String()}
			p.cfuncs[f] = c
		}
		p.mu.Unlock()
	}
	return c
}

func (p *Program) gid(g *ssa.Global) int32 {
	p.gmu.Lock()
	defer p.gmu.Unlock()
	if i, ok := p.gids[g]; ok {
		return i
	}
	i := int32(len(p.globals))
	p.globals = append(p.globals, g)
	p.gids[g] = i
	return i
}

func constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return zero(c.Type())
	}
	t := under(c.Type())
	if b, ok := t.(*types.Basic); ok {
		i := b.Info()
		switch {
		case i&types.IsBoolean != 0:
			return constant.BoolVal(c.Value)
		case i&types.IsInteger != 0:
			w, _, _ := intInfo(t)
			v := constant.ToInt(c.Value)
			if x, ok := constant.Uint64Val(v); ok {
				return x & mask(w)
			}
			x, _ := constant.Int64Val(v)
			return uint64(x) & mask(w)
		case i&types.IsFloat != 0:
			f, _ := constant.Float64Val(c.Value)
			if b.Kind() == types.Float32 {
				f = float64(float32(f))
			}
			return f
		case i&types.IsComplex != 0:
			return c.Complex128()
		case i&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				return constant.StringVal(c.Value)
			}
			return string(rune(c.Int64()))
		}
	}
	panic(engineErr("const " + c.String()))
}

func originName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		return o.String()
	}
	return f.String()
}

func pkgPathOf(f *ssa.Function) string {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return f.Object().Pkg().Path()
	}
	return ""
}

func (p *Program) compile(c *cfunc) {
	c.once.Do(func() { p.compile1(c) })
}

func (p *Program) compile1(c *cfunc) {
	f := c.fn
	path := pkgPathOf(f)
	c.std = p.stdPath[path]
	c.atomic = path == "context"
	c.repo = strings.HasPrefix(path, "github.com/c-kruse/vanflow")
	if strings.HasPrefix(path, "verif/cmd/") && !strings.Contains(path, "/fake/") {
		c.repo = strings.HasPrefix(p.fset.Position(f.Pos()).Filename, "/repo/")
	}
	c.isInit = f.Synthetic == "package initializer"
	if h := lookupIntrinsic(originName(f), f); h != nil {
		c.intr = h
	}
	if r := p.redirect(originName(f)); r != nil {
		t := p.cfn(r)
		c.intr = func(fr *frame, args []Value) Value { return fr.ex.callFn(fr, t, args, nil) }
	}
	if f.Blocks == nil {
		if c.intr != nil {
			return
		}
		name := originName(f)
		c.intr = func(fr *frame, args []Value) Value {
			panic(unsupported("external function " + name))
		}
		return
	}
	slots := map[ssa.Value]int32{}
	n := int32(0)
	add := func(v ssa.Value) int32 {
		slots[v] = n
		n++
		return n - 1
	}
	for _, x := range f.Params {
		c.params = append(c.params, add(x))
	}
	for _, x := range f.FreeVars {
		c.fvs = append(c.fvs, add(x))
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	mkop := func(v ssa.Value) opnd {
		switch v := v.(type) {
		case nil:
			return opnd{k: oNone}
		case *ssa.Const:
			return opnd{k: oConst, v: constVal(v)}
		case *ssa.Global:
			return opnd{k: oGlobal, i: p.gid(v)}
		case *ssa.Function:
			return opnd{k: oConst, v: &Closure{fn: p.cfn(v)}}
		case *ssa.Builtin:
			return opnd{k: oNone}
		}
		s, ok := slots[v]
		if !ok {
			panic(engineErr("no slot for " + v.String()))
		}
		return opnd{k: oSlot, i: s}
	}
	for _, b := range f.Blocks {
		cb := cblock{}
		for _, s := range b.Succs {
			cb.succs = append(cb.succs, s.Index)
		}
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			ci := &cinstr{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = slots[v]
			}
			var rands []*ssa.Value
			rands = in.Operands(rands)
			for _, r := range rands {
				var v ssa.Value
				if r != nil {
					v = *r
				}
				if v == nil {
					ci.ops = append(ci.ops, opnd{k: oNone})
				} else {
					ci.ops = append(ci.ops, mkop(v))
				}
			}
			switch in := in.(type) {
			case *ssa.Phi:
				cb.nphi++
			case *ssa.BinOp:
				ci.kind = kindOf(in.X.Type())
				ci.w, ci.signed, _ = intInfo(in.X.Type())
				ci.t = canon(in.X.Type())
				ci.t2 = canon(in.Y.Type())
			case *ssa.UnOp:
				ci.kind = kindOf(in.X.Type())
				ci.w, ci.signed, _ = intInfo(in.X.Type())
				ci.t = canon(in.Type())
				ci.t2 = canon(in.X.Type())
			case *ssa.Convert:
				ci.t = canon(in.Type())
				ci.t2 = canon(in.X.Type())
			case *ssa.MakeInterface:
				ci.t = canon(in.X.Type())
			case *ssa.ChangeInterface:
				ci.t = canon(in.Type())
			case *ssa.TypeAssert:
				ci.t = canon(in.AssertedType)
			case *ssa.Alloc:
				ci.t = canon(deref(in.Type()))
			case *ssa.MakeSlice:
				ci.t = canon(under(in.Type()).(*types.Slice).Elem())
			case *ssa.MakeChan:
				ci.t = canon(under(in.Type()).(*types.Chan).Elem())
			case *ssa.Lookup:
				ci.kind = kindOf(in.X.Type())
				if m, ok := under(in.X.Type()).(*types.Map); ok {
					ci.t = canon(m.Elem())
				}
			case *ssa.Slice:
				ci.kind = kindOf(in.X.Type())
				ci.t = canon(in.X.Type())
			case *ssa.Range:
				ci.kind = kindOf(in.X.Type())
			case *ssa.Index:
				ci.kind = kindOf(in.X.Type())
			case *ssa.Call:
				p.prepCall(ci, &in.Call)
			case *ssa.Defer:
				c.hasDefer = true
				p.prepCall(ci, &in.Call)
			case *ssa.Go:
				p.prepCall(ci, &in.Call)
			}
			cb.ins = append(cb.ins, ci)
		}
		c.blocks = append(c.blocks, cb)
	}
	c.nslots = int(n)
	c.recover = -1
	if f.Recover != nil {
		c.recover = f.Recover.Index
	}
}

func (p *Program) prepCall(ci *cinstr, cc *ssa.CallCommon) {
	if cc.IsInvoke() {
		return
	}
	switch v := cc.Value.(type) {
	case *ssa.Builtin:
		ci.bi = v
		if len(cc.Args) > 0 {
			ci.t = canon(cc.Args[0].Type())
			ci.kind = kindOf(cc.Args[0].Type())
			ci.w, ci.signed, _ = intInfo(cc.Args[0].Type())
		}
	case *ssa.Function:
		ci.scall = p.cfn(v)
	}
}

func deref(t types.Type) types.Type {
	if p, ok := under(t).(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (p *Program) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	ps := p.fset.Position(pos)
	f := ps.Filename
	for _, pre := range []string{"/repo/", "/verif/harness/"} {
		f = strings.TrimPrefix(f, pre)
	}
	if i := strings.LastIndex(f, "/src/"); i >= 0 && strings.Contains(f, "go") {
		f = f[i+5:]
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

var _ = math.MaxInt64
