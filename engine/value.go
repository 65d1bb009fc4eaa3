package main

import (
	"fmt"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Value is one of:
//
//	bool | *Term(w=0)          booleans
//	uint64 | *Term(w)          integers (truncated to their width, zero-extended)
//	float64                    floats
//	complex128
//	string | *SymStr | *Opaque strings
//	*Value                     pointers (and unsafe.Pointer); *symPtr for symbolic element addresses
//	structure, array, []Value  structs, arrays, slices
//	*Map, *Chan, *Closure, iface, tuple
//	other Go values are opaque handles of intrinsics
type Value = any

type structure []Value
type array []Value
type tuple []Value

type iface struct {
	t types.Type // canonical; nil for nil interface
	v Value
}

type Closure struct {
	fn     *cfunc
	env    []Value
	native func(fr *frame, args []Value) Value // host function
}

// symPtr is the address of base[idx] with symbolic idx (in range).
type symPtr struct {
	base []Value
	idx  *Term
}

// Opaque is text whose content the engine does not model (formatted symbolic values).
type Opaque struct{ desc string }

// SymStr is a string with symbolic bytes; bytes at or beyond n are zero.
type SymStr struct {
	b []*Term // len(b) = maximum length
	n *Term   // 64-bit length
}

func (s *SymStr) fixed() bool { return s.n.isConst() && int(s.n.k) == len(s.b) }

var nilPtr = (*Value)(nil)

// canonical types, shared by all workers
var (
	canonMu  sync.Mutex
	canonMap typeutil.Map
	canonFP  sync.Map // types.Type -> types.Type
)

func canon(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if c, ok := canonFP.Load(t); ok {
		return c.(types.Type)
	}
	canonMu.Lock()
	defer canonMu.Unlock()
	u := types.Unalias(t)
	c := canonMap.At(u)
	if c == nil {
		canonMap.Set(u, u)
		c = u
	}
	canonFP.Store(t, c)
	return c.(types.Type)
}

func under(t types.Type) types.Type { return t.Underlying() }

// intInfo returns width and signedness of an integer type.
func intInfo(t types.Type) (w uint8, signed bool, ok bool) {
	b, isB := under(t).(*types.Basic)
	if !isB {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return 0, false, false
}

func isStringT(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBoolT(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isFloatT(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func zero(t types.Type) Value {
	switch t := t.(type) {
	case *types.Basic:
		info := t.Info()
		switch {
		case info&types.IsBoolean != 0:
			return false
		case info&types.IsInteger != 0:
			return uint64(0)
		case info&types.IsFloat != 0:
			return float64(0)
		case info&types.IsComplex != 0:
			return complex128(0)
		case info&types.IsString != 0:
			return ""
		case t.Kind() == types.UnsafePointer:
			return nilPtr
		case t.Kind() == types.UntypedNil:
			return nil
		}
		panic(engineErr("zero of " + t.String()))
	case *types.Pointer:
		return nilPtr
	case *types.Struct:
		s := make(structure, t.NumFields())
		for i := range s {
			s[i] = zero(t.Field(i).Type())
		}
		return s
	case *types.Array:
		a := make(array, t.Len())
		if len(a) > 0 {
			z := zero(t.Elem())
			for i := range a {
				if i == 0 {
					a[i] = z
				} else {
					a[i] = copyVal(z)
				}
			}
		}
		return a
	case *types.Slice:
		return []Value(nil)
	case *types.Map:
		return (*Map)(nil)
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Interface:
		return iface{}
	case *types.Tuple:
		s := make(tuple, t.Len())
		for i := range s {
			s[i] = zero(t.At(i).Type())
		}
		return s
	case *types.TypeParam:
		panic(engineErr("zero of type parameter " + t.String()))
	}
	if u := t.Underlying(); u != t {
		return zero(u)
	}
	if u := types.Unalias(t); u != t {
		return zero(u)
	}
	panic(engineErr(fmt.Sprintf("zero: %T %v", t, t)))
}

func copyVal(v Value) Value {
	switch v := v.(type) {
	case structure:
		c := make(structure, len(v))
		for i, x := range v {
			switch x.(type) {
			case structure, array:
				c[i] = copyVal(x)
			default:
				c[i] = x
			}
		}
		return c
	case array:
		c := make(array, len(v))
		for i, x := range v {
			switch x.(type) {
			case structure, array:
				c[i] = copyVal(x)
			default:
				c[i] = x
			}
		}
		return c
	}
	return v
}

func isNilValue(v Value) bool {
	switch v := v.(type) {
	case nil:
		return true
	case *Value:
		return v == nil
	case []Value:
		return v == nil
	case *Map:
		return v == nil
	case *Chan:
		return v == nil
	case *Closure:
		return v == nil
	case iface:
		return v.t == nil
	}
	return false
}

func typeStr(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// debug rendering of a value
func vstr(v Value, d int) string {
	if d > 4 {
		return "…"
	}
	switch v := v.(type) {
	case nil:
		return "nil"
	case bool, float64:
		return fmt.Sprint(v)
	case uint64:
		if int64(v) < 0 {
			return fmt.Sprint(int64(v))
		}
		return fmt.Sprint(v)
	case string:
		return fmt.Sprintf("%q", v)
	case *Term:
		return v.String()
	case *SymStr:
		var sb strings.Builder
		sb.WriteString("str[")
		for i, b := range v.b {
			if i > 0 {
				sb.WriteString(" ")
			}
			sb.WriteString(b.String())
		}
		sb.WriteString("]/" + v.n.String())
		return sb.String()
	case *Opaque:
		return "opaque:" + v.desc
	case structure:
		return "{" + vlist(v, d) + "}"
	case array:
		return "[" + vlist(v, d) + "]"
	case []Value:
		return "[]{" + vlist(v, d) + "}"
	case tuple:
		return "(" + vlist(v, d) + ")"
	case *Value:
		if v == nil {
			return "nil"
		}
		return "&" + vstr(*v, d+1)
	case iface:
		if v.t == nil {
			return "nil"
		}
		return typeStr(v.t) + "(" + vstr(v.v, d+1) + ")"
	case *Map:
		if v == nil {
			return "nil"
		}
		var sb strings.Builder
		sb.WriteString("map{")
		for _, e := range v.ents {
			if e.dead {
				continue
			}
			sb.WriteString(vstr(e.k, d+1) + ":" + vstr(e.v, d+1) + " ")
		}
		sb.WriteString("}")
		return sb.String()
	case *Closure:
		if v == nil {
			return "nil"
		}
		if v.fn != nil {
			return v.fn.fn.String()
		}
		return "native"
	}
	return fmt.Sprintf("<%T>", v)
}
func vlist(vs []Value, d int) string {
	var p []string
	for i, x := range vs {
		if i > 12 {
			p = append(p, "…")
			break
		}
		p = append(p, vstr(x, d+1))
	}
	return strings.Join(p, " ")
}

// Map is a Go map: entries in insertion order plus an index for concrete keys.
type Map struct {
	ents  []*mapEnt
	idx   map[any]*mapEnt // concrete keys
	nsym  int             // live entries with symbolic keys
	live  int
	epoch uint64
	iters int
}
type mapEnt struct {
	k, v Value
	dead bool
	sym  bool
	hk   any
}

func newMap(epoch uint64) *Map { return &Map{idx: map[any]*mapEnt{}, epoch: epoch} }

type hkIface struct {
	t types.Type
	v any
}
type hkStruct struct{ s string }

// hashKey returns a comparable Go key for a fully concrete value; ok=false if it has symbolic parts.
func hashKey(v Value) (any, bool) {
	switch v := v.(type) {
	case bool, uint64, string, complex128:
		return v, true
	case float64:
		return v, true
	case *Term:
		if v.isConst() {
			if v.w == 0 {
				return v.k != 0, true
			}
			return v.k, true
		}
		return nil, false
	case *SymStr:
		return nil, false
	case *Opaque:
		panic(unsupported("map key with opaque text " + v.desc))
	case iface:
		if v.t == nil {
			return hkIface{}, true
		}
		k, ok := hashKey(v.v)
		if !ok {
			return nil, false
		}
		return hkIface{v.t, k}, true
	case structure:
		var sb strings.Builder
		for _, x := range v {
			k, ok := hashKey(x)
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sb, "%T:%v;", k, k)
		}
		return hkStruct{sb.String()}, true
	case array:
		return hashKey(structure(v))
	case *Value, *Chan:
		return v, true
	case *Map, *Closure, []Value:
		return nil, true // caller panics earlier (unhashable)
	default:
		return v, true
	}
}

type unsupported string

func (u unsupported) Error() string { return "unsupported: " + string(u) }

func methodSetLookup(prog *ssa.Program, t types.Type, pkg *types.Package, name string) *ssa.Function {
	sel := prog.MethodSets.MethodSet(t).Lookup(pkg, name)
	if sel == nil {
		return nil
	}
	return prog.MethodValue(sel)
}
