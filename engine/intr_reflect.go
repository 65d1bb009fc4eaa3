package main

import (
	"fmt"
	"go/types"
	"reflect"
	"strings"
)

// rtypeH is what a reflect.Type points to.
type rtypeH struct{ t types.Type }

// rv is the content of a reflect.Value.
type rv struct {
	t  types.Type
	v  Value
	p  *Value // addressable location
	ro bool   // obtained through an unexported field
	eb bool   // ... and that only because it is embedded there (exported fields of it are accessible)
}

func (w *Worker) rtype(t types.Type) *Value {
	t = canon(t)
	if p, ok := w.rtypes[t]; ok {
		return p
	}
	p := new(Value)
	*p = &rtypeH{t}
	w.rtypes[t] = p
	return p
}

func (ex *Exec) typeIface(t types.Type) iface {
	if t == nil {
		return iface{}
	}
	return iface{canon(types.NewPointer(ex.w.namedType("reflect", "rtype"))), ex.w.rtype(t)}
}

func typeOfH(fr *frame, v Value) types.Type {
	if i, ok := v.(iface); ok {
		if i.t == nil {
			fr.ex.rtPanic(fr, "invalid memory address or nil pointer dereference (nil reflect.Type)")
		}
		v = i.v
	}
	switch x := v.(type) {
	case *Value:
		if x == nil {
			fr.ex.rtPanic(fr, "invalid memory address or nil pointer dereference (nil reflect.Type)")
		}
		if h, ok := (*x).(*rtypeH); ok {
			return h.t
		}
	case structure:
		return typeOfH(fr, x[0])
	}
	panic(unsupported(fmt.Sprintf("reflect.Type of %T", v)))
}

func rkind(t types.Type) reflect.Kind {
	switch u := under(t).(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Pointer:
		return reflect.Pointer
	case *types.Struct:
		return reflect.Struct
	case *types.Array:
		return reflect.Array
	case *types.Slice:
		return reflect.Slice
	case *types.Map:
		return reflect.Map
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	}
	return reflect.Invalid
}

func (ex *Exec) mkRV(r *rv) Value {
	if r == nil {
		return structure{nilPtr, nilPtr, uint64(0)}
	}
	return structure{r, nilPtr, uint64(1)}
}

func getRV(fr *frame, v Value, op string) *rv {
	if s, ok := v.(structure); ok {
		if r, ok := s[0].(*rv); ok {
			return r
		}
	}
	panic(goPanic{iface{canon(types.Typ[types.String]), "reflect: call of " + op + " on zero Value"}, fr.where()})
}

func (r *rv) get(fr *frame) Value {
	if r.p != nil {
		return fr.ex.load(fr, r.p)
	}
	return copyVal(r.v)
}

func (r *rv) iface(fr *frame) iface {
	v := r.get(fr)
	if i, ok := v.(iface); ok {
		if _, isI := under(r.t).(*types.Interface); isI {
			return i
		}
	}
	return iface{canon(r.t), v}
}

func (ex *Exec) isZero(fr *frame, t types.Type, v Value) Value {
	switch x := v.(type) {
	case bool:
		return !x
	case uint64:
		return x == 0
	case float64:
		return x == 0
	case complex128:
		return x == 0
	case string:
		return x == ""
	case *SymStr:
		return ex.fromTerm(ex.tt().Eq(x.n, ex.tt().Const(64, 0)))
	case *Opaque:
		return false
	case *Term:
		if x.w == 0 {
			return ex.fromTerm(ex.tt().Not(x))
		}
		return ex.fromTerm(ex.tt().Eq(x, ex.tt().Const(x.w, 0)))
	case structure:
		st := under(t).(*types.Struct)
		var acc Value = true
		for i := range x {
			acc = ex.and(acc, ex.isZero(fr, st.Field(i).Type(), x[i]))
		}
		return acc
	case array:
		var acc Value = true
		for i := range x {
			acc = ex.and(acc, ex.isZero(fr, under(t).(*types.Array).Elem(), x[i]))
		}
		return acc
	}
	return isNilValue(v)
}

func (ex *Exec) structField(f *types.Var, tag string, i int, w *Worker) Value {
	// StructField{Name, PkgPath, Type, Tag, Offset, Index, Anonymous}
	pk := ""
	if !f.Exported() && f.Pkg() != nil {
		pk = f.Pkg().Path()
	}
	return structure{f.Name(), pk, ex.typeIface(f.Type()), tag, uint64(i * 8), []Value{uint64(i)}, f.Embedded()}
}

// lookupField finds a possibly promoted field; returns its index path.
func lookupField(t types.Type, name string) []int {
	st, ok := under(t).(*types.Struct)
	if !ok {
		return nil
	}
	type ent struct {
		st  *types.Struct
		idx []int
	}
	level := []ent{{st, nil}}
	for d := 0; d < 6 && len(level) > 0; d++ {
		var next []ent
		var found [][]int
		for _, e := range level {
			for i := 0; i < e.st.NumFields(); i++ {
				f := e.st.Field(i)
				p := append(append([]int{}, e.idx...), i)
				if f.Name() == name {
					found = append(found, p)
				}
				if f.Embedded() {
					ft := f.Type()
					if pt, ok := under(ft).(*types.Pointer); ok {
						ft = pt.Elem()
					}
					if s2, ok := under(ft).(*types.Struct); ok {
						next = append(next, ent{s2, p})
					}
				}
			}
		}
		if len(found) == 1 {
			return found[0]
		}
		if len(found) > 1 {
			return nil
		}
		level = next
	}
	return nil
}

func regReflect() {
	rpanic := func(fr *frame, msg string) {
		panic(goPanic{iface{canon(types.Typ[types.String]), msg}, fr.where()})
	}
	reg("reflect.TypeOf", func(fr *frame, a []Value) Value { return fr.ex.typeIface(a[0].(iface).t) })
	reg("internal/reflectlite.TypeOf", func(fr *frame, a []Value) Value {
		i := a[0].(iface)
		if i.t == nil {
			return iface{}
		}
		t := fr.ex.w.namedType("internal/reflectlite", "rtype")
		return iface{canon(t), structure{fr.ex.w.rtype(i.t)}}
	})
	reg("reflect.ValueOf", func(fr *frame, a []Value) Value {
		i := a[0].(iface)
		if i.t == nil {
			return fr.ex.mkRV(nil)
		}
		return fr.ex.mkRV(&rv{t: i.t, v: i.v})
	})
	reg("reflect.New", func(fr *frame, a []Value) Value {
		t := typeOfH(fr, a[0])
		p := new(Value)
		*p = zero(t)
		return fr.ex.mkRV(&rv{t: canon(types.NewPointer(t)), v: p})
	})
	reg("reflect.Zero", func(fr *frame, a []Value) Value {
		t := typeOfH(fr, a[0])
		return fr.ex.mkRV(&rv{t: t, v: zero(t)})
	})
	ptrTo := func(fr *frame, a []Value) Value { return fr.ex.typeIface(types.NewPointer(typeOfH(fr, a[0]))) }
	reg("reflect.PointerTo", ptrTo)
	reg("reflect.PtrTo", ptrTo)
	reg("reflect.SliceOf", func(fr *frame, a []Value) Value { return fr.ex.typeIface(types.NewSlice(typeOfH(fr, a[0]))) })
	reg("reflect.MakeMap", func(fr *frame, a []Value) Value {
		return fr.ex.mkRV(&rv{t: typeOfH(fr, a[0]), v: newMap(fr.ex.epoch)})
	})
	reg("reflect.MakeMapWithSize", func(fr *frame, a []Value) Value {
		return fr.ex.mkRV(&rv{t: typeOfH(fr, a[0]), v: newMap(fr.ex.epoch)})
	})
	reg("reflect.MakeSlice", func(fr *frame, a []Value) Value {
		t := typeOfH(fr, a[0])
		el := under(t).(*types.Slice).Elem()
		s := make([]Value, int(fr.ex.concInt(fr, a[1])), int(fr.ex.concInt(fr, a[2])))
		for i := range s[:cap(s)] {
			s[:cap(s)][i] = zero(el)
		}
		return fr.ex.mkRV(&rv{t: t, v: s})
	})
	reg("reflect.Indirect", func(fr *frame, a []Value) Value {
		if s, ok := a[0].(structure); ok {
			if r, ok := s[0].(*rv); ok && rkind(r.t) == reflect.Pointer {
				return intrinsics["(reflect.Value).Elem"](fr, a)
			}
		}
		return a[0]
	})
	reg("reflect.DeepEqual", func(fr *frame, a []Value) Value {
		return fr.ex.deepEqual(fr, a[0].(iface), a[1].(iface))
	})

	// methods of reflect.Type
	for _, rt := range []string{"(*reflect.rtype).", "(internal/reflectlite.rtype)."} {
		T := func(name string, f func(fr *frame, t types.Type, a []Value) Value) {
			reg(rt+name, func(fr *frame, a []Value) Value { return f(fr, typeOfH(fr, a[0]), a) })
		}
		T("Kind", func(fr *frame, t types.Type, a []Value) Value { return uint64(rkind(t)) })
		T("Name", func(fr *frame, t types.Type, a []Value) Value {
			switch x := t.(type) {
			case *types.Named:
				s := typeStr(x)
				return s[strings.LastIndex(s, ".")+1:]
			case *types.Basic:
				return x.Name()
			}
			return ""
		})
		T("PkgPath", func(fr *frame, t types.Type, a []Value) Value {
			if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
				return n.Obj().Pkg().Path()
			}
			return ""
		})
		T("String", func(fr *frame, t types.Type, a []Value) Value { return typeStr(t) })
		T("Comparable", func(fr *frame, t types.Type, a []Value) Value { return types.Comparable(t) })
		T("Elem", func(fr *frame, t types.Type, a []Value) Value {
			switch u := under(t).(type) {
			case *types.Pointer:
				return fr.ex.typeIface(u.Elem())
			case *types.Slice:
				return fr.ex.typeIface(u.Elem())
			case *types.Array:
				return fr.ex.typeIface(u.Elem())
			case *types.Map:
				return fr.ex.typeIface(u.Elem())
			case *types.Chan:
				return fr.ex.typeIface(u.Elem())
			}
			rpanic(fr, "reflect: Elem of invalid type "+typeStr(t))
			return nil
		})
		T("Key", func(fr *frame, t types.Type, a []Value) Value {
			return fr.ex.typeIface(under(t).(*types.Map).Key())
		})
		T("Len", func(fr *frame, t types.Type, a []Value) Value { return uint64(under(t).(*types.Array).Len()) })
		T("NumField", func(fr *frame, t types.Type, a []Value) Value {
			st, ok := under(t).(*types.Struct)
			if !ok {
				rpanic(fr, "reflect: NumField of non-struct type "+typeStr(t))
			}
			return uint64(st.NumFields())
		})
		T("Field", func(fr *frame, t types.Type, a []Value) Value {
			st, ok := under(t).(*types.Struct)
			if !ok {
				rpanic(fr, "reflect: Field of non-struct type "+typeStr(t))
			}
			i := fr.ex.concInt(fr, a[1])
			if i < 0 || int(i) >= st.NumFields() {
				rpanic(fr, "reflect: Field index out of bounds")
			}
			return fr.ex.structField(st.Field(int(i)), st.Tag(int(i)), int(i), fr.ex.w)
		})
		T("FieldByName", func(fr *frame, t types.Type, a []Value) Value {
			p := lookupField(t, fr.ex.concStr(fr, a[1]))
			if p == nil {
				return tuple{zero(fr.ex.w.namedType("reflect", "StructField")), false}
			}
			cur := t
			var sf Value
			for k, i := range p {
				if pt, ok := under(cur).(*types.Pointer); ok && k > 0 {
					cur = pt.Elem()
				}
				st := under(cur).(*types.Struct)
				sf = fr.ex.structField(st.Field(i), st.Tag(i), i, fr.ex.w)
				cur = st.Field(i).Type()
			}
			var ix []Value
			for _, i := range p {
				ix = append(ix, uint64(i))
			}
			sf.(structure)[5] = ix
			return tuple{sf, true}
		})
		T("Implements", func(fr *frame, t types.Type, a []Value) Value {
			u := typeOfH(fr, a[1])
			it, ok := under(u).(*types.Interface)
			if !ok {
				rpanic(fr, "reflect: non-interface type passed to Type.Implements")
			}
			return fr.ex.w.implements(t, u, it)
		})
		T("AssignableTo", func(fr *frame, t types.Type, a []Value) Value { return types.AssignableTo(t, typeOfH(fr, a[1])) })
		T("ConvertibleTo", func(fr *frame, t types.Type, a []Value) Value { return types.ConvertibleTo(t, typeOfH(fr, a[1])) })
		T("NumMethod", func(fr *frame, t types.Type, a []Value) Value {
			ms := fr.ex.w.prog.prog.MethodSets.MethodSet(t)
			n := 0
			for i := 0; i < ms.Len(); i++ {
				if ms.At(i).Obj().Exported() {
					n++
				}
			}
			return uint64(n)
		})
		T("Bits", func(fr *frame, t types.Type, a []Value) Value {
			w, _, _ := intInfo(t)
			return uint64(w)
		})
		T("Size", func(fr *frame, t types.Type, a []Value) Value {
			return uint64(types.SizesFor("gc", "amd64").Sizeof(t))
		})
	}

	V := func(name string, f func(fr *frame, r *rv, a []Value) Value) {
		reg("(reflect.Value)."+name, func(fr *frame, a []Value) Value { return f(fr, getRV(fr, a[0], "reflect.Value."+name), a) })
	}
	kindPanic := func(fr *frame, m string, r *rv) {
		rpanic(fr, "reflect: call of reflect.Value."+m+" on "+rkind(r.t).String()+" Value")
	}
	reg("(reflect.Value).IsValid", func(fr *frame, a []Value) Value { _, ok := a[0].(structure)[0].(*rv); return ok })
	reg("(reflect.Value).Kind", func(fr *frame, a []Value) Value {
		if r, ok := a[0].(structure)[0].(*rv); ok {
			return uint64(rkind(r.t))
		}
		return uint64(0)
	})
	V("Type", func(fr *frame, r *rv, a []Value) Value { return fr.ex.typeIface(r.t) })
	V("Interface", func(fr *frame, r *rv, a []Value) Value {
		if r.ro {
			rpanic(fr, "reflect.Value.Interface: cannot return value obtained from unexported field or method")
		}
		return r.iface(fr)
	})
	V("CanInterface", func(fr *frame, r *rv, a []Value) Value { return !r.ro })
	V("CanAddr", func(fr *frame, r *rv, a []Value) Value { return r.p != nil })
	V("CanSet", func(fr *frame, r *rv, a []Value) Value { return r.p != nil && !r.ro })
	V("IsNil", func(fr *frame, r *rv, a []Value) Value {
		switch rkind(r.t) {
		case reflect.Pointer, reflect.Map, reflect.Slice, reflect.Func, reflect.Interface, reflect.Chan, reflect.UnsafePointer:
			return isNilValue(r.get(fr))
		}
		kindPanic(fr, "IsNil", r)
		return nil
	})
	V("IsZero", func(fr *frame, r *rv, a []Value) Value { return fr.ex.isZero(fr, r.t, r.get(fr)) })
	V("Elem", func(fr *frame, r *rv, a []Value) Value {
		switch rkind(r.t) {
		case reflect.Pointer:
			p := r.get(fr).(*Value)
			if p == nil {
				return fr.ex.mkRV(nil)
			}
			return fr.ex.mkRV(&rv{t: canon(under(r.t).(*types.Pointer).Elem()), p: p, ro: r.ro, eb: r.eb})
		case reflect.Interface:
			i := r.get(fr).(iface)
			if i.t == nil {
				return fr.ex.mkRV(nil)
			}
			return fr.ex.mkRV(&rv{t: i.t, v: i.v, ro: r.ro, eb: r.eb})
		}
		kindPanic(fr, "Elem", r)
		return nil
	})
	V("Addr", func(fr *frame, r *rv, a []Value) Value {
		if r.p == nil {
			rpanic(fr, "reflect.Value.Addr of unaddressable value")
		}
		return fr.ex.mkRV(&rv{t: canon(types.NewPointer(r.t)), v: r.p, ro: r.ro, eb: r.eb})
	})
	field := func(fr *frame, r *rv, i int) *rv {
		st := under(r.t).(*types.Struct)
		f := st.Field(i)
		sticky := r.ro && !r.eb
		n := &rv{t: canon(f.Type()), ro: sticky || !f.Exported(), eb: !sticky && !f.Exported() && f.Embedded()}
		if r.p != nil {
			n.p = &(*r.p).(structure)[i]
		} else {
			n.v = copyVal(r.v.(structure)[i])
		}
		return n
	}
	V("Field", func(fr *frame, r *rv, a []Value) Value {
		st, ok := under(r.t).(*types.Struct)
		if !ok {
			kindPanic(fr, "Field", r)
		}
		i := int(fr.ex.concInt(fr, a[1]))
		if i < 0 || i >= st.NumFields() {
			rpanic(fr, "reflect: Field index out of range")
		}
		return fr.ex.mkRV(field(fr, r, i))
	})
	byIndex := func(fr *frame, r *rv, path []int) (*rv, bool) {
		for k, i := range path {
			if k > 0 && rkind(r.t) == reflect.Pointer {
				p := r.get(fr).(*Value)
				if p == nil {
					return nil, false
				}
				r = &rv{t: canon(under(r.t).(*types.Pointer).Elem()), p: p, ro: r.ro, eb: r.eb}
			}
			r = field(fr, r, i)
		}
		return r, true
	}
	V("FieldByIndex", func(fr *frame, r *rv, a []Value) Value {
		var path []int
		for _, x := range a[1].([]Value) {
			path = append(path, int(fr.ex.concInt(fr, x)))
		}
		n, ok := byIndex(fr, r, path)
		if !ok {
			rpanic(fr, "reflect: indirection through nil pointer to embedded struct")
		}
		return fr.ex.mkRV(n)
	})
	V("FieldByName", func(fr *frame, r *rv, a []Value) Value {
		p := lookupField(r.t, fr.ex.concStr(fr, a[1]))
		if p == nil {
			return fr.ex.mkRV(nil)
		}
		n, ok := byIndex(fr, r, p)
		if !ok {
			rpanic(fr, "reflect: indirection through nil pointer to embedded struct")
		}
		return fr.ex.mkRV(n)
	})
	V("NumField", func(fr *frame, r *rv, a []Value) Value {
		st, ok := under(r.t).(*types.Struct)
		if !ok {
			kindPanic(fr, "NumField", r)
		}
		return uint64(st.NumFields())
	})
	mustSet := func(fr *frame, r *rv, m string) {
		if r.ro {
			rpanic(fr, "reflect: reflect.Value."+m+" using value obtained using unexported field")
		}
		if r.p == nil {
			rpanic(fr, "reflect: reflect.Value."+m+" using unaddressable value")
		}
	}
	V("Set", func(fr *frame, r *rv, a []Value) Value {
		mustSet(fr, r, "Set")
		x := getRV(fr, a[1], "reflect.Set")
		if x.ro {
			rpanic(fr, "reflect: reflect.Set using value obtained using unexported field")
		}
		if !types.AssignableTo(x.t, r.t) {
			rpanic(fr, "reflect.Set: value of type "+typeStr(x.t)+" is not assignable to type "+typeStr(r.t))
		}
		v := x.get(fr)
		if _, isI := under(r.t).(*types.Interface); isI {
			if _, already := under(x.t).(*types.Interface); !already {
				v = iface{canon(x.t), v}
			}
		}
		fr.ex.store(fr, r.p, v)
		return nil
	})
	V("SetZero", func(fr *frame, r *rv, a []Value) Value {
		mustSet(fr, r, "SetZero")
		fr.ex.store(fr, r.p, zero(r.t))
		return nil
	})
	setK := func(name string, ks ...reflect.Kind) {
		V(name, func(fr *frame, r *rv, a []Value) Value {
			mustSet(fr, r, name)
			k := rkind(r.t)
			for _, x := range ks {
				if x == k {
					v := a[1]
					if w, _, ok := intInfo(r.t); ok {
						v = fr.ex.intConv(v, 64, true, w)
					}
					fr.ex.store(fr, r.p, v)
					return nil
				}
			}
			kindPanic(fr, name, r)
			return nil
		})
	}
	setK("SetInt", reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64)
	setK("SetUint", reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr)
	setK("SetString", reflect.String)
	setK("SetBool", reflect.Bool)
	setK("SetFloat", reflect.Float32, reflect.Float64)
	getK := func(name string, ks ...reflect.Kind) {
		V(name, func(fr *frame, r *rv, a []Value) Value {
			k := rkind(r.t)
			for _, x := range ks {
				if x == k {
					v := r.get(fr)
					if w, s, ok := intInfo(r.t); ok {
						v = fr.ex.intConv(v, w, s, 64)
					}
					return v
				}
			}
			kindPanic(fr, name, r)
			return nil
		})
	}
	getK("Int", reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64)
	getK("Uint", reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr)
	getK("Bool", reflect.Bool)
	getK("Float", reflect.Float32, reflect.Float64)
	canK := func(name string, lo, hi reflect.Kind) {
		V(name, func(fr *frame, r *rv, a []Value) Value { k := rkind(r.t); return k >= lo && k <= hi })
	}
	canK("CanInt", reflect.Int, reflect.Int64)
	canK("CanUint", reflect.Uint, reflect.Uintptr)
	reg("(reflect.Value).String", func(fr *frame, a []Value) Value {
		r, ok := a[0].(structure)[0].(*rv)
		if !ok {
			return "<invalid Value>"
		}
		if rkind(r.t) == reflect.String {
			return r.get(fr)
		}
		return "<" + typeStr(r.t) + " Value>"
	})
	V("Len", func(fr *frame, r *rv, a []Value) Value {
		switch x := r.get(fr).(type) {
		case []Value:
			return uint64(len(x))
		case array:
			return uint64(len(x))
		case *Map:
			if x == nil {
				return uint64(0)
			}
			return uint64(x.live)
		case string, *SymStr:
			return fr.ex.fromTerm(fr.ex.strLen(x))
		}
		kindPanic(fr, "Len", r)
		return nil
	})
	V("Index", func(fr *frame, r *rv, a []Value) Value {
		i := int(fr.ex.concInt(fr, a[1]))
		switch x := r.get(fr).(type) {
		case []Value:
			if i < 0 || i >= len(x) {
				rpanic(fr, "reflect: slice index out of range")
			}
			return fr.ex.mkRV(&rv{t: canon(under(r.t).(*types.Slice).Elem()), p: &x[i], ro: r.ro, eb: r.eb})
		}
		panic(unsupported("reflect.Value.Index"))
	})
	mapEl := func(r *rv) types.Type { return canon(under(r.t).(*types.Map).Elem()) }
	V("MapKeys", func(fr *frame, r *rv, a []Value) Value {
		m := r.get(fr).(*Map)
		out := []Value{}
		if m != nil {
			var es []*mapEnt
			for _, e := range m.ents {
				if !e.dead {
					es = append(es, e)
				}
			}
			fr.ex.permute(fr, es)
			for _, e := range es {
				out = append(out, fr.ex.mkRV(&rv{t: canon(under(r.t).(*types.Map).Key()), v: copyVal(e.k)}))
			}
		}
		return out
	})
	// an iterator is a structure of the map's reflect.Value, the remaining keys and the present key
	V("MapRange", func(fr *frame, r *rv, a []Value) Value {
		p := new(Value)
		*p = structure{a[0], intrinsics["(reflect.Value).MapKeys"](fr, a), uint64(0)}
		return p
	})
	reg("(*reflect.MapIter).Next", func(fr *frame, a []Value) Value {
		it := (*a[0].(*Value)).(structure)
		keys, i := it[1].([]Value), int(it[2].(uint64))
		for i++; i <= len(keys); i++ { // entries deleted meanwhile are left out
			if intrinsics["(reflect.Value).MapIndex"](fr, []Value{it[0], keys[i-1]}).(structure)[2] != uint64(0) {
				break
			}
		}
		it[2] = uint64(i)
		return i <= len(keys)
	})
	reg("(*reflect.MapIter).Key", func(fr *frame, a []Value) Value {
		it := (*a[0].(*Value)).(structure)
		return it[1].([]Value)[it[2].(uint64)-1]
	})
	reg("(*reflect.MapIter).Value", func(fr *frame, a []Value) Value {
		it := (*a[0].(*Value)).(structure)
		return intrinsics["(reflect.Value).MapIndex"](fr, []Value{it[0], it[1].([]Value)[it[2].(uint64)-1]})
	})
	V("MapIndex", func(fr *frame, r *rv, a []Value) Value {
		m := r.get(fr).(*Map)
		k := getRV(fr, a[1], "MapIndex")
		kv := k.get(fr)
		if _, isI := under(under(r.t).(*types.Map).Key()).(*types.Interface); isI {
			kv = k.iface(fr)
		}
		e := fr.ex.mapFind(fr, m, kv)
		if e == nil {
			return fr.ex.mkRV(nil)
		}
		return fr.ex.mkRV(&rv{t: mapEl(r), v: copyVal(e.v)})
	})
	V("SetMapIndex", func(fr *frame, r *rv, a []Value) Value {
		m := r.get(fr).(*Map)
		k := getRV(fr, a[1], "SetMapIndex")
		kv := k.get(fr)
		if _, isI := under(under(r.t).(*types.Map).Key()).(*types.Interface); isI {
			kv = k.iface(fr)
		}
		x, ok := a[2].(structure)[0].(*rv)
		if !ok {
			fr.ex.mapDelete(fr, m, kv)
			return nil
		}
		v := x.get(fr)
		if _, isI := under(mapEl(r)).(*types.Interface); isI {
			v = x.iface(fr)
		}
		fr.ex.mapSet(fr, m, kv, v)
		return nil
	})
	V("Convert", func(fr *frame, r *rv, a []Value) Value {
		t := typeOfH(fr, a[1])
		if !types.ConvertibleTo(r.t, t) {
			rpanic(fr, "reflect.Value.Convert: value of type "+typeStr(r.t)+" cannot be converted to type "+typeStr(t))
		}
		if _, isI := under(t).(*types.Interface); isI {
			return fr.ex.mkRV(&rv{t: t, v: r.iface(fr)})
		}
		return fr.ex.mkRV(&rv{t: t, v: fr.convert(t, r.t, r.get(fr)), ro: r.ro, eb: r.eb})
	})
	V("CanConvert", func(fr *frame, r *rv, a []Value) Value { return types.ConvertibleTo(r.t, typeOfH(fr, a[1])) })
	V("Comparable", func(fr *frame, r *rv, a []Value) Value { return types.Comparable(r.t) })
	V("Equal", func(fr *frame, r *rv, a []Value) Value {
		o := getRV(fr, a[1], "Equal")
		return fr.ex.equal(fr, nil, r.iface(fr), o.iface(fr))
	})
	V("NumMethod", func(fr *frame, r *rv, a []Value) Value {
		return intrinsics["(*reflect.rtype).NumMethod"](fr, []Value{fr.ex.w.rtype(r.t)})
	})
	V("Method", func(fr *frame, r *rv, a []Value) Value { panic(unsupported("reflect.Value.Method")) })
	V("Call", func(fr *frame, r *rv, a []Value) Value { panic(unsupported("reflect.Value.Call")) })
	V("UnsafePointer", func(fr *frame, r *rv, a []Value) Value { return r.get(fr) })
}

// deepEqual follows reflect.DeepEqual on acyclic data.
func (ex *Exec) deepEqual(fr *frame, a, b iface) Value {
	if a.t != b.t {
		return false
	}
	if a.t == nil {
		return true
	}
	return ex.deepEq(fr, a.t, a.v, b.v, 0)
}

func (ex *Exec) deepEq(fr *frame, t types.Type, a, b Value, d int) Value {
	if d > 40 {
		panic(unsupported("DeepEqual recursion"))
	}
	switch u := under(t).(type) {
	case *types.Pointer:
		p, q := a.(*Value), b.(*Value)
		if p == q {
			return true
		}
		if p == nil || q == nil {
			return false
		}
		return ex.deepEq(fr, u.Elem(), *p, *q, d+1)
	case *types.Struct:
		x, y := a.(structure), b.(structure)
		var acc Value = true
		for i := range x {
			acc = ex.and(acc, ex.deepEq(fr, u.Field(i).Type(), x[i], y[i], d+1))
		}
		return acc
	case *types.Array:
		x, y := a.(array), b.(array)
		var acc Value = true
		for i := range x {
			acc = ex.and(acc, ex.deepEq(fr, u.Elem(), x[i], y[i], d+1))
		}
		return acc
	case *types.Slice:
		x, y := a.([]Value), b.([]Value)
		if (x == nil) != (y == nil) || len(x) != len(y) {
			return false
		}
		var acc Value = true
		for i := range x {
			acc = ex.and(acc, ex.deepEq(fr, u.Elem(), x[i], y[i], d+1))
		}
		return acc
	case *types.Interface:
		return ex.deepEqual(fr, a.(iface), b.(iface))
	case *types.Map:
		x, y := a.(*Map), b.(*Map)
		if x == y {
			return true
		}
		if (x == nil) != (y == nil) || x.live != y.live {
			return false
		}
		var acc Value = true
		for _, e := range x.ents {
			if e.dead {
				continue
			}
			o := ex.mapFind(fr, y, e.k)
			if o == nil {
				return false
			}
			acc = ex.and(acc, ex.deepEq(fr, u.Elem(), e.v, o.v, d+1))
		}
		return acc
	case *types.Signature:
		return isNilValue(a) && isNilValue(b)
	}
	return ex.equal(fr, t, a, b)
}
