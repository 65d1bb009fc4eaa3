package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
)

// pieces of formatted text
func (ex *Exec) cat(fr *frame, ps []Value) Value {
	var acc Value = ""
	for _, p := range ps {
		acc = ex.strConcat(fr, acc, p)
	}
	return acc
}

// fmtVal renders one operand.
func (ex *Exec) fmtVal(fr *frame, verb rune, flags string, a iface, depth int) Value {
	if verb == 'T' {
		if a.t == nil {
			return "<nil>"
		}
		return typeStr(a.t)
	}
	if a.t == nil {
		if verb == 'v' {
			return "<nil>"
		}
		return "%!" + string(verb) + "(<nil>)"
	}
	if verb == 'w' {
		verb = 'v'
	}
	if depth < 4 && (verb == 'v' || verb == 's' || verb == 'q' || verb == 'x') && !strings.Contains(flags, "#") {
		for _, name := range []string{"Error", "String"} {
			m := ex.tryMethod(a.t, name)
			if m == nil || m.fn.Signature.Params().Len() != 0 || m.fn.Signature.Results().Len() != 1 || !isStringT(m.fn.Signature.Results().At(0).Type()) {
				continue
			}
			if p, ok := a.v.(*Value); ok && p == nil {
				return "<nil>"
			}
			s := ex.callFn(fr, m, []Value{copyVal(a.v)}, nil)
			if verb == 'q' {
				if c, ok := s.(string); ok {
					return strconv.Quote(c)
				}
				return &Opaque{"quoted text"}
			}
			return s
		}
	}
	spec := "%" + flags + string(verb)
	switch v := a.v.(type) {
	case string:
		return fmt.Sprintf(spec, v)
	case *SymStr:
		if (verb == 's' || verb == 'v') && flags == "" {
			return v
		}
		return &Opaque{"formatted text"}
	case *Opaque:
		return v
	case bool, float64:
		return fmt.Sprintf(spec, v)
	case uint64:
		if w, s, ok := intInfo(a.t); ok {
			if s {
				return fmt.Sprintf(spec, sx(v, w))
			}
			return fmt.Sprintf(spec, v)
		}
	case []Value:
		if sl, ok := under(a.t).(*types.Slice); ok {
			if b, ok := under(sl.Elem()).(*types.Basic); ok && b.Kind() == types.Uint8 {
				if s, ok := ex.bytesToStr(v).(string); ok {
					return fmt.Sprintf(spec, []byte(s))
				}
			}
			if verb == 'v' && depth < 3 {
				ps := []Value{"["}
				for i, e := range v {
					if i > 0 {
						ps = append(ps, " ")
					}
					x, ok := e.(iface)
					if !ok {
						x = iface{canon(sl.Elem()), e}
					}
					ps = append(ps, ex.fmtVal(fr, verb, flags, x, depth+1))
				}
				return ex.cat(fr, append(ps, "]"))
			}
		}
	}
	return &Opaque{"formatted " + typeStr(a.t)}
}

func (ex *Exec) format(fr *frame, f string, args []Value) (Value, []iface) {
	var out []Value
	var wrapped []iface
	ai := 0
	for i := 0; i < len(f); {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			out = append(out, f[i:])
			break
		}
		if j > 0 {
			out = append(out, f[i:i+j])
		}
		i += j + 1
		st := i
		for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
			i++
		}
		if i >= len(f) {
			out = append(out, "%!(NOVERB)")
			break
		}
		flags := f[st:i]
		r := rune(f[i])
		i++
		if r == '%' {
			out = append(out, "%")
			continue
		}
		if ai >= len(args) {
			out = append(out, "%!"+string(r)+"(MISSING)")
			continue
		}
		a := args[ai].(iface)
		ai++
		if r == 'w' {
			wrapped = append(wrapped, a)
		}
		out = append(out, ex.fmtVal(fr, r, flags, a, 0))
	}
	if ai < len(args) {
		out = append(out, "%!(EXTRA)")
	}
	return ex.cat(fr, out), wrapped
}

func (w *Worker) namedType(pkg, name string) types.Type {
	p := w.prog.prog.ImportedPackage(pkg)
	if p == nil || p.Type(name) == nil {
		panic(unsupported("type " + pkg + "." + name + " not loaded"))
	}
	return p.Type(name).Type()
}

func (ex *Exec) mkErr(fr *frame, pkg, typ string, fields ...Value) iface {
	t := ex.w.namedType(pkg, typ)
	p := new(Value)
	*p = structure(fields)
	return iface{canon(types.NewPointer(t)), p}
}

// pkgOfType is the path of the package that declares a type or what it points to.
func pkgOfType(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path()
	}
	return ""
}

func regFmt() {
	fs := func(fr *frame, f Value) string {
		s, ok := f.(string)
		if !ok {
			panic(unsupported("symbolic format string"))
		}
		return s
	}
	reg("fmt.Sprintf", func(fr *frame, a []Value) Value {
		s, _ := fr.ex.format(fr, fs(fr, a[0]), a[1].([]Value))
		return s
	})
	reg("fmt.Errorf", func(fr *frame, a []Value) Value {
		ex := fr.ex
		s, w := ex.format(fr, fs(fr, a[0]), a[1].([]Value))
		switch len(w) {
		case 0:
			return ex.mkErr(fr, "errors", "errorString", s)
		case 1:
			if w[0].t == nil {
				return ex.mkErr(fr, "fmt", "wrapError", s, iface{})
			}
			return ex.mkErr(fr, "fmt", "wrapError", s, w[0])
		}
		var es []Value
		for _, e := range w {
			es = append(es, e)
		}
		return ex.mkErr(fr, "fmt", "wrapErrors", s, es)
	})
	sprint := func(fr *frame, a []Value, ln bool) Value {
		ex := fr.ex
		var ps []Value
		for i, x := range a {
			if i > 0 {
				_, s1 := x.(iface).v.(string)
				_, s2 := a[i-1].(iface).v.(string)
				if ln || (!s1 && !s2) {
					ps = append(ps, " ")
				}
			}
			ps = append(ps, ex.fmtVal(fr, 'v', "", x.(iface), 0))
		}
		if ln {
			ps = append(ps, "\n")
		}
		return ex.cat(fr, ps)
	}
	reg("fmt.Sprint", func(fr *frame, a []Value) Value { return sprint(fr, a[0].([]Value), false) })
	reg("fmt.Sprintln", func(fr *frame, a []Value) Value { return sprint(fr, a[0].([]Value), true) })
	for _, n := range []string{"Printf", "Println", "Print"} {
		reg("fmt."+n, func(fr *frame, a []Value) Value { return tuple{uint64(0), iface{}} })
	}
	// fprint writes text to a writer; text that is not known, and what goes to a file of the system, is dropped
	fprint := func(fr *frame, w iface, text Value) Value {
		ex := fr.ex
		if w.t == nil {
			ex.rtPanic(fr, "invalid memory address or nil pointer dereference (nil io.Writer)")
		}
		if _, opaque := text.(*Opaque); opaque || strings.HasPrefix(typeStr(w.t), "*os.") && pkgOfType(w.t) == "os" {
			return tuple{uint64(0), iface{}}
		}
		if pkgOfType(w.t) == "strings" || pkgOfType(w.t) == "bytes" {
			if m := ex.tryMethod(w.t, "WriteString"); m != nil {
				return ex.callFn(fr, m, []Value{copyVal(w.v), text}, nil)
			}
		}
		m := ex.tryMethod(w.t, "Write")
		if m == nil {
			panic(unsupported("fmt.Fprint to " + typeStr(w.t)))
		}
		return ex.callFn(fr, m, []Value{copyVal(w.v), append([]Value(nil), ex.strBytes(fr, text)...)}, nil)
	}
	reg("fmt.Fprintf", func(fr *frame, a []Value) Value {
		s, _ := fr.ex.format(fr, fs(fr, a[1]), a[2].([]Value))
		return fprint(fr, a[0].(iface), s)
	})
	reg("fmt.Fprint", func(fr *frame, a []Value) Value { return fprint(fr, a[0].(iface), sprint(fr, a[1].([]Value), false)) })
	reg("fmt.Fprintln", func(fr *frame, a []Value) Value { return fprint(fr, a[0].(iface), sprint(fr, a[1].([]Value), true)) })
}
