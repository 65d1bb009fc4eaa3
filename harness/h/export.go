package h

import (
	"reflect"

	"github.com/c-kruse/vanflow"

	"verif/harness/nd"
)

// Sym is a record with symbolic attributes, for harnesses in other packages.
type Sym struct{ r *rec }

// TypeNames are the names of the protocol's record types.
func TypeNames() []string {
	var out []string
	for _, t := range protoTypes {
		out = append(out, t.name)
	}
	return out
}

// lastPlain is the last microsecond that RFC 3339 can express.
const lastPlain = 253402300799999999

// NewSym makes a record with up to k symbolic attributes, of text and times that JSON can express or one of a few beyond.
func NewSym(typ string, id string, k, slen int) *Sym {
	for _, pt := range protoTypes {
		if pt.name != typ {
			continue
		}
		r := newRec(pt, id)
		attrs := pt.all()
		in := members(len(attrs), k)
		for i, a := range attrs {
			if !in[i] {
				continue
			}
			if a.kind == aTime {
				switch nd.Choose(a.name+" beyond RFC 3339", 4) {
				case 1:
					r.set(a, aval{set: true, u: lastPlain})
					continue
				case 2:
					r.set(a, aval{set: true, u: lastPlain + 1})
					continue
				case 3:
					r.set(a, aval{set: true, u: 1<<63 - 1})
					continue
				}
				u := uint64(nd.IntRange(a.name, 0, lastPlain))
				r.set(a, aval{set: true, u: u})
				continue
			}
			v := r.setSym(a, a.name, slen)
			for j := 0; j < len(v.s); j++ {
				nd.Assume(v.s[j] < 0x80)
			}
		}
		return &Sym{r}
	}
	panic("no type " + typ)
}

// Plain makes a record with a few attributes.
func Plain(typ string, id string) *Sym {
	for _, pt := range protoTypes {
		if pt.name == typ {
			r := newRec(pt, id)
			r.set(baseAttrs[0], aval{set: true, u: 1})
			return &Sym{r}
		}
	}
	panic("no type " + typ)
}

func (s *Sym) ID() string   { return s.r.id }
func (s *Sym) Type() string { return s.r.pt.name }

func (s *Sym) SetString(name, v string)      { s.set(name, aval{set: true, s: v}) }
func (s *Sym) SetUint(name string, v uint64) { s.set(name, aval{set: true, u: v}) }
func (s *Sym) set(name string, v aval) {
	for _, a := range s.r.pt.all() {
		if a.name == name {
			s.r.set(a, v)
			return
		}
	}
	panic("no attribute " + name)
}

func (s *Sym) Record() vanflow.Record { return asRecord(s.r.value()) }

// Check asserts that a record, by pointer or value, is this one.
func (s *Sym) Check(x any, what string) {
	rv := recV(x)
	nd.Assert(rv.Type() == s.r.v.Type(), what+": another type")
	nd.Assert(rv.FieldByName("ID").String() == s.r.id, what+": identity differs")
	for _, a := range s.r.pt.all() {
		nd.Assert(attrIs(rv, a, s.r.vals[a.name]), what+": attribute differs: "+a.name)
	}
}

// SymString and SymUint give an attribute a symbolic value.
func (s *Sym) SymString(name string, n int) {
	v := nd.StringN(name, n)
	for j := 0; j < len(v); j++ {
		nd.Assume(v[j] < 0x80)
	}
	s.SetString(name, v)
}
func (s *Sym) SymUint(name string) { s.SetUint(name, nd.Uint64(name)) }

// New makes an empty record of the type, by pointer.
func (s *Sym) New() vanflow.Record {
	return asRecord(reflect.New(reflect.TypeOf(s.r.pt.zero)).Interface())
}

// Is asserts that a record has this one's value of some attributes.
func (s *Sym) Is(x any, what string, names ...string) {
	rv := recV(x)
	for _, n := range names {
		for _, a := range s.r.pt.all() {
			if a.name == n {
				nd.Assert(attrIs(rv, a, s.r.vals[n]), what+": attribute differs: "+n)
			}
		}
	}
}
