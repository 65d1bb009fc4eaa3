package h

import (
	"reflect"

	"github.com/c-kruse/vanflow/encoding"

	"verif/harness/nd"
)

func chooseType() ptype { return protoTypes[nd.Choose("type", len(protoTypes))] }

// symRec builds an arbitrary record of an arbitrary type with an arbitrary pattern of set attributes.
func symRec(k, slen int) *rec {
	pt := chooseType()
	id := nd.String("id", slen)
	nd.Assume(len(id) > 0)
	r := newRec(pt, id)
	as := pt.all()
	set, many := subset(len(as), k)
	for i, a := range as {
		if set[i] {
			r.setSymNZ(a, a.name, slen, many)
		}
	}
	return r
}

// C01_RoundTrip: decode(encode(r)) is r.
func C01_RoundTrip() {
	r := symRec(nd.Param("k", 2), nd.Param("len", 3))
	in := r.value()
	if nd.Choose("pointer", 2) == 1 {
		in = r.pointer()
	}
	attrs, err := encoding.Encode(in)
	nd.Assert(err == nil, "a valid record cannot be encoded")
	out, err := encoding.Decode(attrs)
	nd.Assert(err == nil, "an encoded record cannot be decoded")
	checkRec(out, r, "round trip")
	nd.Cover("type " + r.pt.name)
	for _, a := range r.pt.all() {
		v := r.vals[a.name]
		nd.Observe(a.name, v.s)
	}
}

// C01_Twice: decoding twice, and encoding what was decoded, gives the same again.
func C01_Twice() {
	r := symRec(nd.Param("k", 1), nd.Param("len", 2))
	attrs, err := encoding.Encode(r.value())
	nd.Assert(err == nil, "a valid record cannot be encoded")
	out, err := encoding.Decode(attrs)
	nd.Assert(err == nil, "an encoded record cannot be decoded")
	attrs2, err := encoding.Encode(out)
	nd.Assert(err == nil, "a decoded record cannot be encoded")
	nd.Assert(len(attrs2) == len(attrs), "encoding a decoded record gives other attributes")
	for k, v := range attrs {
		w, ok := attrs2[k]
		nd.Assert(ok && v == w, "encoding a decoded record gives another value")
	}
	out2, err := encoding.Decode(attrs2)
	nd.Assert(err == nil, "a re-encoded record cannot be decoded")
	checkRec(out2, r, "second round trip")
	// the two decoded records share no memory
	a, b := recV(out), recV(out2)
	for _, at := range r.pt.all() {
		f, g := a.FieldByName(at.name), b.FieldByName(at.name)
		if !f.IsNil() {
			nd.Assert(f.Interface() != g.Interface(), "decoded records share an attribute")
		}
	}
	nd.Cover("done")
}

// C02_Encode: the encoded set is exactly the protocol's.
func C02_Encode() {
	r := symRec(nd.Param("k", 2), nd.Param("len", 3))
	attrs, err := encoding.Encode(r.value())
	nd.Assert(err == nil, "a valid record cannot be encoded")
	want := 2
	c, ok := attrs[uint32(0)].(uint32)
	nd.Assert(ok && c == r.pt.code, "wrong record type code")
	id, ok := attrs[uint32(1)].(string)
	nd.Assert(ok && id == r.id, "identity is not under codepoint 1")
	for _, a := range r.pt.all() {
		v := r.vals[a.name]
		got, present := attrs[a.code]
		if !v.set {
			nd.Assert(!present, "unset attribute encoded")
			continue
		}
		switch a.kind {
		case aStr:
			if !present {
				nd.Assert(v.s == "", "attribute missing on the wire: "+a.name)
				continue
			}
			s, ok := got.(string)
			nd.Assert(ok && s == v.s, "wrong value on the wire: "+a.name)
		default:
			if !present {
				nd.Assert(v.u == 0 && a.kind == aU64, "attribute missing on the wire: "+a.name)
				continue
			}
			u, ok := got.(uint64)
			nd.Assert(ok && u == v.u, "wrong value on the wire: "+a.name)
		}
		want++
	}
	nd.Assert(len(attrs) == want, "unexpected keys on the wire")
	nd.Cover("type " + r.pt.name)
}

// C02_Decode: a set written by another implementation decodes to the attributes it denotes.
func C02_Decode() {
	k, slen := nd.Param("k", 2), nd.Param("len", 3)
	pt := chooseType()
	id := nd.String("id", slen)
	nd.Assume(len(id) > 0)
	r := newRec(pt, id)
	wire := encoding.RecordAttributeSet{uint32(0): pt.code, uint32(1): id}
	as := pt.all()
	set, many := subset(len(as), k)
	for i, a := range as {
		if !set[i] {
			continue
		}
		v := r.setSymNZ(a, a.name, slen, many)
		if a.kind == aStr {
			wire[a.code] = v.s
		} else {
			wire[a.code] = v.u
		}
	}
	// attributes of other types and unknown ones are ignored
	switch nd.Choose("extra", 3) {
	case 1:
		wire[uint32(1000)] = nd.String("unknown", 2)
	case 2:
		wire["x"] = nd.Uint64("unknown")
	}
	out, err := encoding.Decode(wire)
	nd.Assert(err == nil, "a valid attribute set cannot be decoded")
	checkRec(out, r, "decode")
	nd.Cover("type " + pt.name)
}

// C02_Types: every code from 0 to 14 is a record type, of the right Go type; other codes are unknown.
func C02_Types() {
	code := nd.Uint32("code")
	out, err := encoding.Decode(encoding.RecordAttributeSet{uint32(0): code, uint32(1): "id"})
	if code >= uint32(len(protoTypes)) {
		nd.Assume(code < testCodes)
		nd.Assert(err != nil, "a code that is no protocol type is decoded")
		nd.Cover("unknown")
		return
	}
	nd.Assert(err == nil, "a protocol type code is unknown")
	pt := protoTypes[nd.ConcreteInt(uint64(code))]
	nd.Assert(reflect.TypeOf(out) == reflect.PointerTo(reflect.TypeOf(pt.zero)), "a protocol type code denotes another type")
	nd.Cover("known")
}

// the harness registers its own types from this code on
const testCodes = 1 << 20
