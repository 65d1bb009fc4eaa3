package h

import (
	"reflect"
	"time"

	"github.com/c-kruse/vanflow"

	"verif/harness/nd"
)

// The protocol's record types and attributes, written down independently of the struct tags.

type akind int

const (
	aStr akind = iota
	aU64
	aTime
)

type pattr struct {
	name string
	code uint32
	kind akind
}

type ptype struct {
	code  uint32
	name  string
	zero  any
	attrs []pattr
}

var baseAttrs = []pattr{{"StartTime", 3, aTime}, {"EndTime", 4, aTime}}

var protoTypes = []ptype{
	{0, "SiteRecord", vanflow.SiteRecord{}, []pattr{{"Location", 9, aStr}, {"Provider", 10, aStr}, {"Platform", 11, aStr}, {"Namespace", 12, aStr},
		{"Name", 30, aStr}, {"Version", 52, aStr}, {"Policy", 53, aStr}}},
	{1, "RouterRecord", vanflow.RouterRecord{}, []pattr{{"Parent", 2, aStr}, {"Namespace", 12, aStr}, {"Mode", 13, aStr}, {"ImageName", 20, aStr},
		{"ImageVersion", 21, aStr}, {"Hostname", 22, aStr}, {"Name", 30, aStr}, {"BuildVersion", 32, aStr}}},
	{2, "LinkRecord", vanflow.LinkRecord{}, []pattr{{"Parent", 2, aStr}, {"Mode", 13, aStr}, {"Name", 30, aStr}, {"LinkCost", 33, aU64}, {"Direction", 34, aStr}}},
	{3, "ControllerRecord", vanflow.ControllerRecord{}, []pattr{{"Parent", 2, aStr}, {"ImageName", 20, aStr}, {"ImageVersion", 21, aStr}, {"Hostname", 22, aStr},
		{"Name", 30, aStr}, {"BuildVersion", 32, aStr}}},
	{4, "ListenerRecord", vanflow.ListenerRecord{}, []pattr{{"Parent", 2, aStr}, {"DestHost", 15, aStr}, {"Protocol", 16, aStr}, {"DestPort", 18, aStr}, {"Address", 19, aStr},
		{"FlowCountL4", 40, aU64}, {"FlowCountL7", 41, aU64}, {"FlowRateL4", 42, aU64}, {"FlowRateL7", 43, aU64}}},
	{5, "ConnectorRecord", vanflow.ConnectorRecord{}, []pattr{{"Parent", 2, aStr}, {"DestHost", 15, aStr}, {"Protocol", 16, aStr}, {"DestPort", 18, aStr}, {"Address", 19, aStr},
		{"FlowCountL4", 40, aU64}, {"FlowCountL7", 41, aU64}, {"FlowRateL4", 42, aU64}, {"FlowRateL7", 43, aU64}}},
	{6, "FlowRecord", vanflow.FlowRecord{}, []pattr{{"Parent", 2, aStr}, {"Counterflow", 5, aStr}, {"SourceHost", 14, aStr}, {"SourcePort", 17, aStr}, {"Octets", 23, aU64},
		{"Latency", 24, aU64}, {"Reason", 29, aStr}, {"Trace", 31, aStr}, {"OctetRate", 35, aU64}, {"OctetsOut", 36, aU64}, {"OctetsUnacked", 37, aU64},
		{"WindowClosures", 38, aU64}, {"WindowSize", 39, aU64}, {"Method", 27, aStr}, {"Result", 28, aStr}}},
	{7, "ProcessRecord", vanflow.ProcessRecord{}, []pattr{{"Parent", 2, aStr}, {"Mode", 13, aStr}, {"SourceHost", 14, aStr}, {"ImageName", 20, aStr}, {"ImageVersion", 21, aStr},
		{"Hostname", 22, aStr}, {"Name", 30, aStr}, {"Group", 46, aStr}}},
	{8, "ImageRecord", vanflow.ImageRecord{}, nil},
	{9, "IngressRecord", vanflow.IngressRecord{}, nil},
	{10, "EgressRecord", vanflow.EgressRecord{}, nil},
	{11, "CollectorRecord", vanflow.CollectorRecord{}, nil},
	{12, "ProcessGroupRecord", vanflow.ProcessGroupRecord{}, nil},
	{13, "HostRecord", vanflow.HostRecord{}, []pattr{{"Provider", 10, aStr}, {"Name", 30, aStr}}},
	{14, "LogRecord", vanflow.LogRecord{}, []pattr{{"LogSeverity", 48, aU64}, {"LogText", 49, aStr}, {"SourceFile", 50, aStr}, {"SourceLine", 51, aU64}}},
}

func (p ptype) all() []pattr {
	var r []pattr
	r = append(r, baseAttrs...)
	return append(r, p.attrs...)
}

// aval is the expected value of one attribute.
type aval struct {
	set bool
	s   string
	u   uint64
}

// rec is a record under construction: an addressable value of the record type and what it should hold.
type rec struct {
	pt   ptype
	v    reflect.Value // addressable struct
	id   string
	vals map[string]aval
}

func newRec(pt ptype, id string) *rec {
	r := &rec{pt: pt, v: reflect.New(reflect.TypeOf(pt.zero)).Elem(), id: id, vals: map[string]aval{}}
	r.v.FieldByName("ID").SetString(id)
	return r
}

// setSym gives an attribute an arbitrary value.
func (r *rec) setSym(a pattr, label string, maxStr int) aval {
	return r.setSymNZ(a, label, maxStr, false)
}

// setSymNZ gives an attribute an arbitrary value, not the zero value if nz.
func (r *rec) setSymNZ(a pattr, label string, maxStr int, nz bool) aval {
	f := r.v.FieldByName(a.name)
	val := aval{set: true}
	switch a.kind {
	case aStr:
		s := nd.String(label, maxStr)
		if nz {
			nd.Assume(len(s) > 0)
		}
		f.Set(reflect.ValueOf(&s))
		val.s = s
	case aU64:
		u := nd.Uint64(label)
		if nz {
			nd.Assume(u > 0)
		}
		f.Set(reflect.ValueOf(&u))
		val.u = u
	case aTime:
		u := uint64(nd.IntRange(label, 0, 1<<60))
		f.Set(reflect.ValueOf(&vanflow.Time{Time: time.UnixMicro(int64(u))}))
		val.u = u
	}
	r.vals[a.name] = val
	return val
}

// set gives an attribute a particular value.
func (r *rec) set(a pattr, val aval) {
	f := r.v.FieldByName(a.name)
	switch a.kind {
	case aStr:
		s := val.s
		f.Set(reflect.ValueOf(&s))
	case aU64:
		u := val.u
		f.Set(reflect.ValueOf(&u))
	case aTime:
		f.Set(reflect.ValueOf(&vanflow.Time{Time: time.UnixMicro(int64(val.u))}))
	}
	r.vals[a.name] = val
}

func (r *rec) value() any   { return r.v.Interface() }
func (r *rec) pointer() any { return r.v.Addr().Interface() }

// recV is the record's reflected struct, through a pointer if need be.
func recV(x any) reflect.Value {
	v := reflect.ValueOf(x)
	if v.Kind() == reflect.Pointer {
		v = v.Elem()
	}
	return v
}

// attrIs tells whether a decoded attribute holds val; zero values may be represented as unset.
func attrIs(rv reflect.Value, a pattr, val aval) bool {
	f := rv.FieldByName(a.name)
	zero := true
	if val.set {
		switch a.kind {
		case aStr:
			zero = val.s == ""
		case aU64:
			zero = val.u == 0
		case aTime:
			zero = false
		}
	}
	if f.IsNil() {
		return zero
	}
	if !val.set {
		// set to the zero value counts as unset
		switch a.kind {
		case aStr:
			return f.Elem().String() == ""
		case aU64:
			return f.Elem().Uint() == 0
		}
		return false
	}
	switch a.kind {
	case aStr:
		return f.Elem().String() == val.s
	case aU64:
		return f.Elem().Uint() == val.u
	}
	return uint64(f.Interface().(*vanflow.Time).UnixMicro()) == val.u
}

// checkRec asserts that x is a pointer to a record of the type and content expected.
func checkRec(x any, r *rec, what string) {
	nd.Assert(reflect.TypeOf(x) == reflect.PointerTo(reflect.TypeOf(r.pt.zero)), what+": another type")
	rv := recV(x)
	nd.Assert(rv.FieldByName("ID").String() == r.id, what+": identity differs")
	for _, a := range r.pt.all() {
		nd.Assert(attrIs(rv, a, r.vals[a.name]), what+": attribute differs: "+a.name)
	}
}

func ptr[T any](v T) *T { return &v }

// subset chooses up to k of n things, or all but up to k of them (reported as many).
func subset(n, k int) (set []bool, many bool) {
	invert := nd.Choose("complement", 2) == 1
	set = members(n, k)
	if invert {
		for i := range set {
			set[i] = !set[i]
		}
	}
	return set, invert
}

// members chooses up to k of n things.
func members(n, k int) []bool {
	set := make([]bool, n)
	last := 0
	for i := 0; i < k && last < n; i++ {
		// next member: last..n-1, or stop
		c := nd.Choose("member", n-last+1)
		if c == n-last {
			break
		}
		set[last+c] = true
		last += c + 1
	}
	return set
}

// and is the conjunction, without a branch for each part.
func and(bs ...bool) bool {
	r := true
	for _, b := range bs {
		r = nd.And(r, b)
	}
	return r
}

// or is a disjunction without branching.
func or(bs ...bool) bool {
	r := false
	for _, b := range bs {
		r = nd.Or(r, b)
	}
	return r
}
