package h

import (
	"errors"
	"fmt"
	"reflect"

	"github.com/c-kruse/vanflow"
	"github.com/c-kruse/vanflow/encoding"

	"verif/harness/nd"
)

// Application record types.

type appAll struct {
	S    string  `vflow:"1,required"`
	Sp   *string `vflow:"2"`
	U32  uint32  `vflow:"3"`
	U32p *uint32 `vflow:"4"`
	U64  uint64  `vflow:"5"`
	U64p *uint64 `vflow:"6"`
	I32  int32   `vflow:"7"`
	I32p *int32  `vflow:"8"`
	I64  int64   `vflow:"9"`
	I64p *int64  `vflow:"10"`
	None string
	priv string
}

type appInner struct {
	Deep uint64 `vflow:"20,required"`
}

type appMid struct {
	appInner
	Mid string `vflow:"21"`
}

type appEmbed struct {
	appMid
	vanflow.BaseRecord
	Top  *int64        `vflow:"22"`
	Last *vanflow.Time `vflow:"4294967295"`
}

// Structs embedded several levels deep, with attributes around them.
type appL5 struct {
	E1 *string `vflow:"51"`
	E2 uint64  `vflow:"52"`
	E3 int32   `vflow:"53"`
}

type appL4 struct {
	D1 string `vflow:"41"`
	appL5
	D2 uint32 `vflow:"42"`
	D3 *int64 `vflow:"43"`
}

type appL4b struct {
	X1 string `vflow:"61"`
	X2 uint64 `vflow:"62"`
}

type appL3 struct {
	appL4
	C1 uint64 `vflow:"31"`
	appL4b
	C2 string `vflow:"32"`
}

type appL2 struct {
	skipped string
	appL3
	B1 string `vflow:"21"`
}

type appDeep struct {
	ID string `vflow:"1,required"`
	appL2
	Last uint64 `vflow:"2"`
}

// celsius has its own codec; the codec can fail.
type celsius struct{ v int64 }

var errCold = errors.New("too cold")

func (c celsius) EncodeRecordAttribute() (any, error) {
	if c.v == 0 {
		return nil, fmt.Errorf("no value: %w", encoding.ErrAttributeNotSet)
	}
	if c.v < -273 {
		return nil, errCold
	}
	return c.v + 1000, nil
}

func (c *celsius) DecodeRecordAttribute(a any) error {
	x, ok := a.(int64)
	if !ok {
		return errors.New("not a temperature")
	}
	if x < 727 {
		return errCold
	}
	c.v = x - 1000
	return nil
}

type appCustom struct {
	Name string   `vflow:"1,required"`
	T    celsius  `vflow:"2"`
	Tp   *celsius `vflow:"3"`
	Req  celsius  `vflow:"4,required"`
}

type appTwo struct {
	ID uint64 `vflow:"1,required"`
	N  *int32 `vflow:"7"`
}

type badRepeat struct {
	A string `vflow:"1"`
	B string `vflow:"1"`
}

type badRepeatDeep struct {
	vanflow.BaseRecord
	A string `vflow:"3"`
}

type badTag struct {
	A string `vflow:"one"`
}

type badOpt struct {
	A string `vflow:"1,optional"`
}

type badNeg struct {
	A string `vflow:"-1"`
}

type badBig struct {
	A string `vflow:"4294967296"`
}

type badBig2 struct {
	A string `vflow:"4294967303"`
}

type badKind struct {
	A []string `vflow:"1"`
}

type badKind2 struct {
	A float64 `vflow:"1"`
}

type badKind3 struct {
	A struct{ X string } `vflow:"1"`
}

type badKind4 struct {
	A *bool `vflow:"1"`
}

type badZero struct {
	A uint32 `vflow:"1"`
	B uint32 `vflow:"0"`
}

// register calls MustRegisterRecord and tells whether it panicked.
func register(code uint32, v any) (panicked bool) {
	defer func() {
		if r := recover(); r != nil {
			panicked = true
		}
	}()
	encoding.MustRegisterRecord(code, v)
	return false
}

type appType struct {
	name string
	v    any
	ok   bool
}

var appTypes = []appType{
	{"all", appAll{}, true},
	{"two", &appTwo{}, true},
	{"custom", appCustom{}, true},
	{"embed", &appEmbed{}, true},
	{"site", vanflow.SiteRecord{}, false},
	{"log", &vanflow.LogRecord{}, false},
	{"repeat", badRepeat{}, false},
	{"repeat in embedded", badRepeatDeep{}, false},
	{"tag", badTag{}, false},
	{"option", badOpt{}, false},
	{"negative", badNeg{}, false},
	{"too big", badBig{}, false},
	{"slice", badKind{}, false},
	{"float", &badKind2{}, false},
	{"struct", badKind3{}, false},
	{"bool", badKind4{}, false},
	{"not a struct", "x", false},
	{"too big too", &badBig2{}, false},
	{"code of the type", badZero{}, false},
}

// C08_Register: registrations succeed exactly when code and type are free and the type is valid, and
// conflicts leave the registry as it was.
func C08_Register() {
	n := nd.Param("n", 2)
	type reg struct {
		code uint32
		t    int
	}
	var done []reg
	for i := 0; i < n; i++ {
		l := fmt.Sprintf("r%d", i)
		var t int
		var code uint32
		if i == n-1 {
			t = nd.Choose(l+"-type", len(appTypes))
			code = nd.Uint32(l + "-code")
		} else {
			// earlier ones: valid, or refused for their code or their type
			switch nd.Choose(l+"-kind", 4) {
			case 0:
				t = nd.Choose(l+"-type", 4)
				code = nd.Uint32(l + "-code")
				nd.Assume(code >= uint32(len(protoTypes)))
			case 1:
				t, code = 1, uint32(nd.IntRange(l+"-code", 0, len(protoTypes)-1))
			case 2:
				t = 6
				code = nd.Uint32(l + "-code")
				nd.Assume(code >= uint32(len(protoTypes)))
			case 3:
				t = 4
				code = nd.Uint32(l + "-code")
				nd.Assume(code >= uint32(len(protoTypes)))
			}
		}
		free := code >= uint32(len(protoTypes))
		same := false
		for _, d := range done {
			free = nd.And(free, d.code != code)
			same = same || d.t == t
		}
		p := register(code, appTypes[t].v)
		if !free || same || !appTypes[t].ok {
			nd.Assert(p, "a conflicting or invalid registration was accepted: "+appTypes[t].name)
			nd.Cover("refused")
		} else {
			nd.Assert(!p, "a valid registration was refused: "+appTypes[t].name)
			done = append(done, reg{code, t})
			nd.Cover("accepted")
		}
	}
	// everything registered works
	for _, d := range done {
		useApp(d.t, d.code)
	}
	pt := protoTypes[nd.Choose("builtin", nd.Param("builtins", len(protoTypes)))]
	r := newRec(pt, "id")
	attrs, err := encoding.Encode(r.value())
	nd.Assert(err == nil, "a protocol record cannot be encoded any more")
	nd.Assert(attrs[uint32(0)] == any(pt.code), "a protocol record has another code now")
	out, err := encoding.Decode(attrs)
	nd.Assert(err == nil, "a protocol record cannot be decoded any more")
	checkRec(out, r, "built-in type")
	nd.Cover("done")
}

// useApp round-trips a fixed record of an application type.
func useApp(t int, code uint32) {
	var in any
	switch t {
	case 0:
		in = &appAll{S: "s", I32: -5, U64p: ptr(uint64(9))}
	case 1:
		in = &appTwo{ID: 7, N: ptr(int32(-3))}
	case 2:
		in = &appCustom{Name: "n", Tp: &celsius{-20}, Req: celsius{5}}
	case 3:
		in = &appEmbed{appMid: appMid{appInner: appInner{3}, Mid: "m"}, BaseRecord: vanflow.NewBase("id"), Top: ptr(int64(-1))}
	}
	attrs, err := encoding.Encode(in)
	nd.Assert(err == nil, "a record of a registered type cannot be encoded")
	c, ok := attrs[uint32(0)].(uint32)
	nd.Assert(ok && c == code, "a record of a registered type has another code")
	out, err := encoding.Decode(attrs)
	nd.Assert(err == nil, "a record of a registered type cannot be decoded")
	nd.Assert(reflect.DeepEqual(in, out), "a record of a registered type does not round-trip")
}

// place is an attribute that is itself a record, which may be registered by its codec.
type place struct{ appTwo }

var lazily bool

func (p place) register() {
	if lazily {
		lazily = false
		encoding.MustRegisterRecord(5001, appTwo{})
	}
}

func (p place) EncodeRecordAttribute() (any, error) {
	p.register()
	return encoding.Encode(p.appTwo)
}

func (p *place) DecodeRecordAttribute(a any) error {
	p.register()
	attrs, ok := a.(encoding.RecordAttributeSet)
	if !ok {
		return errors.New("not a place")
	}
	r, err := encoding.Decode(attrs)
	if err != nil {
		return err
	}
	p.appTwo = *r.(*appTwo)
	return nil
}

type appPlaced struct {
	ID string `vflow:"1,required"`
	At *place `vflow:"2"`
}

// C08_Nested: a custom codec may use the codec itself, also while another type is registered.
func C08_Nested() {
	encoding.MustRegisterRecord(5000, appPlaced{})
	lazily = nd.Choose("lazy", 2) == 1
	if !lazily {
		encoding.MustRegisterRecord(5001, appTwo{})
	}
	done := make(chan struct{})
	go func() {
		encoding.MustRegisterRecord(5002, appAll{})
		close(done)
	}()
	n := nd.Int32("n")
	id := nd.Uint64("id")
	nd.Assume(nd.And(n != 0, id != 0))
	in := &appPlaced{ID: "p", At: &place{appTwo{ID: id, N: &n}}}
	if nd.Choose("first", 2) == 1 {
		at := encoding.RecordAttributeSet{uint32(0): uint32(5001), uint32(1): id, uint32(7): n}
		out, err := encoding.Decode(encoding.RecordAttributeSet{uint32(0): uint32(5000), uint32(1): "p", uint32(2): at})
		nd.Assert(err == nil, "a record with a nested one cannot be decoded")
		got := out.(*appPlaced)
		nd.Assert(nd.And(got.At.ID == id, *got.At.N == n), "a nested record is decoded wrongly")
	}
	attrs, err := encoding.Encode(in)
	nd.Assert(err == nil, "a record with a nested one cannot be encoded")
	out, err := encoding.Decode(attrs)
	nd.Assert(err == nil, "a record with a nested one cannot be decoded")
	got := out.(*appPlaced)
	nd.Assert(got.ID == "p" && got.At != nil && got.At.N != nil, "a nested record is lost")
	nd.Assert(nd.And(got.At.ID == id, *got.At.N == n), "a nested record does not round-trip")
	<-done
	useApp(0, 5002)
	nd.Cover("nested")
}

// C08_Values: every supported attribute kind round-trips for all values; required ones are enforced.
func C08_Values() {
	encoding.MustRegisterRecord(5000, appAll{})
	n := nd.Param("len", 3)
	set, _ := subset(10, nd.Param("k", 2))
	var in appAll
	if set[0] {
		in.S = nd.String("s", n)
	}
	if set[1] {
		in.Sp = ptr(nd.String("sp", n))
	}
	if set[2] {
		in.U32 = nd.Uint32("u32")
	}
	if set[3] {
		in.U32p = ptr(nd.Uint32("u32p"))
	}
	if set[4] {
		in.U64 = nd.Uint64("u64")
	}
	if set[5] {
		in.U64p = ptr(nd.Uint64("u64p"))
	}
	if set[6] {
		in.I32 = nd.Int32("i32")
	}
	if set[7] {
		in.I32p = ptr(nd.Int32("i32p"))
	}
	if set[8] {
		in.I64 = nd.Int64("i64")
	}
	if set[9] {
		in.I64p = ptr(nd.Int64("i64p"))
	}
	in.None, in.priv = "ignored", "ignored"
	attrs, err := encoding.Encode(in)
	if in.S == "" {
		nd.Assert(err != nil, "a record without its required attribute was encoded")
		nd.Cover("required")
		return
	}
	nd.Assert(err == nil, "a valid record cannot be encoded")
	o, err := encoding.Decode(attrs)
	nd.Assert(err == nil, "an encoded record cannot be decoded")
	out, ok := o.(*appAll)
	nd.Assert(ok, "decoded to another type")
	nd.Assert(out.S == in.S && out.U32 == in.U32 && out.U64 == in.U64 && out.I32 == in.I32 && out.I64 == in.I64, "an attribute differs")
	nd.Assert(out.None == "" && out.priv == "", "an untagged field was carried")
	if in.Sp == nil || *in.Sp == "" {
		nd.Assert(out.Sp == nil || *out.Sp == "", "a string was invented")
	} else {
		nd.Assert(out.Sp != nil && *out.Sp == *in.Sp, "a string pointer differs")
	}
	if in.U32p == nil || *in.U32p == 0 {
		nd.Assert(out.U32p == nil || *out.U32p == 0, "a value was invented")
	} else {
		nd.Assert(out.U32p != nil && *out.U32p == *in.U32p, "a uint32 pointer differs")
	}
	if in.U64p == nil || *in.U64p == 0 {
		nd.Assert(out.U64p == nil || *out.U64p == 0, "a value was invented")
	} else {
		nd.Assert(out.U64p != nil && *out.U64p == *in.U64p, "a uint64 pointer differs")
	}
	if in.I32p == nil || *in.I32p == 0 {
		nd.Assert(out.I32p == nil || *out.I32p == 0, "a value was invented")
	} else {
		nd.Assert(out.I32p != nil && *out.I32p == *in.I32p, "an int32 pointer differs")
	}
	if in.I64p == nil || *in.I64p == 0 {
		nd.Assert(out.I64p == nil || *out.I64p == 0, "a value was invented")
	} else {
		nd.Assert(out.I64p != nil && *out.I64p == *in.I64p, "an int64 pointer differs")
	}
	// required on decode
	delete(attrs, uint32(1))
	_, err = encoding.Decode(attrs)
	nd.Assert(err != nil, "a record without its required attribute was decoded")
	nd.Cover("round trip")
}

// C08_Custom: custom codecs and embedded structs.
func C08_Custom() {
	switch nd.Choose("form", 3) {
	case 2:
		deepRecord()
		return
	case 0:
		encoding.MustRegisterRecord(5001, &appCustom{})
		in := appCustom{Name: "n", T: celsius{nd.Int64("t")}, Req: celsius{nd.Int64("req")}}
		small := func(v int64) bool { return nd.And(v > -1<<40, v < 1<<40) }
		nd.Assume(small(in.T.v))
		nd.Assume(small(in.Req.v))
		if nd.Choose("pointer", 2) == 1 {
			in.Tp = &celsius{nd.Int64("tp")}
			nd.Assume(small(in.Tp.v))
		}
		attrs, err := encoding.Encode(&in)
		bad := in.T.v < -273 || in.Req.v < -273 || in.Req.v == 0
		if in.Tp != nil {
			bad = bad || in.Tp.v < -273
		}
		if bad {
			nd.Assert(err != nil, "an error of a custom codec was ignored on encoding")
			nd.Cover("refused")
			return
		}
		nd.Assert(err == nil, "a valid record cannot be encoded")
		o, err := encoding.Decode(attrs)
		nd.Assert(err == nil, "an encoded record cannot be decoded")
		out, ok := o.(*appCustom)
		nd.Assert(ok && out.Name == "n" && out.T.v == in.T.v && out.Req.v == in.Req.v, "a custom attribute differs")
		if in.Tp == nil || in.Tp.v == 0 {
			nd.Assert(out.Tp == nil || out.Tp.v == 0, "a custom attribute was invented")
		} else {
			nd.Assert(out.Tp != nil && out.Tp.v == in.Tp.v, "a custom attribute pointer differs")
		}
		// errors of the custom decoder are errors
		key := uint32(2 + nd.Choose("spoil", 3))
		switch nd.Choose("how", 3) {
		case 0:
			attrs[key] = int64(-5)
		case 1:
			attrs[key] = "x"
		case 2:
			attrs[key] = nil
		}
		_, err = encoding.Decode(attrs)
		nd.Assert(err != nil, "an error of a custom codec was ignored on decoding")
		nd.Cover("custom")
		return
	}
	encoding.MustRegisterRecord(5002, appEmbed{})
	in := appEmbed{BaseRecord: vanflow.BaseRecord{ID: nd.String("id", 2)}, Top: ptr(nd.Int64("top"))}
	in.Deep, in.Mid = nd.Uint64("deep"), nd.String("mid", 2)
	attrs, err := encoding.Encode(in)
	if in.ID == "" || in.Deep == 0 {
		nd.Assert(err != nil, "a record without a required embedded attribute was encoded")
		nd.Cover("required embedded")
		return
	}
	nd.Assert(err == nil, "a valid record cannot be encoded")
	o, err := encoding.Decode(attrs)
	nd.Assert(err == nil, "an encoded record cannot be decoded")
	out, ok := o.(*appEmbed)
	nd.Assert(ok && out.ID == in.ID && out.Deep == in.Deep && out.Mid == in.Mid, "an embedded attribute differs")
	nd.Assert(*in.Top == 0 || out.Top != nil && *out.Top == *in.Top, "an attribute differs")
	for _, k := range []uint32{1, 20} {
		v := attrs[k]
		delete(attrs, k)
		_, err = encoding.Decode(attrs)
		nd.Assert(err != nil, "a record without a required embedded attribute was decoded")
		attrs[k] = v
	}
	nd.Cover("embedded")
}

// C09_Codec: encode, decode and register from concurrent goroutines.
func C09_Codec() {
	const code = 7000
	done := make(chan struct{}, 4)
	ops := nd.Param("ops", 1)
	threads := nd.Param("threads", 2)
	for i := 0; i < threads; i++ {
		i := i
		kind := nd.Choose(fmt.Sprintf("t%d", i), 3)
		ptrs := kind < 2 && nd.Choose(fmt.Sprintf("by pointer %d", i), 2) == 1
		go func() {
			for k := 0; k < ops; k++ {
				switch kind {
				case 0: // built-in types are always known
					site := vanflow.SiteRecord{BaseRecord: vanflow.NewBase("id"), Name: ptr("n")}
					var in any = site
					if ptrs {
						in = &site
					}
					attrs, err := encoding.Encode(in)
					nd.Assert(err == nil && len(attrs) == 3, "a built-in record cannot be encoded concurrently")
					out, err := encoding.Decode(attrs)
					nd.Assert(err == nil, "a built-in record cannot be decoded concurrently")
					s, ok := out.(*vanflow.SiteRecord)
					nd.Assert(ok && s.ID == "id" && s.Name != nil && *s.Name == "n" && s.Location == nil, "a concurrently decoded record differs")
				case 1: // the type being registered is known or not, consistently
					rec := appTwo{ID: 7, N: ptr(int32(-3))}
					var in any = rec
					if ptrs {
						in = &rec
					}
					attrs, err := encoding.Encode(in)
					if err == nil {
						nd.Cover("registered before")
						out, err := encoding.Decode(attrs)
						nd.Assert(err == nil, "a type known to the encoder is unknown to the decoder")
						s, ok := out.(*appTwo)
						nd.Assert(ok && s.ID == 7 && s.N != nil && *s.N == -3, "a concurrently decoded record differs")
					} else {
						nd.Cover("registered after")
					}
				case 2:
					out, err := encoding.Decode(encoding.RecordAttributeSet{uint32(0): uint32(code), uint32(1): uint64(5)})
					if err == nil {
						s, ok := out.(*appTwo)
						nd.Assert(ok && s.ID == 5, "a concurrently decoded record differs")
						_, err = encoding.Encode(s)
						nd.Assert(err == nil, "a type known to the decoder is unknown to the encoder")
					}
				}
			}
			done <- struct{}{}
		}()
	}
	if nd.Choose("register", 2) == 1 {
		encoding.MustRegisterRecord(code, appTwo{})
		nd.Cover("register")
	} else {
		// two registrations of one code: exactly one wins
		w := make(chan bool, 2)
		go func() { w <- register(code, appTwo{}) }()
		b := register(code, appAll{})
		a := <-w
		nd.Assert(a != b, "two concurrent registrations of one code both succeed or both fail")
		nd.Cover("conflict")
	}
	for i := 0; i < threads; i++ {
		<-done
	}
}

// deepRecord: attributes of structs embedded several levels deep keep their places.
func deepRecord() {
	encoding.MustRegisterRecord(5003, appDeep{})
	in := appDeep{ID: "id", Last: nd.Uint64("last")}
	s := func(l string) string { return nd.String(l, 1) }
	in.E1, in.E2, in.E3 = ptr(s("e1")), nd.Uint64("e2"), nd.Int32("e3")
	in.D1, in.D2, in.D3 = s("d1"), nd.Uint32("d2"), ptr(nd.Int64("d3"))
	in.X1, in.X2 = s("x1"), nd.Uint64("x2")
	in.C1, in.C2 = nd.Uint64("c1"), s("c2")
	in.B1 = s("b1")
	// unset attributes are covered elsewhere
	nd.Assume(nd.And(nd.And(in.Last != 0, in.E2 != 0), nd.And(in.E3 != 0, in.D2 != 0)))
	nd.Assume(nd.And(nd.And(*in.D3 != 0, in.X2 != 0), in.C1 != 0))
	nd.Assume(len(*in.E1) == 1 && len(in.D1) == 1 && len(in.X1) == 1 && len(in.C2) == 1 && len(in.B1) == 1)
	attrs, err := encoding.Encode(&in)
	nd.Assert(err == nil, "a valid record cannot be encoded")
	want := map[uint32]any{1: "id", 2: in.Last, 21: in.B1, 31: in.C1, 32: in.C2, 41: in.D1, 42: in.D2, 43: *in.D3,
		51: *in.E1, 52: in.E2, 53: in.E3, 61: in.X1, 62: in.X2}
	nd.Assert(len(attrs) == len(want)+1, "attributes were lost or invented")
	for _, k := range []uint32{1, 2, 21, 31, 32, 41, 42, 43, 51, 52, 53, 61, 62} {
		nd.Assert(attrs[k] == want[k], fmt.Sprintf("attribute %d of an embedded struct differs on the wire", k))
	}
	o, err := encoding.Decode(attrs)
	nd.Assert(err == nil, "an encoded record cannot be decoded")
	out, ok := o.(*appDeep)
	nd.Assert(ok, "decoded to another type")
	nd.Assert(out.ID == "id" && out.Last == in.Last && out.B1 == in.B1 && out.C1 == in.C1 && out.C2 == in.C2, "an outer attribute differs")
	nd.Assert(out.D1 == in.D1 && out.D2 == in.D2 && out.D3 != nil && *out.D3 == *in.D3, "a deeply embedded attribute differs")
	nd.Assert(out.E1 != nil && *out.E1 == *in.E1 && out.E2 == in.E2 && out.E3 == in.E3, "a deeply embedded attribute differs")
	nd.Assert(out.X1 == in.X1 && out.X2 == in.X2, "an attribute of the second embedded struct differs")
	nd.Cover("deep")
}
