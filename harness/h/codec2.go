package h

import (
	"errors"
	"fmt"
	"math"
	"time"

	amqp "github.com/Azure/go-amqp"
	"github.com/c-kruse/vanflow"
	"github.com/c-kruse/vanflow/encoding"

	"verif/harness/nd"
)

// anyValue makes an arbitrary AMQP value; kind tells which.
const (
	vNil = iota
	vString
	vU64
	vU32
	vI64
	vI32
	vBool
	vBytes
	vList
	vMap
	vU8
	vU16
	vI8
	vI16
	vTime
	nKinds
)

func anyValue(label string, kinds int, slen int) (v any, kind int) {
	kind = nd.Choose(label+"-kind", kinds)
	switch kind {
	case vNil:
		return nil, kind
	case vString:
		return nd.String(label, slen), kind
	case vU64:
		return nd.Uint64(label), kind
	case vU32:
		return nd.Uint32(label), kind
	case vI64:
		return nd.Int64(label), kind
	case vI32:
		return nd.Int32(label), kind
	case vBool:
		return nd.Bool(label), kind
	case vBytes:
		return []byte{1, 2}, kind
	case vList:
		return []any{"x", uint64(1)}, kind
	case vMap:
		return map[any]any{"x": uint64(1)}, kind
	case vU8:
		return uint8(1), kind
	case vU16:
		return uint16(1), kind
	case vI8:
		return int8(1), kind
	case vI16:
		return int16(1), kind
	}
	return time.UnixMicro(5), vTime
}

// anyKey makes an arbitrary attribute key; isCode tells whether it is a codepoint.
func anyKey(label string) (k any, code uint32, isCode bool) {
	switch nd.Choose(label+"-key", 5) {
	case 0:
		c := nd.Uint32(label + "-code")
		return c, c, true
	case 1:
		return uint64(nd.IntRange(label+"-code", 0, 60)), 0, false
	case 2:
		return int64(nd.IntRange(label+"-code", 0, 60)), 0, false
	case 3:
		return int(nd.IntRange(label+"-code", 0, 60)), 0, false
	}
	return nd.String(label+"-code", 2), 0, false
}

var unknownValues = []any{"x", uint64(7), nil, int64(-1), []any{}, true, uint32(0), 1.5}

// C03_Decode: any map decodes to what it denotes or to an error.
func C03_Decode() {
	n, slen := nd.Param("n", 1), nd.Param("len", 2)
	kinds := nd.Param("kinds", nKinds)
	set := encoding.RecordAttributeSet{}
	type entry struct {
		code uint32
		v    any
	}
	var entries []entry // codepoint entries, last one wins per code
	pt := protoTypes[nd.Choose("type", len(protoTypes))]
	set[uint32(0)] = pt.code
	id := ""
	if nd.Choose("with-id", 2) == 1 {
		id = nd.String("id", slen)
		set[uint32(1)] = id
		entries = append(entries, entry{1, id})
	}
	for i := 0; i < n; i++ {
		l := fmt.Sprintf("a%d", i)
		k, code, isCode := anyKey(l)
		v, _ := anyValue(l, kinds, slen)
		if isCode {
			nd.Assume(code != 0)
			entries = append(entries, entry{code, v})
		}
		set[k] = v
	}
	// attributes that no record type knows
	switch nd.Choose("unknown", 3) {
	case 1:
		for i := uint32(100); i < 130; i++ {
			set[i] = unknownValues[int(i)%len(unknownValues)]
		}
	case 2:
		for i := 1; i < 30; i++ {
			set[uint64(i)] = unknownValues[i%len(unknownValues)]
			set[fmt.Sprint(i)] = i
		}
	}
	out, err := encoding.Decode(set)
	// what it denotes
	r := newRec(pt, "")
	bad, haveID := false, false
	for _, e := range entries {
		if e.code == 1 {
			// the last entry under the code counts
			s, ok := e.v.(string)
			haveID = ok
			r.id = s
		}
	}
	for _, a := range pt.all() {
		for _, e := range entries {
			if e.code != a.code {
				continue
			}
			delete(r.vals, a.name)
			wrong := false
			switch a.kind {
			case aStr:
				s, ok := e.v.(string)
				wrong = !ok
				r.vals[a.name] = aval{set: true, s: s}
			case aU64, aTime:
				u, ok := e.v.(uint64)
				wrong = !ok
				if a.kind == aTime && u > math.MaxInt64 {
					wrong = true
				}
				r.vals[a.name] = aval{set: true, u: u}
			}
			if wrong {
				r.vals[a.name] = aval{set: true, s: "\x00wrong"}
			}
		}
		if v := r.vals[a.name]; v.s == "\x00wrong" && v.set {
			bad = true
		}
	}
	if !haveID || bad {
		nd.Assert(err != nil, "an attribute set with a missing identity or a wrongly typed attribute was decoded")
		nd.Cover("rejected")
		return
	}
	if r.id == "" {
		nd.Cover("empty id")
		return // not claimed
	}
	nd.Assert(err == nil, "a well-formed attribute set was rejected")
	checkRec(out, r, "decode")
	nd.Cover("decoded")
}

// C03_Type: the type code must be present, a uint32, and known.
func C03_Type() {
	set := encoding.RecordAttributeSet{uint32(1): "id"}
	k, code, isCode := anyKey("type")
	v, kind := anyValue("type", nKinds, 2)
	if nd.Choose("nil-map", 2) == 1 {
		_, err := encoding.Decode(nil)
		nd.Assert(err != nil, "a nil attribute set was decoded")
		nd.Cover("nil")
		return
	}
	nd.Assume(!isCode || code != 1)
	set[k] = v
	out, err := encoding.Decode(set)
	if isCode && code == 0 && kind == vU32 {
		c := v.(uint32)
		if c < uint32(len(protoTypes)) {
			nd.Assert(err == nil, "a known record type was rejected")
			pt := protoTypes[nd.ConcreteInt(uint64(c))]
			checkRec(out, newRec(pt, "id"), "decode")
			nd.Cover("decoded")
			return
		}
	}
	nd.Assert(err != nil, "an attribute set without a valid type code was decoded")
	nd.Cover("rejected")
}

func optStr(label string, n int) *string {
	if nd.Choose(label+"-set", 2) == 0 {
		return nil
	}
	s := nd.String(label, n)
	return &s
}

func str(p *string) string {
	if p == nil {
		return ""
	}
	return *p
}

// C04_Props: whatever the properties, application properties and body, decoding yields what the subject names.
func C04_Props() {
	k, kinds := nd.Param("k", 1), nd.Param("kinds", 8)
	if nd.Choose("no-message", 2) == 1 {
		_, err := vanflow.Decode(nil)
		nd.Assert(err != nil, "a nil message was decoded")
		return
	}
	msg := &amqp.Message{}
	if nd.Choose("no-properties", 2) == 0 {
		msg.Properties = &amqp.MessageProperties{To: optStr("to", 2), ReplyTo: optStr("replyTo", 2), Subject: optStr("subject", 10)}
	}
	names := []string{"v", "sourceType", "address", "direct", "id", "now", "other"}
	if nd.Choose("app-props", 2) == 1 {
		msg.ApplicationProperties = map[string]any{}
		next := 0
		for i := 0; i < k && next < len(names); i++ {
			c := nd.Choose("name", len(names)-next)
			v, _ := anyValue(names[next+c], kinds, 2)
			msg.ApplicationProperties[names[next+c]] = v
			next += c + 1
		}
	}
	switch nd.Choose("body", 4) {
	case 1:
		v, _ := anyValue("body", nKinds, 2)
		msg.Value = v
	case 2:
		msg.Data = [][]byte{{1}}
	case 3:
		msg.Value = []any{}
	}
	out, err := vanflow.Decode(msg)
	if msg.Properties == nil || msg.Properties.Subject == nil {
		nd.Assert(err != nil, "a message without subject was decoded")
		nd.Cover("no subject")
		return
	}
	p := msg.Properties
	ap := msg.ApplicationProperties
	want := vanflow.MessageProps{To: str(p.To), Subject: *p.Subject, ReplyTo: str(p.ReplyTo)}
	u32 := func(n string) uint32 { v, _ := ap[n].(uint32); return v }
	u64 := func(n string) uint64 { v, _ := ap[n].(uint64); return v }
	s := func(n string) string { v, _ := ap[n].(string); return v }
	switch *p.Subject {
	case "BEACON":
		m, ok := out.(vanflow.BeaconMessage)
		nd.Assert(err == nil && ok, "a beacon was not decoded as one")
		nd.Assert(m.To == want.To && m.Subject == want.Subject && m.ReplyTo == want.ReplyTo, "beacon properties differ")
		nd.Assert(m.Version == u32("v") && m.SourceType == s("sourceType") && m.Address == s("address") && m.Direct == s("direct") && m.Identity == s("id"), "beacon fields differ")
		nd.Cover("beacon")
	case "HEARTBEAT":
		m, ok := out.(vanflow.HeartbeatMessage)
		nd.Assert(err == nil && ok, "a heartbeat was not decoded as one")
		nd.Assert(m.To == want.To && m.Subject == want.Subject, "heartbeat properties differ")
		nd.Assert(m.Version == u32("v") && m.Now == u64("now") && m.Identity == s("id"), "heartbeat fields differ")
		nd.Cover("heartbeat")
	case "FLUSH":
		m, ok := out.(vanflow.FlushMessage)
		nd.Assert(err == nil && ok, "a flush was not decoded as one")
		nd.Assert(m.To == want.To && m.Subject == want.Subject && m.ReplyTo == want.ReplyTo, "flush properties differ")
		nd.Cover("flush")
	case "RECORD":
		list, isList := msg.Value.([]any)
		if !isList || len(list) > 0 {
			nd.Assert(err != nil, "a record message without a list of records was decoded")
			nd.Cover("bad records")
			return
		}
		m, ok := out.(vanflow.RecordMessage)
		nd.Assert(err == nil && ok, "a record message was not decoded as one")
		nd.Assert(m.To == want.To && m.Subject == want.Subject && len(m.Records) == 0, "record message properties differ")
		nd.Cover("records")
	default:
		nd.Assert(err != nil, "a message with an unknown subject was decoded")
		nd.Cover("unknown subject")
	}
}

// C04_Body: a record message's list decodes to all its records, in order, or to an error.
func C04_Body() {
	n := nd.Choose("records", nd.Param("n", 2)+1)
	subject, to := "RECORD", nd.String("to", 2)
	var list []any
	var want []*rec
	bad := false
	for i := 0; i < n; i++ {
		l := fmt.Sprintf("r%d", i)
		switch nd.Choose(l+"-form", 5) {
		case 0, 1:
			pt := protoTypes[nd.Choose(l+"-type", len(protoTypes))]
			id := nd.String(l, 2)
			nd.Assume(len(id) > 0)
			r := newRec(pt, id)
			wire := map[any]any{uint32(0): pt.code, uint32(1): id}
			if len(pt.attrs) > 0 {
				a := pt.attrs[nd.Choose(l+"-attr", len(pt.attrs))]
				v := r.setSym(a, l+"-v", 2)
				if a.kind == aStr {
					wire[a.code] = v.s
				} else {
					wire[a.code] = v.u
				}
			}
			list = append(list, wire)
			want = append(want, r)
		case 2: // unknown type
			c := nd.Uint32(l + "-code")
			nd.Assume(c >= uint32(len(protoTypes)))
			list = append(list, map[any]any{uint32(0): c, uint32(1): "id"})
			bad = true
		case 3: // identity missing or null
			list = append(list, map[any]any{uint32(0): uint32(0), uint32(1): nil})
			bad = true
		case 4: // not a map with arbitrary keys
			switch nd.Choose(l+"-kind", 5) {
			case 0:
				list = append(list, nil)
			case 1:
				list = append(list, "x")
			case 2:
				list = append(list, map[string]any{"x": "y"})
			case 3:
				list = append(list, []any{})
			case 4:
				list = append(list, map[any]any(nil))
			}
			bad = true
		}
	}
	out, err := vanflow.Decode(&amqp.Message{Properties: &amqp.MessageProperties{Subject: &subject, To: &to}, Value: list})
	if bad {
		nd.Assert(err != nil, "a record message holding a malformed record was decoded")
		nd.Cover("rejected")
		return
	}
	if list == nil {
		return
	}
	nd.Assert(err == nil, "a well-formed record message was rejected")
	m, ok := out.(vanflow.RecordMessage)
	nd.Assert(ok, "a record message decoded to something else")
	nd.Assert(m.To == to, "the address differs")
	nd.Assert(len(m.Records) == len(want), "records were lost or invented")
	for i := range want {
		checkRec(m.Records[i], want[i], "record")
	}
	nd.Cover("decoded")
}

// C05_RoundTrip: beacon, heartbeat and flush.
func C05_RoundTrip() {
	n := nd.Param("len", 6)
	switch nd.Choose("message", 3) {
	case 0:
		in := vanflow.BeaconMessage{Version: nd.Uint32("version"), SourceType: nd.String("sourceType", n), Address: nd.String("address", n),
			Direct: nd.String("direct", n), Identity: nd.String("identity", n)}
		in.To, in.Subject, in.ReplyTo = nd.String("to", 2), nd.String("subject", 2), nd.String("replyTo", 2)
		m := in.Encode()
		nd.Assert(m.Properties != nil && m.Properties.To != nil && *m.Properties.To == "mc/sfe.all", "a beacon is not addressed to mc/sfe.all")
		nd.Assert(m.Properties.Subject != nil && *m.Properties.Subject == "BEACON", "a beacon's subject is not BEACON")
		out, err := vanflow.Decode(m)
		nd.Assert(err == nil, "an encoded beacon cannot be decoded")
		b, ok := out.(vanflow.BeaconMessage)
		nd.Assert(ok, "an encoded beacon decodes to something else")
		nd.Assert(b.Version == in.Version, "beacon version differs")
		nd.Assert(b.SourceType == in.SourceType, "beacon source type differs")
		nd.Assert(b.Address == in.Address, "beacon address differs")
		nd.Assert(b.Direct == in.Direct, "beacon direct address differs")
		nd.Assert(b.Identity == in.Identity, "beacon identity differs")
		nd.Assert(b.To == "mc/sfe.all" && b.Subject == "BEACON", "beacon properties differ")
		nd.Observe("id", b.Identity)
		nd.Cover("beacon")
	case 1:
		in := vanflow.HeartbeatMessage{Version: nd.Uint32("version"), Now: nd.Uint64("now"), Identity: nd.String("identity", n)}
		in.To, in.Subject = nd.String("to", 2), nd.String("subject", 2)
		m := in.Encode()
		nd.Assert(m.Properties != nil && m.Properties.To != nil && *m.Properties.To == "mc/sfe."+in.Identity, "a heartbeat is not addressed to mc/sfe.<identity>")
		nd.Assert(m.Properties.Subject != nil && *m.Properties.Subject == "HEARTBEAT", "a heartbeat's subject is not HEARTBEAT")
		out, err := vanflow.Decode(m)
		nd.Assert(err == nil, "an encoded heartbeat cannot be decoded")
		b, ok := out.(vanflow.HeartbeatMessage)
		nd.Assert(ok, "an encoded heartbeat decodes to something else")
		nd.Assert(b.Version == in.Version, "heartbeat version differs")
		nd.Assert(b.Now == in.Now, "heartbeat timestamp differs")
		nd.Assert(b.Identity == in.Identity, "heartbeat identity differs")
		nd.Assert(b.To == "mc/sfe."+in.Identity && b.Subject == "HEARTBEAT", "heartbeat properties differ")
		nd.Observe("now", b.Now)
		nd.Cover("heartbeat")
	case 2:
		in := vanflow.FlushMessage{MessageProps: vanflow.MessageProps{To: nd.String("to", n), ReplyTo: nd.String("replyTo", n), Subject: nd.String("subject", 2)}}
		m := in.Encode()
		nd.Assert(m.Properties != nil && m.Properties.To != nil && *m.Properties.To == in.To, "a flush is not addressed as requested")
		nd.Assert(m.Properties.Subject != nil && *m.Properties.Subject == "FLUSH", "a flush's subject is not FLUSH")
		out, err := vanflow.Decode(m)
		nd.Assert(err == nil, "an encoded flush cannot be decoded")
		b, ok := out.(vanflow.FlushMessage)
		nd.Assert(ok, "an encoded flush decodes to something else")
		nd.Assert(b.To == in.To, "flush address differs")
		nd.Assert(b.ReplyTo == in.ReplyTo, "flush reply-to differs")
		nd.Assert(b.Subject == "FLUSH", "flush subject differs")
		nd.Cover("flush")
	}
}

// C05_Independent: encoding one message does not disturb another that was encoded before.
func C05_Independent() {
	mk := func(l string) (*amqp.Message, func(*amqp.Message)) {
		id, to := nd.String(l+"id", 3), nd.String(l+"to", 3)
		v, now := nd.Uint32(l+"v"), nd.Uint64(l+"now")
		switch nd.Choose(l+"kind", 3) {
		case 0:
			return vanflow.BeaconMessage{Version: v, Identity: id, Address: to, Direct: id, SourceType: to}.Encode(), func(m *amqp.Message) {
				o, err := vanflow.Decode(m)
				b, ok := o.(vanflow.BeaconMessage)
				nd.Assert(err == nil && ok && b.Identity == id && b.Version == v && b.Address == to && b.Direct == id && b.SourceType == to && b.To == "mc/sfe.all", "an encoded beacon changed later")
			}
		case 1:
			return vanflow.HeartbeatMessage{Version: v, Identity: id, Now: now}.Encode(), func(m *amqp.Message) {
				o, err := vanflow.Decode(m)
				b, ok := o.(vanflow.HeartbeatMessage)
				nd.Assert(err == nil && ok && b.Identity == id && b.Version == v && b.Now == now && b.To == "mc/sfe."+id, "an encoded heartbeat changed later")
			}
		}
		return vanflow.FlushMessage{MessageProps: vanflow.MessageProps{To: to, ReplyTo: id}}.Encode(), func(m *amqp.Message) {
			o, err := vanflow.Decode(m)
			b, ok := o.(vanflow.FlushMessage)
			nd.Assert(err == nil && ok && b.To == to && b.ReplyTo == id, "an encoded flush changed later")
		}
	}
	m1, c1 := mk("a")
	m2, c2 := mk("b")
	c1(m1)
	c2(m2)
	nd.Cover("done")
}

type unregistered struct{ vanflow.BaseRecord }

func (unregistered) GetTypeMeta() vanflow.TypeMeta { return vanflow.TypeMeta{Type: "unregistered"} }

// C06_Records: record messages round-trip every record, of every type, in order, or fail as a whole.
func C06_Records() {
	n := nd.Choose("records", nd.Param("n", 2)+1)
	full := nd.Param("full", 2) // records beyond this one take a few types only
	var in []vanflow.Record
	var want []*rec
	bad := false
	for i := 0; i < n; i++ {
		l := fmt.Sprintf("r%d", i)
		nt := len(protoTypes)
		if i >= full {
			nt = 2
		}
		switch nd.Choose(l+"-form", 3) {
		case 0, 1:
			pt := protoTypes[nd.Choose(l+"-type", nt)]
			id := nd.String(l, 2)
			nd.Assume(len(id) > 0)
			r := newRec(pt, id)
			if len(pt.attrs) > 0 {
				r.setSymNZ(pt.attrs[0], l+"-v", 2, true)
			}
			v := r.value()
			if nd.Choose(l+"-ptr", 2) == 1 {
				v = r.pointer()
			}
			x, ok := v.(vanflow.Record)
			nd.Assert(ok, "a protocol record type cannot be put into a record message: "+pt.name)
			in = append(in, x)
			want = append(want, r)
		case 2:
			bad = true
			switch nd.Choose(l+"-bad", 6) {
			case 0:
				in = append(in, vanflow.SiteRecord{})
			case 1:
				in = append(in, unregistered{vanflow.NewBase("x")})
			case 2:
				in = append(in, nil)
			case 3:
				in = append(in, (*vanflow.SiteRecord)(nil))
			case 4:
				sec := nd.IntRange("sec", 1, 1<<32)
				in = append(in, vanflow.LinkRecord{BaseRecord: vanflow.NewBase("x", time.Unix(-int64(sec), 0))})
			case 5:
				in = append(in, &unregistered{vanflow.NewBase("x")})
			}
		}
	}
	to := nd.String("to", 3)
	m, err := vanflow.RecordMessage{MessageProps: vanflow.MessageProps{To: to}, Records: in}.Encode()
	if bad {
		nd.Assert(err != nil, "a message holding a record that cannot be encoded was encoded")
		nd.Assert(m == nil, "a message was returned along with an error")
		nd.Cover("refused")
		return
	}
	nd.Assert(err == nil, "a valid record message cannot be encoded")
	nd.Assert(m.Properties != nil && m.Properties.To != nil && *m.Properties.To == to, "the message's address differs")
	nd.Assert(m.Properties.Subject != nil && *m.Properties.Subject == "RECORD", "the message's subject is not RECORD")
	out, err := vanflow.Decode(m)
	nd.Assert(err == nil, "an encoded record message cannot be decoded")
	rm, ok := out.(vanflow.RecordMessage)
	nd.Assert(ok && rm.To == to, "another message or address")
	nd.Assert(len(rm.Records) == len(want), "records were lost or invented")
	for i := range want {
		checkRec(rm.Records[i], want[i], "record")
		nd.Assert(rm.Records[i].Identity() == want[i].id, "identity differs")
		nd.Assert(rm.Records[i].GetTypeMeta() == in[i].GetTypeMeta(), "type differs")
	}
	nd.Cover("carried")
	if n == nd.Param("n", 2) {
		nd.Cover("full length")
	}
}

// C06_TypeMeta: every protocol record type names itself.
func C06_TypeMeta() {
	pt := chooseType()
	r := newRec(pt, nd.String("id", 2))
	x, ok := r.value().(vanflow.Record)
	nd.Assert(ok, "a protocol record type is not a record: "+pt.name)
	nd.Assert(x.GetTypeMeta() == vanflow.TypeMeta{APIVersion: "flow/v1", Type: pt.name}, "wrong type name: "+pt.name)
	nd.Assert(x.Identity() == r.id, "wrong identity")
	nd.Cover("done")
}

// anyTime makes an arbitrary time from year 1 to year 294246.
func anyTime(label string) (t time.Time, sec int64, nsec int64) {
	const minSec, maxSec = -62135596800, 9223372036854
	s := nd.IntRange(label+"-sec", 0, maxSec-minSec-1)
	n := nd.IntRange(label+"-nsec", 0, 999_999_999)
	sec, nsec = int64(s)+minSec, int64(n)
	t = time.Unix(sec, nsec)
	if nd.Choose(label+"-utc", 2) == 1 {
		t = t.UTC()
	}
	return
}

// C07_Encode: microseconds since the epoch, rounded down; errors before the epoch; unset when zero.
func C07_Encode() {
	t, sec, nsec := anyTime("t")
	v, err := vanflow.Time{Time: t}.EncodeRecordAttribute()
	if sec == -62135596800 && nsec == 0 {
		nd.Assert(errors.Is(err, encoding.ErrAttributeNotSet), "the zero time does not count as unset")
		nd.Cover("zero")
		return
	}
	if sec < 0 {
		nd.Assert(err != nil, "a time before the epoch was encoded")
		nd.Assert(!errors.Is(err, encoding.ErrAttributeNotSet), "a time before the epoch counts as unset")
		nd.Cover("before epoch")
		return
	}
	nd.Assert(err == nil, "a representable time was not encoded")
	u, ok := v.(uint64)
	nd.Assert(ok, "a time is not encoded as uint64")
	nd.Assert(u == uint64(sec)*1_000_000+uint64(nsec)/1000, "wrong number of microseconds")
	nd.Observe("u", u)
	nd.Cover("encoded")
}

// C07_Record: the same through a record.
func C07_Record() {
	t, sec, nsec := anyTime("t")
	code := uint32(3 + nd.Choose("end", 2))
	base := vanflow.BaseRecord{ID: "id"}
	if code == 3 {
		base.StartTime = &vanflow.Time{Time: t}
	} else {
		base.EndTime = &vanflow.Time{Time: t}
	}
	var in any = vanflow.SiteRecord{BaseRecord: base}
	if nd.Choose("type", 2) == 1 {
		in = &vanflow.FlowRecord{BaseRecord: base}
	}
	attrs, err := encoding.Encode(in)
	if sec == -62135596800 && nsec == 0 {
		_, present := attrs[code]
		nd.Assert(err == nil && !present, "the zero time does not count as unset")
		nd.Cover("zero")
		return
	}
	if sec < 0 {
		nd.Assert(err != nil, "a record with a time before the epoch was encoded")
		nd.Cover("before epoch")
		return
	}
	nd.Assert(err == nil, "a record with a representable time was not encoded")
	u, ok := attrs[code].(uint64)
	nd.Assert(ok && u == uint64(sec)*1_000_000+uint64(nsec)/1000, "wrong time on the wire")
	_, other := attrs[7-code]
	nd.Assert(!other, "the other time is set")
	nd.Cover("encoded")
}

// C07_Decode: every value up to 2^63-1 decodes to the instant that encodes back to it.
func C07_Decode() {
	v, kind := anyValue("v", nKinds, 2)
	var t vanflow.Time
	if nd.Choose("preset", 2) == 1 {
		t.Time = time.UnixMicro(77)
	}
	err := t.DecodeRecordAttribute(v)
	u, ok := v.(uint64)
	if kind != vU64 || !ok {
		nd.Assert(err != nil, "a time was decoded from another type")
		nd.Cover("other type")
		return
	}
	if u > math.MaxInt64 {
		nd.Assert(err != nil, "an unrepresentable time was decoded")
		nd.Cover("too large")
		return
	}
	nd.Assert(err == nil, "a valid timestamp was rejected")
	nd.Assert(uint64(t.UnixMicro()) == u, "decoded to another instant")
	nd.Assert(t.Nanosecond()%1000 == 0, "decoded to a fraction of a microsecond")
	w, err := t.EncodeRecordAttribute()
	nd.Assert(err == nil, "a decoded time cannot be encoded")
	x, ok := w.(uint64)
	nd.Assert(ok && x == u, "a decoded time encodes to another value")
	nd.Cover("decoded")
}
