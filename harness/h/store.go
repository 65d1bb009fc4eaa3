package h

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/c-kruse/vanflow"
	"github.com/c-kruse/vanflow/store"

	"verif/harness/nd"
)

// ment is what the model expects of one stored entry.
type ment struct {
	key   string
	typ   int // 0 site, 1 link
	id    string
	name  string // "" is unset
	extra string
	src   store.SourceRef
	ann   string // value of annotation "k", "" if none
	site  string // value of the site annotation, "" if none
	tm    vanflow.TypeMeta
	gen   int
	byPtr bool
}

func typeMetaOf(typ int) vanflow.TypeMeta {
	if typ == 0 {
		return vanflow.TypeMeta{APIVersion: "flow/v1", Type: "SiteRecord"}
	}
	return vanflow.TypeMeta{APIVersion: "flow/v1", Type: "LinkRecord"}
}

func (m *ment) record() vanflow.Record {
	var name, extra *string
	if m.name != "" {
		name = ptr(m.name)
	}
	if m.extra != "" {
		extra = ptr(m.extra)
	}
	if m.typ == 0 {
		r := vanflow.SiteRecord{BaseRecord: vanflow.BaseRecord{ID: m.id}, Name: name, Location: extra}
		if m.byPtr {
			return &r
		}
		return r
	}
	r := vanflow.LinkRecord{BaseRecord: vanflow.BaseRecord{ID: m.id}, Name: name, Mode: extra}
	if m.byPtr {
		return &r
	}
	return r
}

func (m *ment) entry() store.Entry {
	e := store.Entry{Record: m.record(), TypeMeta: m.tm, Meta: store.Metadata{Source: m.src}}
	if m.ann != "" || m.site != "" {
		e.Meta.Annotations = map[string]string{}
		if m.ann != "" {
			e.Meta.Annotations["k"] = m.ann
		}
		if m.site != "" {
			e.Meta.Annotations["skupper.io/flow/site-id"] = m.site
		}
	}
	return e
}

func strOf(p *string) string {
	if p == nil {
		return ""
	}
	return *p
}

// recFields reads what a stored record holds.
func recFields(r vanflow.Record) (typ int, id, name, extra string, rest bool) {
	switch x := r.(type) {
	case vanflow.SiteRecord:
		return 0, x.ID, strOf(x.Name), strOf(x.Location), x.Provider == nil && x.Platform == nil && x.Namespace == nil && x.Version == nil && x.Policy == nil && x.StartTime == nil && x.EndTime == nil
	case *vanflow.SiteRecord:
		return 0, x.ID, strOf(x.Name), strOf(x.Location), x.Provider == nil && x.Platform == nil && x.Namespace == nil && x.Version == nil && x.Policy == nil && x.StartTime == nil && x.EndTime == nil
	case vanflow.LinkRecord:
		return 1, x.ID, strOf(x.Name), strOf(x.Mode), x.Parent == nil && x.LinkCost == nil && x.Direction == nil && x.StartTime == nil && x.EndTime == nil
	case *vanflow.LinkRecord:
		return 1, x.ID, strOf(x.Name), strOf(x.Mode), x.Parent == nil && x.LinkCost == nil && x.Direction == nil && x.StartTime == nil && x.EndTime == nil
	}
	return -1, "", "", "", false
}

// differs tells how a stored entry differs from what is expected ("" if it does not).
func (m *ment) differs(e store.Entry) string {
	typ, id, name, extra, rest := recFields(e.Record)
	if typ != m.typ {
		return "record type"
	}
	if !rest {
		return "attributes never set"
	}
	if id != m.id {
		return "identity"
	}
	if name != m.name || extra != m.extra {
		return "attributes"
	}
	if e.Meta.Source != m.src {
		return "source"
	}
	if e.TypeMeta != m.tm {
		return "type"
	}
	n := 0
	if m.ann != "" {
		n++
	}
	if m.site != "" {
		n++
	}
	if len(e.Meta.Annotations) != n || e.Meta.Annotations["k"] != m.ann || e.Meta.Annotations["skupper.io/flow/site-id"] != m.site {
		return "annotations"
	}
	return ""
}

var errKey = errors.New("no key")

// keyOf is the key function under test, on entries.
func keyOf(kf int) store.KeyFunc {
	switch kf {
	case 1:
		return func(e store.Entry) (string, error) { return e.Record.GetTypeMeta().Type + "/" + e.Record.Identity(), nil }
	case 2:
		return func(e store.Entry) (string, error) {
			return e.TypeMeta.APIVersion + "/" + e.TypeMeta.Type + "/" + e.Record.Identity(), nil
		}
	case 3:
		return func(e store.Entry) (string, error) { return e.Meta.Source.Name + "/" + e.Record.Identity(), nil }
	case 4:
		return func(e store.Entry) (string, error) {
			if e.Record.Identity() == "!" {
				return "", errKey
			}
			return "k" + e.Record.Identity(), nil
		}
	}
	return nil
}

// sev is a handler call.
type sev struct {
	kind       string
	prev, next *ment       // expected
	gp, gn     store.Entry // seen
}

// sdrv drives a store and a model of it.
type sdrv struct {
	st   store.Interface
	kf   int
	m    []*ment
	used []*ment // every entry ever named
	got  []sev
	want []sev
	gen  int

	plain bool // names are fixed, distinct values
	batch int  // largest Replace
}

const (
	opAdd = iota
	opUpdate
	opDelete
	opAccumulate
	opReplace
	nOps
)

func newDrv(kf int, idx map[string]store.CacheIndexer, handlers int) *sdrv {
	d := &sdrv{kf: kf, plain: nd.Param("plain", 0) == 1, batch: nd.Param("batch", 2)}
	cfg := store.CacheConfig{Key: keyOf(kf), Indexers: idx}
	if handlers&1 != 0 {
		cfg.EventHandlers.OnAdd = func(e store.Entry) { d.got = append(d.got, sev{kind: "add", gn: e}) }
	}
	if handlers&2 != 0 {
		cfg.EventHandlers.OnChange = func(p, e store.Entry) { d.got = append(d.got, sev{kind: "change", gp: p, gn: e}) }
	}
	if handlers&4 != 0 {
		cfg.EventHandlers.OnDelete = func(e store.Entry) { d.got = append(d.got, sev{kind: "delete", gn: e}) }
	}
	d.st = store.NewDefaultCachingStore(cfg)
	return d
}

// key is the model's key of an entry; false if the key function fails.
func (d *sdrv) key(m *ment) (string, bool) {
	switch d.kf {
	case 1, 2:
		return fmt.Sprintf("%d/%s", m.typ, m.id), true
	case 3:
		return m.src.Name + "/" + m.id, true
	case 4:
		if m.id == "!" {
			return "", false
		}
	}
	return m.id, true
}

func (d *sdrv) find(key string) int {
	for i, e := range d.m {
		if e.key == key {
			return i
		}
	}
	return -1
}

// gen names an arbitrary entry.
func (d *sdrv) fresh(l string) *ment {
	m := &ment{id: nd.StringN(l+"-id", 1), extra: "e" + l, ann: "a" + l, src: store.SourceRef{APIVersion: "v1", Type: "T", Name: "s" + l}}
	if d.kf == 3 {
		m.src.Name = []string{"A", "B"}[nd.Choose(l+"-source", 2)]
	}
	if d.kf == 1 || d.kf == 2 {
		m.typ = nd.Choose(l+"-type", 2)
	}
	if d.plain {
		m.name = "n" + l
	} else {
		m.name = nd.String(l+"-name", 1)
	}
	m.tm = typeMetaOf(m.typ)
	m.byPtr = true
	d.used = append(d.used, m)
	return m
}

// other is an exemplar of the same key but of another type, if the key allows that.
func (d *sdrv) other(m *ment) *ment {
	if d.kf == 1 || d.kf == 2 {
		return nil
	}
	return &ment{id: m.id, typ: 1 - m.typ, tm: typeMetaOf(1 - m.typ), src: m.src}
}

// step performs operation op on store and model; it reports whether both agree on success.
func (d *sdrv) step(l string, op int) (gotErr error, wantErr bool) {
	ctx := context.Background()
	if op == opReplace {
		n := nd.Choose(l+"-size", d.batch+1)
		var es []store.Entry
		var next []*ment
		for i := 0; i < n; i++ {
			m := d.fresh(fmt.Sprintf("%s.%d", l, i))
			es = append(es, m.entry())
			k, ok := d.key(m)
			if !ok {
				wantErr = true
				continue
			}
			m.key = k
			// a later entry of the same key wins
			dup := false
			for j := range next {
				if next[j].key == k {
					next[j] = m
					dup = true
				}
			}
			if !dup {
				next = append(next, m)
			}
		}
		gotErr = d.st.Replace(ctx, es)
		if !wantErr {
			for _, m := range next {
				d.gen++
				m.gen = d.gen
			}
			d.m = next
		}
		return gotErr, wantErr
	}
	m := d.fresh(l)
	k, ok := d.key(m)
	m.key = k
	i := -1
	if ok {
		i = d.find(k)
	}
	switch op {
	case opAdd:
		m.byPtr = false
		gotErr = d.st.Add(ctx, m.entry())
		wantErr = !ok || i >= 0
		if !wantErr {
			d.put(-1, m)
		}
	case opUpdate:
		gotErr = d.st.Update(ctx, m.entry())
		wantErr = !ok
		if !wantErr {
			d.put(i, m)
		}
	case opDelete:
		x := m
		if alt := d.other(m); alt != nil && nd.Choose(l+"-other-type", 2) == 1 {
			x = alt
		}
		gotErr = d.st.Delete(ctx, x.entry())
		wantErr = !ok
		if i >= 0 {
			d.want = append(d.want, sev{kind: "delete", next: d.m[i]})
			d.m = append(append([]*ment{}, d.m[:i]...), d.m[i+1:]...)
		}
	case opAccumulate:
		m.ann = ""
		m.extra = ""
		gotErr = d.st.Accumulate(m.src, m.record())
		wantErr = !ok
		if !wantErr {
			if i < 0 {
				d.put(-1, m)
			} else if m.name != "" && m.name != d.m[i].name {
				n := *d.m[i]
				n.name = m.name
				d.put(i, &n)
			}
		}
	}
	return gotErr, wantErr
}

func (d *sdrv) put(i int, m *ment) {
	d.gen++
	m.gen = d.gen
	if i < 0 {
		d.m = append(d.m, m)
		d.want = append(d.want, sev{kind: "add", next: m})
		return
	}
	d.want = append(d.want, sev{kind: "change", prev: d.m[i], next: m})
	d.m[i] = m
}

// checkSet asserts that a set of entries is exactly the expected ones, each once.
func (d *sdrv) checkSet(es []store.Entry, want []*ment, what string) {
	nd.Assert(len(es) == len(want), what+": wrong number of entries")
	seen := make([]bool, len(want))
	for _, e := range es {
		typ, id, _, _, _ := recFields(e.Record)
		k, _ := d.key(&ment{typ: typ, id: id, src: e.Meta.Source})
		found := false
		for i, m := range want {
			if !seen[i] && m.key == k {
				seen[i], found = true, true
				diff := m.differs(e)
				nd.Assert(diff == "", what+": an entry's "+diff+" differs")
				break
			}
		}
		nd.Assert(found, what+": an entry that should not be there, or twice")
	}
}

// checkGet asserts what Get reports for every key ever used.
func (d *sdrv) checkGet() {
	for _, u := range d.used {
		k, ok := d.key(u)
		s, err := d.st.Get(context.Background(), u.entry())
		if alt := d.other(u); alt != nil {
			s2, err2 := d.st.Get(context.Background(), alt.entry())
			nd.Assert((err2 == nil) == (err == nil) && s2.Found == s.Found && s2.ETag == s.ETag, "get: the exemplar's type matters although it is not part of the key")
		}
		if !ok {
			nd.Assert(err != nil, "get: the key function's error was ignored")
			continue
		}
		nd.Assert(err == nil, "get: unexpected error")
		i := d.find(k)
		if i < 0 {
			nd.Assert(!s.Found, "get: found an entry that is not held")
			continue
		}
		nd.Assert(s.Found, "get: an entry that is held was not found")
		diff := d.m[i].differs(s.Entry)
		nd.Assert(diff == "", "get: the entry's "+diff+" differs")
	}
}

// C10_Map: the store is a map keyed by the key function.
func C10_Map() {
	d := newDrv(nd.Choose("keyfunc", nd.Param("kf", 5)), nil, 0)
	n := nd.Param("n", 3)
	for i := 0; i < n; i++ {
		l := fmt.Sprint(i)
		op := nd.Choose(l+"-op", nOps)
		got, want := d.step(l, op)
		if want {
			nd.Assert(got != nil, fmt.Sprintf("an operation (%d) that must fail succeeded", op))
			nd.Cover("refused")
		} else {
			nd.Assert(got == nil, fmt.Sprintf("an operation (%d) failed", op))
		}
	}
	d.checkGet()
	all, err := d.st.List(context.Background(), nil)
	nd.Assert(err == nil && all.Continue == "", "list failed")
	d.checkSet(all.Entries, d.m, "list")
	nd.Observe("entries", len(all.Entries))
	nd.Cover(fmt.Sprintf("%d entries", len(d.m)))
}

// C11_Index: index queries return the matching entries.
func C11_Index() {
	values := func(e store.Entry) []string {
		_, _, name, extra, _ := recFields(e.Record)
		var r []string
		if extra != "" {
			r = append(r, extra[:1])
		}
		if name != "" {
			r = append(r, name)
		}
		if extra != "" {
			// the same value several times
			r = append(r, extra[:1], extra[:1])
		}
		return r
	}
	site := func(e store.Entry) []string { return []string{e.Meta.Annotations["k"]} }
	d := newDrv(0, map[string]store.CacheIndexer{"values": values, "ann": site}, 0)
	n := nd.Param("n", 2)
	for i := 0; i < n; i++ {
		l := fmt.Sprint(i)
		d.step(l, nd.Choose(l+"-op", nOps))
	}
	vals := func(m *ment) []string { return values(store.Entry{Record: m.record()}) }
	ctx := context.Background()
	// the values in use
	var used []string
	for _, m := range d.m {
		for _, v := range vals(m) {
			dup := false
			for _, u := range used {
				dup = dup || u == v
			}
			if !dup {
				used = append(used, v)
			}
		}
	}
	got, err := d.st.IndexValues(ctx, "values")
	nd.Assert(err == nil, "index values: unexpected error")
	nd.Assert(len(got) == len(used), "index values: wrong number of values")
	for _, u := range used {
		c := 0
		for _, g := range got {
			if g == u {
				c++
			}
		}
		nd.Assert(c == 1, "index values: a value in use is not listed once")
	}
	// a query
	q := &ment{typ: 0, id: "q", name: nd.String("q-name", 1), extra: []string{"", "e"}[nd.Choose("q-extra", 2)]}
	var want []*ment
	for _, m := range d.m {
		share := false
		for _, a := range vals(m) {
			for _, b := range vals(q) {
				share = share || a == b
			}
		}
		if share {
			want = append(want, m)
		}
	}
	var sel *store.Selector
	if nd.Choose("selector", 2) == 1 {
		sel = &store.Selector{}
	}
	res, err := d.st.Index(ctx, "values", q.entry(), sel)
	nd.Assert(err == nil, "index: unexpected error")
	d.checkSet(res.Entries, want, "index")
	nd.Cover(fmt.Sprintf("%d of %d match", len(want), len(d.m)))
	// the annotation index
	for _, m := range d.m {
		res, err := d.st.Index(ctx, "ann", m.entry(), sel)
		nd.Assert(err == nil, "index: unexpected error")
		var want []*ment
		for _, o := range d.m {
			if o.ann == m.ann {
				want = append(want, o)
			}
		}
		d.checkSet(res.Entries, want, "annotation index")
	}
	_, err = d.st.Index(ctx, "nosuch", q.entry(), sel)
	nd.Assert(err != nil, "an unknown index is no error")
	_, err = d.st.IndexValues(ctx, "nosuch")
	nd.Assert(err != nil, "an unknown index is no error")
}

// C11_Default: the default indexes, by source and by site.
func C11_Default() {
	d := newDrv(0, nil, 0)
	n := nd.Param("n", 2)
	ctx := context.Background()
	for i := 0; i < n; i++ {
		l := fmt.Sprint(i)
		m := &ment{id: nd.StringN(l+"-id", 1), tm: typeMetaOf(0), byPtr: true}
		m.src = store.SourceRef{APIVersion: "v1", Type: "T", Name: nd.StringN(l+"-source", 1)}
		if nd.Choose(l+"-sited", 2) == 1 {
			m.site = "s" + nd.StringN(l+"-site", 1)
		}
		m.key = m.id
		i := d.find(m.key)
		switch nd.Choose(l+"-op", 3) {
		case 0:
			nd.Assert(d.st.Update(ctx, m.entry()) == nil, "update failed")
			d.put(i, m)
		case 1:
			m.name = l
			nd.Assert(d.st.Accumulate(m.src, m.record()) == nil, "accumulate failed")
			m.site = ""
			if i < 0 {
				d.put(i, m)
			} else {
				c := *d.m[i]
				c.name = l
				d.put(i, &c)
			}
		case 2:
			nd.Assert(d.st.Delete(ctx, m.entry()) == nil, "delete failed")
			if i >= 0 {
				d.m = append(append([]*ment{}, d.m[:i]...), d.m[i+1:]...)
			}
		}
	}
	q := &ment{id: "q", src: store.SourceRef{APIVersion: "v1", Type: "T", Name: nd.StringN("q-source", 1)}}
	if nd.Choose("q-sited", 2) == 1 {
		q.site = "s" + nd.StringN("q-site", 1)
	}
	var bySrc, bySite []*ment
	for _, m := range d.m {
		if m.src == q.src {
			bySrc = append(bySrc, m)
		}
		if m.site == q.site {
			bySite = append(bySite, m)
		}
	}
	res, err := d.st.Index(ctx, store.IndexBySource, q.entry(), nil)
	nd.Assert(err == nil, "index by source failed")
	d.checkSet(res.Entries, bySrc, "by source")
	res, err = d.st.Index(ctx, store.IndexBySite, q.entry(), nil)
	nd.Assert(err == nil, "index by site failed")
	d.checkSet(res.Entries, bySite, "by site")
	nd.Cover(fmt.Sprintf("%d by source %d by site", len(bySrc), len(bySite)))
}

// C12_ETag: conditional updates succeed exactly when nothing happened to the entry since the read.
func C12_ETag() {
	d := newDrv(0, nil, 0)
	n := nd.Param("n", 3)
	ctx := context.Background()
	at := nd.Choose("read", n+1)
	var key *ment
	var etag string
	gen := 0
	read := func() {
		key = &ment{id: nd.StringN("id", 1), tm: typeMetaOf(0)}
		s, err := d.st.Get(ctx, key.entry())
		nd.Assert(err == nil, "get failed")
		if s.Found {
			etag = s.ETag
			gen = d.m[d.find(key.id)].gen
		}
	}
	for i := 0; i < n; i++ {
		if i == at {
			read()
		}
		l := fmt.Sprint(i)
		d.step(l, nd.Choose(l+"-op", nOps))
	}
	if at == n {
		read()
	}
	if gen == 0 {
		nd.Cover("not found")
		return
	}
	now := 0
	i := d.find(key.id)
	if i >= 0 {
		now = d.m[i].gen
	}
	up := &ment{key: key.id, id: key.id, name: "u", extra: "u", ann: "u", tm: typeMetaOf(0), byPtr: true, src: store.SourceRef{Name: "u"}}
	d.used = append(d.used, up)
	err := d.st.Update(store.WithIfMatch(ctx, etag), up.entry())
	if now == gen {
		nd.Assert(err == nil, "a conditional update was refused although the entry is unchanged")
		d.put(i, up)
		nd.Cover("unchanged")
		// the ETag is used up now
		err = d.st.Update(store.WithIfMatch(ctx, etag), up.entry())
		nd.Assert(err != nil, "an ETag was accepted twice")
	} else {
		nd.Assert(err != nil, "a conditional update was accepted although the entry was changed, replaced or deleted since")
		nd.Cover("changed")
	}
	d.checkGet()
	all, err := d.st.List(ctx, nil)
	nd.Assert(err == nil, "list failed")
	d.checkSet(all.Entries, d.m, "after the conditional update")
}

// C12_Forged: an ETag never issued is rejected.
func C12_Forged() {
	d := newDrv(0, nil, 0)
	ctx := context.Background()
	m := &ment{key: "a", id: "a", name: "n", tm: typeMetaOf(0)}
	if nd.Choose("exists", 2) == 1 {
		nd.Assert(d.st.Add(ctx, m.entry()) == nil, "add failed")
		d.put(-1, m)
	}
	o := &ment{key: "b", id: "b", name: "n", tm: typeMetaOf(0)}
	nd.Assert(d.st.Add(ctx, o.entry()) == nil, "add failed")
	d.put(-1, o)
	s, err := d.st.Get(ctx, o.entry())
	nd.Assert(err == nil && s.Found && s.ETag != "", "no ETag")
	etag := ""
	switch nd.Choose("etag", 3) {
	case 0:
		etag = nd.String("etag", nd.Param("len", 4))
	case 1:
		etag = s.ETag[:nd.Choose("cut", len(s.ETag))]
	case 2:
		i := nd.Choose("at", len(s.ETag))
		etag = s.ETag[:i] + "!" + s.ETag[i+1:]
	}
	up := &ment{id: "a", name: "u"}
	d.used = append(d.used, up, o)
	err = d.st.Update(store.WithIfMatch(ctx, etag), up.entry())
	nd.Assert(err != nil, "an ETag that was never issued was accepted")
	d.checkGet()
	nd.Cover("rejected")
}

// C14_Handlers: handlers are called for effective changes only.
func C14_Handlers() {
	h := 7
	if nd.Choose("handlers", 2) == 1 {
		h = nd.Choose("which", 7)
	}
	d := newDrv(nd.Param("kf", 4), nil, h)
	n := nd.Param("n", 2)
	for i := 0; i < n; i++ {
		l := fmt.Sprint(i)
		d.step(l, nd.Choose(l+"-op", nOps))
	}
	var want []sev
	for _, w := range d.want {
		if w.kind == "add" && h&1 != 0 || w.kind == "change" && h&2 != 0 || w.kind == "delete" && h&4 != 0 {
			want = append(want, w)
		}
	}
	nd.Assert(len(d.got) == len(want), "wrong number of handler calls")
	for i, w := range want {
		g := d.got[i]
		nd.Assert(g.kind == w.kind, "the wrong handler was called")
		if w.prev != nil {
			diff := w.prev.differs(g.gp)
			nd.Assert(diff == "", "the previous entry's "+diff+" differs from what was stored")
		}
		diff := w.next.differs(g.gn)
		nd.Assert(diff == "", "the entry's "+diff+" differs from what is stored")
		nd.Cover(w.kind)
	}
	nd.Observe("calls", len(d.got))
}

// C14_Same: entries replaced by others that carry the very same record.
func C14_Same() {
	var calls []sev
	cfg := store.CacheConfig{Key: keyOf(nd.Choose("key", 2) * 4)}
	cfg.EventHandlers.OnAdd = func(e store.Entry) { calls = append(calls, sev{kind: "add", gn: e}) }
	cfg.EventHandlers.OnChange = func(p, e store.Entry) { calls = append(calls, sev{kind: "change", gp: p, gn: e}) }
	cfg.EventHandlers.OnDelete = func(e store.Entry) { calls = append(calls, sev{kind: "delete", gn: e}) }
	st := store.NewDefaultCachingStore(cfg)
	ctx := context.Background()
	one := &ment{id: "a", name: nd.StringN("name", 1), tm: typeMetaOf(0), byPtr: nd.Choose("by pointer", 2) == 1}
	var rec vanflow.Record = one.record()
	mk := func(l string) (*ment, store.Entry) {
		m := &ment{id: "a", name: one.name, tm: typeMetaOf(nd.Choose(l+"-type meta", 2)), byPtr: one.byPtr,
			ann: nd.StringN(l+"-ann", 1), src: store.SourceRef{Name: nd.StringN(l+"-source", 1)}}
		if nd.Choose(l+"-site", 2) == 1 {
			m.site = "s"
		}
		e := m.entry()
		e.Record = rec
		return m, e
	}
	prev, e := mk("0")
	if nd.Choose("first", 2) == 0 {
		nd.Assert(st.Add(ctx, e) == nil, "add failed")
	} else {
		nd.Assert(st.Update(ctx, e) == nil, "update failed")
	}
	nd.Assert(len(calls) == 1 && calls[0].kind == "add" && prev.differs(calls[0].gn) == "", "the first entry was not announced")
	for i := 1; i <= nd.Param("n", 2); i++ {
		calls = nil
		next, e := mk(fmt.Sprint(i))
		nd.Assume(or(prev.ann != next.ann, prev.src.Name != next.src.Name, prev.site != next.site, prev.tm != next.tm))
		if nd.Choose("if match", 2) == 1 {
			got, err := st.Get(ctx, e)
			nd.Assert(err == nil && got.Found, "the entry is not found")
			nd.Assert(st.Update(store.WithIfMatch(ctx, got.ETag), e) == nil, "the update failed")
		} else {
			nd.Assert(st.Update(ctx, e) == nil, "the update failed")
		}
		nd.Assert(len(calls) == 1 && calls[0].kind == "change", "an entry was changed and the handler was not called once")
		d := prev.differs(calls[0].gp)
		nd.Assert(d == "", "the previous entry's "+d+" differs from what was stored")
		d = next.differs(calls[0].gn)
		nd.Assert(d == "", "the entry's "+d+" differs from what is stored")
		prev = next
		nd.Cover("changed")
	}
	calls = nil
	nd.Assert(st.Delete(ctx, e) == nil, "the deletion failed")
	nd.Assert(len(calls) == 1 && calls[0].kind == "delete", "an entry was deleted and the handler was not called once")
	d := prev.differs(calls[0].gn)
	nd.Assert(d == "", "the deleted entry's "+d+" differs from what was stored")
}

// C14_Unmergeable: a partial record that cannot be merged calls no handler (and C13: changes nothing).
func mergeFailure() {
	d := newDrv(0, nil, 7)
	ctx := context.Background()
	m := &ment{key: "a", id: "a", name: "n", ann: "x", tm: typeMetaOf(0), byPtr: nd.Choose("by pointer", 2) == 1, src: store.SourceRef{Name: "s"}}
	exists := nd.Choose("exists", 2) == 1
	if exists {
		nd.Assert(d.st.Add(ctx, m.entry()) == nil, "add failed")
		d.put(-1, m)
	}
	d.got = nil
	before, _ := d.st.Get(ctx, m.entry())
	time.Sleep(time.Second)
	old := vanflow.Time{Time: time.Unix(-int64(nd.IntRange("age", 1, 1<<35)), 0)}
	var bad vanflow.Record
	switch nd.Choose("bad", 4) {
	case 0:
		bad = vanflow.SiteRecord{BaseRecord: vanflow.BaseRecord{ID: "a", StartTime: &old}, Name: ptr("other")}
	case 1:
		bad = &vanflow.SiteRecord{BaseRecord: vanflow.BaseRecord{ID: "a", EndTime: &old}}
	case 2:
		bad = strange{"a"}
	case 3: // attribute 30 is an integer here
		bad = &odd{ID: "a", Name: 5}
	}
	nd.Assume(exists || nd.Param("first", 0) == 1)
	err := d.st.Accumulate(store.SourceRef{Name: "t"}, bad)
	nd.Assert(err != nil, "a partial record that cannot be merged is no error")
	nd.Assert(len(d.got) == 0, "a handler was called for a partial record that cannot be merged")
	after, _ := d.st.Get(ctx, m.entry())
	nd.Assert(after.Found == before.Found && after.ETag == before.ETag, "a partial record that cannot be merged changed the entry")
	nd.Assert(after.Meta.UpdatedAt.Equal(before.Meta.UpdatedAt), "a partial record that cannot be merged changed the update time")
	if exists {
		diff := m.differs(after.Entry)
		nd.Assert(diff == "", "a partial record that cannot be merged changed the entry's "+diff)
	}
	nd.Cover("refused")
}

func C13_Unmergeable() { mergeFailure() }
func C14_Unmergeable() { mergeFailure() }

// strange is a Record the codec does not know.
type strange struct{ id string }

func (s strange) Identity() string              { return s.id }
func (s strange) GetTypeMeta() vanflow.TypeMeta { return vanflow.TypeMeta{APIVersion: "x", Type: "y"} }

// odd is registered with another type for an attribute of sites.
type odd struct {
	ID   string `vflow:"1,required"`
	Name uint64 `vflow:"30"`
}

func (s odd) Identity() string              { return s.ID }
func (s odd) GetTypeMeta() vanflow.TypeMeta { return vanflow.TypeMeta{APIVersion: "x", Type: "odd"} }

// C13_Merge: accumulating partial records of any type merges their attributes.
func C13_Merge() {
	var pt ptype
	if t := nd.Param("type", -1); t >= 0 {
		pt = protoTypes[t]
	} else {
		pt = chooseType()
	}
	n, k, slen := nd.Param("n", 2), nd.Param("k", 1), nd.Param("len", 1)
	var seen int
	st := store.NewDefaultCachingStore(store.CacheConfig{EventHandlers: store.EventHandlerFuncs{
		OnAdd:    func(store.Entry) { seen++ },
		OnChange: func(_, _ store.Entry) { seen++ },
	}})
	ctx := context.Background()
	as := pt.all()
	exp := newRec(pt, "id")
	src := store.SourceRef{APIVersion: "v", Type: "t", Name: "first"}
	ann := ""
	first := true
	if nd.Choose("start", 2) == 1 {
		// an entry added otherwise, with annotations
		ann = "x"
		r := newRec(pt, "id")
		if len(as) > 0 {
			exp.vals[as[0].name] = r.setSym(as[0], "start", slen)
		}
		nd.Assert(st.Update(ctx, store.Entry{Record: r.value().(vanflow.Record), Meta: store.Metadata{Source: src, Annotations: map[string]string{"k": ann}}, TypeMeta: r.value().(vanflow.Record).GetTypeMeta()}) == nil, "update failed")
		first = false
	}
	for i := 0; i < n; i++ {
		l := fmt.Sprintf("%d-", i)
		r := newRec(pt, "id")
		var set []bool
		many := false
		if i == 0 && nd.Param("many", 1) == 1 {
			set, many = subset(len(as), k)
		} else {
			set = members(len(as), k)
		}
		for j, a := range as {
			if set[j] {
				r.setSymNZ(a, l+a.name, slen, many)
			}
		}
		in := r.value()
		if i == n-1 && nd.Choose(l+"pointer", 2) == 1 {
			in = r.pointer()
		}
		before, err := st.Get(ctx, store.Entry{Record: in.(vanflow.Record)})
		nd.Assert(err == nil && before.Found == !first, "get failed")
		time.Sleep(time.Second)
		seen = 0
		s := src
		if !first {
			s.Name = "later"
		}
		nd.Assert(st.Accumulate(s, in.(vanflow.Record)) == nil, "accumulating a valid partial record failed")
		after, err := st.Get(ctx, store.Entry{Record: in.(vanflow.Record)})
		nd.Assert(err == nil && after.Found, "nothing stored")
		changed := first
		for j, a := range as {
			if !set[j] {
				continue
			}
			v := r.vals[a.name]
			zero := a.kind == aStr && v.s == "" || a.kind == aU64 && v.u == 0
			if zero {
				continue
			}
			if old := exp.vals[a.name]; !old.set || old.s != v.s || old.u != v.u {
				changed = true
				exp.vals[a.name] = v
			}
		}
		if changed {
			nd.Assert(seen == 1, "a change was not reported once")
			nd.Assert(first || after.ETag != before.ETag, "the ETag did not change with the entry")
			nd.Assert(!after.Meta.UpdatedAt.Before(before.Meta.UpdatedAt.Add(time.Second)), "the update time did not advance")
			nd.Cover("changed")
		} else {
			nd.Assert(seen == 0, "a partial record that changes nothing was reported")
			nd.Assert(after.ETag == before.ETag, "a partial record that changes nothing changed the ETag")
			nd.Assert(after.Meta.UpdatedAt.Equal(before.Meta.UpdatedAt), "a partial record that changes nothing changed the update time")
			nd.Cover("unchanged")
		}
		first = false
		rv := recV(after.Record)
		nd.Assert(rv.Type() == recV(pt.zero).Type(), "the record's type changed")
		nd.Assert(rv.FieldByName("ID").String() == "id", "the identity changed")
		for _, a := range as {
			nd.Assert(attrIs(rv, a, exp.vals[a.name]), "attribute is not the newest value set: "+a.name)
		}
		nd.Assert(after.Meta.Source == src, "the source changed")
		nd.Assert(after.Meta.Annotations["k"] == ann, "the annotations changed")
		nd.Assert(after.TypeMeta == in.(vanflow.Record).GetTypeMeta(), "the type changed")
	}
}

// C15_Paging: following the tokens visits every remaining entry once, in order.
func C15_Paging() {
	max := nd.Param("entries", 3)
	n := nd.Choose("entries", max+1)
	d := newDrv(0, nil, 0)
	ctx := context.Background()
	var keys []string
	var es []store.Entry
	for i := 0; i < n; i++ {
		m := &ment{id: nd.String(fmt.Sprintf("id%d", i), nd.Param("len", 1)), name: "x"}
		for _, k := range keys {
			nd.Assume(k != m.id)
		}
		keys = append(keys, m.id)
		es = append(es, m.entry())
	}
	nd.Assert(d.st.Replace(ctx, es) == nil, "replace failed")
	sel := store.Selector{Offset: nd.Choose("offset", max+2), Limit: nd.Choose("limit", max+2)}
	desc := nd.Choose("descending", 2) == 1
	if desc {
		sel.Ordering = store.Descending
	}
	// what is expected: the sorted keys from the offset on
	for i := range keys {
		for j := i + 1; j < len(keys); j++ {
			if (keys[j] < keys[i]) != desc {
				keys[i], keys[j] = keys[j], keys[i]
			}
		}
	}
	index := nd.Choose("index", 2) == 1
	// a token says where to continue, whether or not the offset is still there
	reoffset := nd.Choose("reoffset", 2) == 1
	query := func(s store.Selector) store.Set {
		var r store.Set
		var err error
		if index {
			r, err = d.st.Index(ctx, store.IndexBySource, store.Entry{Record: vanflow.SiteRecord{}}, &s)
		} else {
			r, err = d.st.List(ctx, &s)
		}
		nd.Assert(err == nil, "a valid selector was refused")
		return r
	}
	pos := sel.Offset
	if pos > len(keys) {
		pos = len(keys)
	}
	for pages := 0; ; pages++ {
		nd.Assert(pages <= max+1, "the tokens never end")
		r := query(sel)
		left := len(keys) - pos
		want := left
		if sel.Limit > 0 && sel.Limit < left {
			want = sel.Limit
		}
		nd.Assert(len(r.Entries) == want, "a page has the wrong number of entries")
		for _, e := range r.Entries {
			nd.Assert(e.Record.Identity() == keys[pos], "a page is out of order, or an entry is missing or repeated")
			pos++
		}
		if pos == len(keys) {
			nd.Assert(r.Continue == "", "the last page carries a token")
			nd.Cover(fmt.Sprintf("%d pages", pages+1))
			break
		}
		nd.Assert(r.Continue != "", "a page before the last carries no token")
		sel.Continue = r.Continue
		if reoffset {
			sel.Offset = 0
		}
	}
}

// C15_Total: no selector makes a listing panic.
func C15_Total() {
	d := newDrv(0, nil, 0)
	ctx := context.Background()
	n := nd.Choose("entries", 3)
	for i := 0; i < n; i++ {
		m := &ment{id: fmt.Sprint(i), name: "x"}
		nd.Assert(d.st.Add(ctx, m.entry()) == nil, "add failed")
	}
	sel := store.Selector{Offset: int(nd.Int64("offset")), Limit: int(nd.Int64("limit")), Ordering: store.Ordering(nd.Int64("ordering"))}
	switch nd.Choose("token", 5) {
	case 0:
	case 1:
		sel.Continue = nd.String("token", nd.Param("len", 3))
	case 2: // a valid token, cut, mangled or extended
		r, err := d.st.List(ctx, &store.Selector{Limit: 1})
		nd.Assert(err == nil, "list failed")
		if r.Continue == "" {
			return
		}
		c := r.Continue
		i := nd.Choose("at", len(c)+1)
		switch nd.Choose("how", 3) {
		case 0:
			c = c[:i]
		case 1:
			c = c[:i] + nd.StringN("mangled", 1) + c[min(i+1, len(c)):]
		case 2:
			c = c[:i] + "AAAA" + c[i:]
		}
		sel.Continue = c
	case 3: // every byte the same
		b := []string{"A", "/", "f", "g", "-"}[nd.Choose("letter", 5)]
		sel.Continue = strings.Repeat(b, 4*nd.Choose("quads", 7))
	case 4: // forged offsets
		tok := []string{"AAAAAAAAAAD/////", "AAAAAAAAAAAAAACA", "AAAAAAAAAAD///9/", "AAAAAAAAAAD+////", "AAAAAAAAAAABAAAA"}[nd.Choose("forged", 5)]
		sel.Continue = tok
	}
	r, err := d.st.List(ctx, &sel)
	nd.Assert(err != nil || len(r.Entries) <= n, "a listing has more entries than the store")
	r, err = d.st.Index(ctx, store.IndexBySource, store.Entry{Record: vanflow.SiteRecord{}}, &sel)
	nd.Assert(err != nil || len(r.Entries) <= n, "an index query has more entries than the store")
	nd.Cover("returned")
}

// C18_Snapshots: what the store handed out stays as it was.
func C18_Snapshots() {
	d := newDrv(0, nil, 7)
	ctx := context.Background()
	n := nd.Param("n", 3)
	type snap struct {
		e     store.Entry
		m     ment
		upd   time.Time
		where string
	}
	var snaps []snap
	var lists [][]store.Entry
	var listIDs [][]string
	take := func() {
		for _, m := range d.m {
			s, err := d.st.Get(ctx, m.entry())
			nd.Assert(err == nil && s.Found, "get failed")
			snaps = append(snaps, snap{s.Entry, *m, s.Meta.UpdatedAt, "get"})
		}
		for _, sel := range []*store.Selector{nil, {}} {
			l, err := d.st.List(ctx, sel)
			nd.Assert(err == nil, "list failed")
			var ids []string
			for _, e := range l.Entries {
				ids = append(ids, e.Record.Identity())
				i := d.find(e.Record.Identity())
				nd.Assert(i >= 0, "an unknown entry was listed")
				snaps = append(snaps, snap{e, *d.m[i], e.Meta.UpdatedAt, "list"})
			}
			lists, listIDs = append(lists, l.Entries), append(listIDs, ids)
		}
		for i, g := range d.got {
			w := d.want[i]
			snaps = append(snaps, snap{g.gn, *w.next, g.gn.Meta.UpdatedAt, "handler"})
			if w.prev != nil {
				snaps = append(snaps, snap{g.gp, *w.prev, g.gp.Meta.UpdatedAt, "handler"})
			}
		}
	}
	at := nd.Choose("at", n)
	for i := 0; i < n; i++ {
		time.Sleep(time.Second)
		if i == at {
			take()
		}
		l := fmt.Sprint(i)
		d.step(l, nd.Choose(l+"-op", nOps))
	}
	for _, s := range snaps {
		diff := s.m.differs(s.e)
		nd.Assert(diff == "", "an entry handed out by "+s.where+" was altered: "+diff)
		nd.Assert(s.e.Meta.UpdatedAt.Equal(s.upd), "the update time of an entry handed out was altered")
		nd.Cover(s.where)
	}
	for i, l := range lists {
		for j, e := range l {
			nd.Assert(e.Record.Identity() == listIDs[i][j], "a list handed out was altered")
		}
	}
}
