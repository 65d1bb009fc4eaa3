package h

import (
	"context"
	"fmt"
	"sync"
	"time"

	"github.com/c-kruse/vanflow"
	"github.com/c-kruse/vanflow/encoding"
	"github.com/c-kruse/vanflow/eventsource"
	"github.com/c-kruse/vanflow/store"

	"verif/harness/nd"
)

// labels is an attribute encoded as a list.
type labels struct{ l []string }

func (t labels) EncodeRecordAttribute() (any, error) {
	if len(t.l) == 0 {
		return nil, encoding.ErrAttributeNotSet
	}
	var out []any
	for _, s := range t.l {
		out = append(out, s)
	}
	return out, nil
}

func (t *labels) DecodeRecordAttribute(a any) error {
	l, ok := a.([]any)
	if !ok {
		return fmt.Errorf("no list: %T", a)
	}
	t.l = nil
	for _, x := range l {
		s, ok := x.(string)
		if !ok {
			return fmt.Errorf("no string: %T", x)
		}
		t.l = append(t.l, s)
	}
	return nil
}

// blob is an attribute encoded as bytes.
type blob []byte

func (b blob) EncodeRecordAttribute() (any, error) {
	if len(b) == 0 {
		return nil, encoding.ErrAttributeNotSet
	}
	return append([]byte(nil), b...), nil
}

func (b *blob) DecodeRecordAttribute(a any) error {
	x, ok := a.([]byte)
	if !ok {
		return fmt.Errorf("no bytes: %T", a)
	}
	*b = append(blob(nil), x...)
	return nil
}

// appRecord is a record of an application, with more attributes required than its identity.
type appRecord struct {
	ID     string `vflow:"1,required"`
	Zone   string `vflow:"99,required"`
	Labels labels `vflow:"40"`
	Blob   *blob  `vflow:"41"`
	N      *int64 `vflow:"42"`
	Text   string `vflow:"43"`
}

func (r appRecord) Identity() string { return r.ID }

func (r appRecord) GetTypeMeta() vanflow.TypeMeta {
	return vanflow.TypeMeta{APIVersion: "app/v1", Type: "appRecord"}
}

// anyApp is a record with any of the optional attributes set.
func anyApp(id string, what string) appRecord {
	r := appRecord{ID: id, Zone: []string{"z", "y"}[nd.Choose(what+" zone", 2)]}
	attrs := nd.Choose(what+" set", 5)
	if attrs == 1 || attrs == 4 {
		for i := nd.Choose(what+" labels", 2) + 1; i > 0; i-- {
			r.Labels.l = append(r.Labels.l, nd.StringN(what+" label", 1))
		}
	}
	if attrs == 2 || attrs == 4 {
		b := blob{nd.Byte(what + " blob")}
		r.Blob = &b
	}
	if attrs == 3 || attrs == 4 {
		n := nd.Int64(what + " n")
		nd.Assume(n != 0)
		r.N = &n
		r.Text = nd.StringN(what+" text", 1)
	}
	return r
}

func (r appRecord) any() vanflow.Record {
	if nd.Choose("pointer", nd.Param("pointer", 2)) == 1 {
		return &r
	}
	return r
}

func sameLabels(a, b labels) bool {
	if len(a.l) != len(b.l) {
		return false
	}
	same := true
	for i := range a.l {
		same = and(same, a.l[i] == b.l[i])
	}
	return same
}

func sameBlob(a, b *blob) bool {
	if a == nil || b == nil {
		return a == b
	}
	if len(*a) != len(*b) {
		return false
	}
	same := true
	for i := range *a {
		same = and(same, (*a)[i] == (*b)[i])
	}
	return same
}

func sameN(a, b *int64) bool {
	if a == nil || b == nil {
		return a == b
	}
	return *a == *b
}

func (r appRecord) same(o appRecord) bool {
	return and(r.ID == o.ID, r.Zone == o.Zone, sameLabels(r.Labels, o.Labels), sameBlob(r.Blob, o.Blob), sameN(r.N, o.N), r.Text == o.Text)
}

// merge is what accumulating a partial record leaves.
func (r appRecord) merge(p appRecord) appRecord {
	r.Zone = p.Zone
	if len(p.Labels.l) > 0 {
		r.Labels = p.Labels
	}
	if p.Blob != nil {
		r.Blob = p.Blob
	}
	if p.N != nil {
		r.N = p.N
	}
	if p.Text != "" {
		r.Text = p.Text
	}
	return r
}

func theApp(r vanflow.Record) appRecord {
	switch r := r.(type) {
	case appRecord:
		return r
	case *appRecord:
		return *r
	}
	nd.Fail("a record of another type")
	return appRecord{}
}

// C08_Stored: records of an application's type accumulate in a store like others.
func C08_Stored() {
	encoding.MustRegisterRecord(5200, appRecord{})
	changes := 0
	st := store.NewDefaultCachingStore(store.CacheConfig{EventHandlers: store.EventHandlerFuncs{
		OnAdd:    func(store.Entry) { changes++ },
		OnChange: func(_, _ store.Entry) { changes++ },
	}})
	src := store.SourceRef{Name: "src"}
	bg := context.Background()
	var want appRecord
	n := nd.Param("n", 2)
	for i := 0; i < n; i++ {
		p := anyApp("id", fmt.Sprintf("record %d", i))
		before := changes
		nd.Assert(st.Accumulate(src, p.any()) == nil, "a record of an application's type cannot be accumulated")
		if i == 0 {
			want = p
			nd.Assert(changes == before+1, "a new record was not reported")
		} else {
			next := want.merge(p)
			same := want.same(next)
			nd.Assert(nd.Iff(same, changes == before), "a record that changes something is not reported, or one that does not is")
			nd.Assert(changes <= before+1, "a change was reported twice")
			want = next
		}
		got, err := st.Get(bg, store.Entry{Record: p})
		nd.Assert(err == nil && got.Found, "an accumulated record is not held")
		nd.Assert(theApp(got.Entry.Record).same(want), "the partial records of an application's type were not merged")
	}
	nd.Cover("merged")
}

// C08_Published: updates of records of an application's type are published like others.
func C08_Published() {
	encoding.MustRegisterRecord(5200, appRecord{})
	c := newFcont()
	m := eventsource.NewManager(c, quiet())
	ctx, cancel := context.WithCancel(context.Background())
	var wg sync.WaitGroup
	wg.Add(1)
	go func() { defer wg.Done(); m.Run(ctx) }()
	prev := anyApp("id", "previous")
	next := prev.merge(anyApp("id", "update"))
	changed := !prev.same(next)
	u := eventsource.RecordUpdate{Prev: prev.any(), Curr: next.any()}
	whole := nd.Choose("no previous", 2) == 1
	if whole {
		u.Prev = nil
		changed = true
		prev = appRecord{}
	}
	m.PublishUpdate(u)
	time.Sleep(time.Second)
	nd.Quiesce()
	var got []vanflow.Record
	for _, msg := range c.sentRecords("addr") {
		got = append(got, msg.Records...)
	}
	if len(got) == 0 {
		nd.Assert(!changed, "an update of a record of an application's type was not sent")
		nd.Cover("unchanged")
	} else {
		nd.Assert(changed && len(got) == 1, "something was sent that is no update")
		a := theApp(got[0])
		nd.Assert(a.ID == "id", "the record sent does not carry its identity")
		nd.Assert(prev.merge(a).same(nd0(whole, next, prev)), "merging what was sent does not give the new record")
		nd.Cover("changed")
	}
	cancel()
	wg.Wait()
	nd.Quiesce()
}

// nd0 is what merging has to give: without a previous record the identity comes from what was sent.
func nd0(whole bool, next, prev appRecord) appRecord {
	if whole {
		next.ID = prev.ID
	}
	return next
}

// badRecord is a record that cannot be encoded.
func badRecord(kind int) vanflow.Record {
	switch kind {
	case 0:
		return vanflow.SiteRecord{Name: ptr("nobody")} // no identity
	case 1:
		return vanflow.LogRecord{BaseRecord: vanflow.NewBase("bad", time.Unix(-1, 0))}
	case 2:
		return &vanflow.LinkRecord{}
	}
	return foreign{}
}

type foreign struct{}

func (foreign) Identity() string              { return "unregistered" }
func (foreign) GetTypeMeta() vanflow.TypeMeta { return vanflow.TypeMeta{Type: "unregistered"} }

// C26_Unencodable: updates among others that cannot be encoded.
func C26_Unencodable() {
	n := nd.Param("n", 3)
	c := newFcont()
	cfg := quiet()
	cfg.UpdateBatchSize = nd.Choose("batch", 4)
	if cfg.UpdateBatchSize > 1 {
		cfg.UpdateBufferTime = time.Second
	}
	m := eventsource.NewManager(c, cfg)
	ctx, cancel := context.WithCancel(context.Background())
	var wg sync.WaitGroup
	wg.Add(1)
	go func() { defer wg.Done(); m.Run(ctx) }()
	var want []vanflow.SiteRecord
	for i := 0; i < n; i++ {
		kind := nd.Choose("kind", 4)
		good := site(fmt.Sprint("r", i), nd.StringN("name", 1))
		switch kind {
		case 0:
			m.PublishUpdate(eventsource.RecordUpdate{Curr: good})
			want = append(want, good)
		case 1: // nothing can be sent of it
			m.PublishUpdate(eventsource.RecordUpdate{Curr: badRecord(nd.Choose("bad", 4))})
		case 2: // nor of this
			m.PublishUpdate(eventsource.RecordUpdate{Prev: good, Curr: vanflow.SiteRecord{BaseRecord: vanflow.NewBase(good.ID, time.Unix(-1, 0))}})
		case 3: // what went before was never sent
			m.PublishUpdate(eventsource.RecordUpdate{Prev: vanflow.SiteRecord{BaseRecord: vanflow.NewBase(good.ID, time.Unix(-1, 0)), Name: good.Name}, Curr: good})
			want = append(want, good)
		}
		if nd.Choose("gap", 2) == 1 {
			nd.Quiesce()
		}
	}
	nd.Quiesce()
	time.Sleep(time.Second + 1)
	nd.Quiesce()
	max := 1
	if cfg.UpdateBatchSize > 1 {
		max = cfg.UpdateBatchSize
	}
	i := 0
	for _, msg := range c.sentRecords("addr") {
		nd.Assert(len(msg.Records) > 0 && len(msg.Records) <= max, "an empty message or one larger than the batch size was sent")
		for _, r := range msg.Records {
			nd.Assert(i < len(want), "more was sent than was updated")
			nd.Assert(r.Identity() == want[i].ID && nameOf(store.Entry{Record: r}) == *want[i].Name, "an update was not sent")
			i++
		}
	}
	nd.Assert(i == len(want), "an update was not sent")
	nd.Cover(fmt.Sprintf("%d sent", i))
	cancel()
	wg.Wait()
	nd.Quiesce()
}

// C27_Unencodable: stores that hold records that cannot be encoded, among others.
func C27_Unencodable() {
	c := newFcont()
	cfg := quiet()
	cfg.FlushBatchSize = nd.Choose("batch", 4)
	bg := context.Background()
	want := map[string]int{}
	n := nd.Param("n", 3)
	for s := nd.Choose("stores", 2); s >= 0; s-- {
		st := store.NewDefaultCachingStore(store.CacheConfig{Key: func(e store.Entry) (string, error) { return e.Record.Identity(), nil }})
		bad := nd.Choose("bad", n+1) // in which place
		for i := 0; i < n; i++ {
			if i == bad {
				r := badRecord([]int{0, 1, 3}[nd.Choose("kind", 3)])
				nd.Assert(st.Add(bg, store.Entry{Record: r, TypeMeta: r.GetTypeMeta()}) == nil, "add failed")
				continue
			}
			id := fmt.Sprintf("%c%d", 'a'+rune(i)*12, s)
			nd.Assert(st.Add(bg, siteEntry(id, "n")) == nil, "add failed")
			want[id] = 1
		}
		cfg.Stores = append(cfg.Stores, st)
	}
	m := eventsource.NewManager(c, cfg)
	ctx, cancel := context.WithCancel(bg)
	var wg sync.WaitGroup
	wg.Add(1)
	go func() { defer wg.Done(); m.Run(ctx) }()
	nd.Quiesce()
	c.deliver("direct", fitem{msg: vanflow.FlushMessage{}.Encode()})
	nd.Quiesce()
	for _, msg := range c.sentRecords("addr") {
		nd.Assert(len(msg.Records) > 0 && (cfg.FlushBatchSize <= 0 || len(msg.Records) <= cfg.FlushBatchSize), "an empty message or one larger than the flush batch size was sent")
		for _, r := range msg.Records {
			want[r.Identity()]--
		}
	}
	for _, k := range want {
		nd.Assert(k == 0, "a flush was not answered with every record once")
	}
	nd.Cover("flushed")
	cancel()
	wg.Wait()
	nd.Quiesce()
}
