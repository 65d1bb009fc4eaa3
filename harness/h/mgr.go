package h

import (
	"context"
	"fmt"
	"strconv"
	"sync"
	"time"

	"github.com/c-kruse/vanflow"
	"github.com/c-kruse/vanflow/eventsource"
	"github.com/c-kruse/vanflow/store"

	"verif/harness/nd"
)

// quiet is a source that sends nothing of its own during a harness but the first beacon.
func quiet() eventsource.ManagerConfig {
	return eventsource.ManagerConfig{
		Source:            eventsource.Info{ID: "src", Version: 1, Type: "T", Address: "addr", Direct: "direct"},
		HeartbeatInterval: 1000 * time.Hour,
		BeaconInterval:    1000 * time.Hour,
	}
}

// sentRecords are the record messages sent to an address.
func (c *fcont) sentRecords(addr string) (ms []vanflow.RecordMessage) {
	for _, s := range c.onAddr(addr) {
		d, err := vanflow.Decode(s.msg)
		nd.Assert(err == nil, "a message that cannot be decoded was sent")
		if m, ok := d.(vanflow.RecordMessage); ok {
			ms = append(ms, m)
		}
	}
	return ms
}

// pub is an update and what should be sent for it.
type pub struct {
	prev, curr *rec
	u          eventsource.RecordUpdate
	changed    bool
}

func asRecord(x any) vanflow.Record {
	r, ok := x.(vanflow.Record)
	nd.Assert(ok, "not a record")
	return r
}

func makePub(pt ptype, k, slen int) *pub {
	p := &pub{curr: newRec(pt, nd.StringN("id", 1))}
	attrs := pt.all()
	if m := nd.Param("attrs", 0); m > 0 && m < len(attrs) {
		attrs = attrs[:m]
	}
	byPtr := nd.Choose("pointer", nd.Param("pointer", 2)) == 1
	val := func(r *rec) vanflow.Record {
		if byPtr {
			return asRecord(r.pointer())
		}
		return asRecord(r.value())
	}
	in := members(len(attrs), k)
	if nd.Choose("prev", 2) == 0 {
		for i, a := range attrs {
			if in[i] {
				p.curr.setSymNZ(a, a.name, slen, true)
			}
		}
		p.changed = true
		p.u = eventsource.RecordUpdate{Curr: val(p.curr)}
		return p
	}
	p.prev = newRec(pt, p.curr.id)
	same := true
	for i, a := range attrs {
		if !in[i] {
			continue
		}
		if nd.Choose("had", 2) == 1 {
			v := p.prev.setSymNZ(a, a.name, slen, true)
			w := p.curr.setSymNZ(a, "new "+a.name, slen, true)
			same = and(same, v.s == w.s, v.u == w.u)
		} else {
			p.curr.setSymNZ(a, "new "+a.name, slen, true)
			same = false
		}
	}
	p.changed = !same
	p.u = eventsource.RecordUpdate{Prev: val(p.prev), Curr: val(p.curr)}
	return p
}

// check asserts that what was sent turns the previous record into the new one.
func (p *pub) check(got vanflow.Record) {
	pt := p.curr.pt
	want := newRec(pt, p.curr.id)
	rv := recV(got)
	nd.Assert(rv.Type() == recV(pt.zero).Type(), "the record sent has another type")
	nd.Assert(got.Identity() == want.id, "the record sent does not carry its identity")
	for _, a := range pt.all() {
		v := p.curr.vals[a.name]
		f := rv.FieldByName(a.name)
		if !f.IsNil() {
			nd.Assert(attrIs(rv, a, v), "an attribute was sent with another value: "+a.name)
			continue
		}
		if p.prev == nil {
			nd.Assert(!v.set, "a record without previous state was not sent in full: "+a.name)
			continue
		}
		o := p.prev.vals[a.name]
		nd.Assert(o.set == v.set && and(o.s == v.s, o.u == v.u), "merging what was sent does not give the new record: "+a.name)
	}
}

// C26_Updates: a sequence of updates under an arbitrary batching configuration.
func C26_Updates() {
	n := nd.Param("n", 2)
	c := newFcont()
	cfg := quiet()
	cfg.UpdateBatchSize = nd.Choose("batch", 4)
	if nd.Choose("buffer", 2) == 1 {
		cfg.UpdateBufferTime = time.Second
	}
	m := eventsource.NewManager(c, cfg)
	ctx, cancel := context.WithCancel(context.Background())
	var wg sync.WaitGroup
	wg.Add(1)
	go func() { defer wg.Done(); m.Run(ctx) }()
	var pubs []*pub
	for i := 0; i < n; i++ {
		t := nd.Param("type", -1)
		if t < 0 {
			t = nd.Choose("type", len(protoTypes))
		}
		pubs = append(pubs, makePub(protoTypes[t], nd.Param("k", 1), nd.Param("len", 1)))
	}
	for _, p := range pubs {
		switch nd.Choose("gap", 3) {
		case 1:
			nd.Quiesce()
		case 2:
			time.Sleep(time.Duration(nd.IntRange("wait", 1, 2*sec)))
		}
		m.PublishUpdate(p.u)
	}
	nd.Quiesce()
	if cfg.UpdateBufferTime > 0 {
		time.Sleep(cfg.UpdateBufferTime)
		time.Sleep(1)
		nd.Quiesce()
	}
	max := 1
	if cfg.UpdateBatchSize > 1 {
		max = cfg.UpdateBatchSize
	}
	var got []vanflow.Record
	for _, msg := range c.sentRecords("addr") {
		nd.Assert(len(msg.Records) <= max, "a message is larger than the batch size")
		nd.Assert(len(msg.Records) > 0, "an empty message was sent")
		got = append(got, msg.Records...)
	}
	i := 0
	for _, p := range pubs {
		if !p.changed {
			continue
		}
		nd.Assert(i < len(got), "an update was not sent")
		p.check(got[i])
		i++
	}
	nd.Assert(i == len(got), "more was sent than was updated")
	nd.Cover(fmt.Sprintf("%d sent", len(got)))
	cancel()
	wg.Wait()
	nd.Quiesce()
}

func site(id, name string) vanflow.SiteRecord {
	return vanflow.SiteRecord{BaseRecord: vanflow.BaseRecord{ID: id}, Name: ptr(name)}
}

// C26_Publishers: concurrent publishers, while the source is flushed.
func C26_Publishers() {
	c := newFcont()
	cfg := quiet()
	cfg.UpdateBatchSize = nd.Param("batch", 2)
	cfg.UpdateBufferTime = time.Second
	if nd.Choose("slow", 1+nd.Param("slow", 0)) == 1 {
		// sends wait for a while
		open := time.Now().Add(5 * time.Second)
		c.send = func(ctx context.Context, addr string, n int) error {
			if w := time.Until(open); w > 0 {
				time.Sleep(w)
			}
			return nil
		}
	}
	m := eventsource.NewManager(c, cfg)
	ctx, cancel := context.WithCancel(context.Background())
	var wg, run sync.WaitGroup
	threads, ops := nd.Param("threads", 2), nd.Param("ops", 2)
	val := nd.StringN("value", 1)
	for t := 0; t < threads; t++ {
		t := t
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < ops; i++ {
				m.PublishUpdate(eventsource.RecordUpdate{Curr: site(fmt.Sprintf("%d.%d", t, i), val)})
			}
		}()
	}
	run.Add(1)
	go func() { defer run.Done(); m.Run(ctx) }()
	wg.Wait()
	nd.Quiesce()
	time.Sleep(8 * time.Second)
	nd.Quiesce()
	next := make([]int, threads)
	for _, msg := range c.sentRecords("addr") {
		nd.Assert(len(msg.Records) <= max(cfg.UpdateBatchSize, 1) && len(msg.Records) > 0, "a message is larger than the batch size, or empty")
		for _, r := range msg.Records {
			found := false
			for t := range next {
				if r.Identity() == fmt.Sprintf("%d.%d", t, next[t]) {
					next[t]++
					found = true
					break
				}
			}
			nd.Assert(found, "an update was sent twice or out of order")
			nd.Assert(nameOf(store.Entry{Record: r}) == val, "an update was sent with another value")
		}
	}
	for t := range next {
		nd.Assert(next[t] == ops, "an update was not sent")
	}
	cancel()
	run.Wait()
	nd.Quiesce()
	nd.Cover("sent")
}

// failingStore fails its first listings.
type failingStore struct {
	store.Interface
	fails int
}

func (s *failingStore) List(ctx context.Context, sel *store.Selector) (store.Set, error) {
	if s.fails > 0 {
		s.fails--
		return store.Set{}, errFake
	}
	return s.Interface.List(ctx, sel)
}

type flushed struct {
	id, name string
}

// C27_Flush: flush requests at different moments.
func C27_Flush() {
	c := newFcont()
	cfg := quiet()
	cfg.FlushBatchSize = nd.Choose("batch", nd.Param("batches", 4))
	if nd.Choose("delay", 2) == 1 {
		cfg.FlushDelay = time.Second
	}
	bg := context.Background()
	var live []flushed
	nst := nd.Choose("stores", nd.Param("stores", 2)) + 1
	left := nd.Param("entries", 2)
	var first store.Interface
	for i := 0; i < nst; i++ {
		var st store.Interface = store.NewDefaultCachingStore(store.CacheConfig{})
		if i == 0 {
			first = st
		}
		e := nd.Choose("entries", left+1)
		for j := 0; j < e; j++ {
			f := flushed{fmt.Sprintf("%d.%d", i, j), nd.StringN("name", 1)}
			nd.Assert(st.Add(bg, siteEntry(f.id, f.name)) == nil, "add failed")
			live = append(live, f)
		}
		if nd.Param("fail", 1) > 0 && nd.Choose("fail", 2) == 1 {
			st = &failingStore{st, 1}
		}
		cfg.Stores = append(cfg.Stores, st)
	}
	m := eventsource.NewManager(c, cfg)
	ctx, cancel := context.WithCancel(bg)
	var wg sync.WaitGroup
	wg.Add(1)
	go func() { defer wg.Done(); m.Run(ctx) }()
	nd.Quiesce()
	seen := 0 // record messages examined
	// answers examines what was sent since the last call: whole snapshots, at least min and at most max
	answers := func(min, max int, what string) {
		ms := c.sentRecords("addr")
		count := map[string]int{}
		total := 0
		for _, msg := range ms[seen:] {
			nd.Assert(len(msg.Records) > 0, "an empty message was sent")
			nd.Assert(cfg.FlushBatchSize <= 0 || len(msg.Records) <= cfg.FlushBatchSize, "a message is larger than the flush batch size")
			for _, r := range msg.Records {
				total++
				id := r.Identity()
				count[id]++
				found := false
				for _, f := range live {
					if f.id == id {
						found = true
						nd.Assert(nameOf(store.Entry{Record: r}) == f.name, "a record was flushed with other attributes")
					}
				}
				nd.Assert(found, "a record was sent that the stores do not hold")
			}
		}
		seen = len(ms)
		if max == 0 {
			nd.Assert(total == 0, what)
		}
		if len(live) == 0 {
			return
		}
		k := count[live[0].id]
		for _, f := range live {
			nd.Assert(count[f.id] == k, "a flush was not answered with every record once")
		}
		nd.Assert(k >= min, "a flush request was not answered")
		nd.Assert(k <= max, what)
	}
	settle := func() {
		nd.Quiesce()
		if nd.Param("fail", 1) > 0 {
			time.Sleep(5 * time.Second) // a failed listing may be retried later
		}
		if cfg.FlushDelay > 0 {
			time.Sleep(cfg.FlushDelay + 1)
		}
		nd.Quiesce()
	}
	rounds := nd.Param("rounds", 2)
	for r := 0; r < rounds; r++ {
		req := 0
		n := nd.Param("n", 2)
		for i := 0; i < n; i++ {
			switch nd.Choose("request", 3) {
			case 0:
				c.deliver("direct", fitem{msg: vanflow.FlushMessage{}.Encode()})
				req++
			case 1:
				c.deliver("direct", fitem{err: errFake})
			}
			if i < n-1 && nd.Choose("settle", 2) == 1 {
				nd.Quiesce()
			}
		}
		settle()
		min := 0
		if req > 0 {
			min = 1
		}
		answers(min, req, "more was flushed than was asked for")
		if r < rounds-1 {
			switch nd.Choose("change", 3) {
			case 1:
				nd.Assert(first.Add(bg, siteEntry("new", "n")) == nil, "add failed")
				live = append(live, flushed{"new", "n"})
			case 2:
				if len(live) > 0 && live[0].id == "0.0" {
					first.Delete(bg, siteEntry("0.0", ""))
					live = append([]flushed(nil), live[1:]...)
				}
			}
		}
	}
	nd.Cover(fmt.Sprintf("%d records", len(live)))
	cancel()
	wg.Wait()
	nd.Quiesce()
}

// C27_During: a request that arrives while an earlier flush is being answered, or after a burst.
func C27_During() {
	c := newFcont()
	cfg := quiet()
	cfg.FlushBatchSize = 1
	bg := context.Background()
	st := store.NewDefaultCachingStore(store.CacheConfig{})
	e := nd.Param("entries", 2)
	for j := 0; j < e; j++ {
		st.Add(bg, siteEntry(fmt.Sprint(j), "n"))
	}
	cfg.Stores = []store.Interface{st}
	if nd.Choose("delay", 2) == 1 {
		cfg.FlushDelay = time.Second
	}
	m := eventsource.NewManager(c, cfg)
	ctx, cancel := context.WithCancel(bg)
	var wg sync.WaitGroup
	wg.Add(1)
	go func() { defer wg.Done(); m.Run(ctx) }()
	burst := nd.Choose("burst", nd.Param("burst", 2)) * nd.Param("mult", 1)
	for i := 0; i <= burst; i++ {
		c.deliver("direct", fitem{msg: vanflow.FlushMessage{}.Encode()})
	}
	// a further request any time later must be answered by records sent from then on
	if nd.Choose("later", 2) == 1 {
		nd.Quiesce()
	}
	if nd.Choose("wait", 2) == 1 {
		time.Sleep(time.Second / 2)
	}
	st.Update(bg, siteEntry("0", "changed"))
	c.deliver("direct", fitem{msg: vanflow.FlushMessage{}.Encode()})
	nd.Quiesce()
	time.Sleep(3 * time.Second)
	nd.Quiesce()
	count := map[string]int{}
	last := ""
	for _, msg := range c.sentRecords("addr") {
		for _, r := range msg.Records {
			count[r.Identity()]++
			if r.Identity() == "0" {
				last = nameOf(store.Entry{Record: r})
			}
		}
	}
	k := count["0"]
	for j := 0; j < e; j++ {
		nd.Assert(count[fmt.Sprint(j)] == k, "a flush was not answered with every record once")
	}
	nd.Assert(k >= 1 && k <= burst+2, "not between one and as many answers as requests")
	nd.Assert(last == "changed", "a flush request was not answered with the current records")
	nd.Cover(fmt.Sprintf("%d answers", k))
	cancel()
	wg.Wait()
	nd.Quiesce()
	nd.Assert(nd.Goroutines() == 0 && c.openLinks() == 0, "goroutines or links are left")
}

// keepalive config and what the messages must carry
type kaDrv struct {
	c      *fcont
	cfg    eventsource.ManagerConfig
	hbAddr string
}

func newKa(b, h time.Duration) *kaDrv {
	k := &kaDrv{c: newFcont()}
	k.cfg.Source = eventsource.Info{ID: nd.StringN("id", 1), Version: nd.IntRange("version", 0, 1<<31), Type: nd.String("type", 1), Address: "addr", Direct: nd.String("direct", 1)}
	k.cfg.BeaconInterval, k.cfg.HeartbeatInterval = b, h
	k.hbAddr = "addr"
	if nd.Choose("alternate", 2) == 1 {
		k.cfg.UseAlternateHeartbeatAddress = true
		k.hbAddr = "addr.heartbeats"
	}
	return k
}

// first reports whether no beacon has been delivered yet.
func (k *kaDrv) first() bool {
	k.c.mu.Lock()
	defer k.c.mu.Unlock()
	for _, s := range k.c.sent {
		if s.addr == beacons {
			return false
		}
	}
	return true
}

// checkSent asserts that everything sent is a proper keepalive and returns when they were sent.
func (k *kaDrv) checkSent() (bs, hs []time.Time) {
	k.c.mu.Lock()
	defer k.c.mu.Unlock()
	for i, s := range k.c.sent {
		d, err := vanflow.Decode(s.msg)
		nd.Assert(err == nil, "a message that cannot be decoded was sent")
		src := k.cfg.Source
		switch m := d.(type) {
		case vanflow.BeaconMessage:
			nd.Assert(s.addr == beacons, "a beacon was sent elsewhere than to the beacon address")
			nd.Assert(and(m.Identity == src.ID, int(m.Version) == src.Version, m.SourceType == src.Type, m.Address == src.Address, m.Direct == src.Direct), "a beacon does not describe the source")
			bs = append(bs, s.at)
		case vanflow.HeartbeatMessage:
			nd.Assert(s.addr == k.hbAddr, "a heartbeat was sent elsewhere than to the heartbeat address")
			nd.Assert(and(m.Identity == src.ID, int(m.Version) == src.Version), "a heartbeat does not identify the source")
			nd.Assert(m.Now == uint64(s.at.UnixMicro()), "a heartbeat carries another time than that of its sending")
			nd.Assert(i > 0 && len(bs) > 0, "a heartbeat was sent before the first beacon")
			hs = append(hs, s.at)
		default:
			nd.Fail("something else than a keepalive was sent")
		}
	}
	return bs, hs
}

// C28_Schedule: keepalives without faults, any intervals.
func C28_Schedule() {
	b, h := 10*time.Second, 2*time.Second
	var cb, ch time.Duration
	if nd.Choose("beacon interval", 2) == 1 {
		cb = time.Duration(nd.IntRange("beacon", 1*sec, 3*sec))
		b = cb
	}
	if nd.Choose("heartbeat interval", 2) == 1 {
		ch = time.Duration(nd.IntRange("heartbeat", 1*sec, 3*sec))
		h = ch
	}
	k := newKa(cb, ch)
	m := eventsource.NewManager(k.c, k.cfg)
	ctx, cancel := context.WithCancel(context.Background())
	var wg sync.WaitGroup
	start := time.Now()
	wg.Add(1)
	go func() { defer wg.Done(); m.Run(ctx) }()
	nd.Quiesce()
	total := time.Duration(nd.Param("seconds", 7)) * time.Second
	time.Sleep(total)
	nd.Quiesce()
	end := time.Now()
	bs, hs := k.checkSent()
	nd.Assert(len(bs) > 0 && bs[0].Equal(start), "the first beacon was not sent at once")
	for i := range bs {
		nd.Assert(bs[i].Equal(start.Add(time.Duration(i)*b)), "a beacon was not sent on schedule")
	}
	for i := range hs {
		nd.Assert(hs[i].Equal(start.Add(time.Duration(i+1)*h)), "a heartbeat was not sent on schedule")
	}
	nd.Assert(!start.Add(time.Duration(len(bs))*b).Before(end), "a beacon is missing")
	nd.Assert(!start.Add(time.Duration(len(hs)+1)*h).Before(end), "a heartbeat is missing")
	nd.Cover("scheduled")
	cancel()
	wg.Wait()
	nd.Quiesce()
}

// C28_Faults: sends that fail, or are never accepted, at any point.
func C28_Faults() {
	b := time.Duration(nd.Choose("beacon", 3)+1) * time.Second
	h := time.Duration(nd.Choose("heartbeat", 3)+1) * time.Second
	k := newKa(b, h)
	left := nd.Param("faults", 3)
	outage := nd.Choose("outage", 2) == 1
	end := time.Now().Add(5 * time.Second)
	faulty := nd.Choose("which", 3)
	k.c.send = func(ctx context.Context, addr string, n int) error {
		if faulty == 0 && addr != beacons || faulty == 1 && addr == beacons {
			return nil
		}
		f := 0
		if outage {
			// every send fails for a while
			if !time.Now().Before(end) {
				return nil
			}
			f = 1
		} else {
			k.c.mu.Lock()
			l := left
			left--
			k.c.mu.Unlock()
			if l <= 0 {
				return nil
			}
			f = nd.Choose("send", 3)
		}
		switch f {
		case 1:
			return errFake
		case 2: // never delivered
			limit := min(b, h)
			if addr == beacons && k.first() {
				limit = b
			}
			since := time.Now()
			<-ctx.Done()
			nd.Assert(time.Since(since) <= limit, "a stuck send is not given up in time")
			return ctx.Err()
		}
		return nil
	}
	m := eventsource.NewManager(k.c, k.cfg)
	ctx, cancel := context.WithCancel(context.Background())
	var wg sync.WaitGroup
	wg.Add(1)
	go func() { defer wg.Done(); m.Run(ctx) }()
	nd.Quiesce()
	// each fault may take up to the longer interval, and one more to be noticed
	time.Sleep(time.Duration(nd.Param("faults", 3)+2)*max(b, h) + 6*time.Second)
	nd.Quiesce()
	b0, h0 := k.checkSent()
	window := 6 * time.Second
	time.Sleep(window)
	nd.Quiesce()
	b1, h1 := k.checkSent()
	db, dh := len(b1)-len(b0), len(h1)-len(h0)
	nd.Assert(db == int(window/b), "beacons are not sent on schedule after failed sends")
	nd.Assert(dh == int(window/h), "heartbeats are not sent on schedule after failed sends")
	nd.Cover("recovered")
	cancel()
	wg.Wait()
	nd.Quiesce()
	nd.Assert(nd.Goroutines() == 0 && k.c.openLinks() == 0, "goroutines or links are left")
}

// stubbornStore never lists.
type stubbornStore struct{ store.Interface }

func (stubbornStore) List(ctx context.Context, sel *store.Selector) (store.Set, error) {
	return store.Set{}, errFake
}

// C29_Stop: the context ends at any moment, with the source's peers in any state.
func C29_Stop() {
	c := newFcont()
	cfg := quiet()
	cfg.HeartbeatInterval, cfg.BeaconInterval = time.Second, 2*time.Second
	st := store.NewDefaultCachingStore(store.CacheConfig{})
	st.Add(context.Background(), siteEntry("a", "n"))
	cfg.Stores = []store.Interface{st}
	if nd.Choose("store", 2) == 1 {
		cfg.Stores = append(cfg.Stores, stubbornStore{st})
	}
	if nd.Choose("buffering", 2) == 1 {
		cfg.FlushDelay = 3 * time.Second
		cfg.UpdateBufferTime, cfg.UpdateBatchSize = 3*time.Second, 3
	}
	mode := nd.Choose("sends", 4)
	which := 0
	if mode > 0 {
		which = nd.Choose("which", 3)
	}
	c.send = func(ctx context.Context, addr string, n int) error {
		if which == 1 && addr != beacons || which == 2 && addr == beacons {
			return nil
		}
		switch mode {
		case 1:
			return errFake
		case 2:
			<-ctx.Done()
			return ctx.Err()
		case 3: // the first is delivered, the rest never
			if n > 0 {
				<-ctx.Done()
				return ctx.Err()
			}
		}
		return nil
	}
	m := eventsource.NewManager(c, cfg)
	ctx, cancel := context.WithCancel(context.Background())
	switch nd.Choose("pending", 4) {
	case 1:
		c.deliver("direct", fitem{msg: vanflow.FlushMessage{}.Encode()})
	case 2:
		m.PublishUpdate(eventsource.RecordUpdate{Curr: site("a", "n")})
	case 3:
		c.deliver("direct", fitem{err: errFake})
	}
	var wg sync.WaitGroup
	when := nd.Choose("when", nd.Param("whens", 4))
	if when > 1 && nd.Choose("deadline", 2) == 1 {
		cancel()
		ctx, cancel = context.WithTimeout(context.Background(), time.Duration(when-1)*time.Second)
		defer cancel()
	} else {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if when > 0 {
				time.Sleep(time.Duration(when-1) * time.Second)
			}
			cancel()
		}()
	}
	m.Run(ctx)
	wg.Wait()
	nd.Quiesce()
	nd.Assert(ctx.Err() != nil, "Run returned before its context ended")
	nd.Assert(nd.Goroutines() == 0, "a goroutine of a stopped source is left")
	nd.Assert(c.openLinks() == 0, "a sender or receiver of a stopped source is left open")
	nd.Cover("stopped")
}

// C29_Full: the context ends while more is published than can be sent.
func C29_Full() {
	c := newFcont()
	cfg := quiet()
	c.send = func(ctx context.Context, addr string, n int) error {
		if addr == beacons {
			return nil
		}
		<-ctx.Done()
		return ctx.Err()
	}
	m := eventsource.NewManager(c, cfg)
	ctx, cancel := context.WithCancel(context.Background())
	var wg sync.WaitGroup
	wg.Add(1)
	go func() { defer wg.Done(); m.Run(ctx) }()
	nd.Quiesce()
	for i := 0; i < nd.Param("n", 300); i++ {
		m.PublishUpdate(eventsource.RecordUpdate{Curr: vanflow.SiteRecord{BaseRecord: vanflow.BaseRecord{ID: "a"}}})
	}
	c.deliver("direct", fitem{msg: vanflow.FlushMessage{}.Encode()})
	if nd.Choose("settled", 2) == 1 {
		nd.Quiesce()
	}
	cancel()
	wg.Wait()
	nd.Quiesce()
	nd.Assert(nd.Goroutines() == 0, "a goroutine of a stopped source is left")
	nd.Assert(c.openLinks() == 0, "a sender or receiver of a stopped source is left open")
	nd.Cover("stopped")
}

// gate holds the nth listing of any store up, after it was made, until it is released.
type gate struct {
	n    int
	open chan struct{}
	held bool
}

type gatedStore struct {
	store.Interface
	*gate
}

func (g gatedStore) List(ctx context.Context, opts *store.Selector) (store.Set, error) {
	res, err := g.Interface.List(ctx, opts)
	if g.n == 0 {
		g.held = true
		<-g.open
	}
	g.n--
	return res, err
}

// C27_Busy: requests that arrive while the manager is at any point of answering an earlier one.
func C27_Busy() {
	c := newFcont()
	cfg := quiet()
	cfg.FlushBatchSize = nd.Choose("batch", 3)
	if nd.Choose("delay", 2) == 1 {
		cfg.FlushDelay = time.Second
	}
	bg := context.Background()
	st := store.NewDefaultCachingStore(store.CacheConfig{})
	e := nd.Param("entries", 2)
	names := map[string]string{}
	for j := 0; j < e; j++ {
		st.Add(bg, siteEntry(fmt.Sprint(j), "n"))
		names[fmt.Sprint(j)] = "n"
	}
	g := &gate{open: make(chan struct{})}
	cfg.Stores = []store.Interface{gatedStore{st, g}}
	if nd.Choose("stores", 2) == 1 {
		second := store.NewDefaultCachingStore(store.CacheConfig{})
		second.Add(bg, siteEntry("second", "n"))
		names["second"] = "n"
		cfg.Stores = append(cfg.Stores, gatedStore{second, g})
	}
	g.n = nd.Choose("hold", e+2)
	m := eventsource.NewManager(c, cfg)
	ctx, cancel := context.WithCancel(bg)
	var wg sync.WaitGroup
	wg.Add(1)
	go func() { defer wg.Done(); m.Run(ctx) }()
	c.deliver("direct", fitem{msg: vanflow.FlushMessage{}.Encode()})
	nd.Quiesce()
	if cfg.FlushDelay > 0 {
		time.Sleep(cfg.FlushDelay + 1)
		nd.Quiesce()
	}
	requests := 1
	from := 0
	if g.held {
		// what is sent for the earlier request no longer tells what the stores hold
		switch nd.Choose("change", 3) {
		case 0:
			st.Update(bg, siteEntry("0", "changed"))
			names["0"] = "changed"
		case 1:
			st.Add(bg, siteEntry("+", "added"))
			names["+"] = "added"
		}
		for i := nd.Choose("more", nd.Param("more", 2)) + 1; i > 0; i-- {
			c.deliver("direct", fitem{msg: vanflow.FlushMessage{}.Encode()})
			requests++
		}
		nd.Quiesce()
		from = len(c.sentRecords("addr"))
		close(g.open)
		nd.Cover("requested while answering")
	}
	nd.Quiesce()
	time.Sleep(3 * time.Second)
	nd.Quiesce()
	held := 0
	if g.held {
		held = 1
	}
	// the last whole snapshot among what was sent is of the stores as they are now
	ms := c.sentRecords("addr")
	var recs []vanflow.Record
	for i, msg := range ms {
		nd.Assert(cfg.FlushBatchSize == 0 || len(msg.Records) <= cfg.FlushBatchSize, "a message is larger than the flush batch size")
		if i >= from {
			recs = append(recs, msg.Records...)
		}
	}
	nd.Assert(len(recs) >= len(names), "a flush request was not answered with every record")
	seen := map[string]bool{}
	for _, r := range recs[len(recs)-len(names):] {
		nd.Assert(!seen[r.Identity()], "a record was sent twice for one flush")
		seen[r.Identity()] = true
		want, ok := names[r.Identity()]
		nd.Assert(ok, "a record was sent that the store does not hold")
		nd.Assert(nameOf(store.Entry{Record: r}) == want, "a flush request was answered with records as they were before it")
	}
	nd.Assert(len(recs) <= len(names)*(requests+held), "more was flushed than was asked for")
	cancel()
	wg.Wait()
	nd.Quiesce()
	nd.Assert(nd.Goroutines() == 0 && c.openLinks() == 0, "goroutines or links are left")
}

// pagedStore holds n records that it lists in the order of their identities.
type pagedStore struct {
	store.Interface
	n int
}

func (p pagedStore) List(_ context.Context, sel *store.Selector) (set store.Set, err error) {
	from := 0
	if sel.Continue != "" {
		if from, err = strconv.Atoi(sel.Continue); err != nil {
			return set, err
		}
	}
	to := p.n
	if sel.Limit > 0 && from+sel.Limit < to {
		to = from + sel.Limit
		set.Continue = strconv.Itoa(to)
	}
	for ; from < to; from++ {
		set.Entries = append(set.Entries, siteEntry(strconv.Itoa(from), "n"))
	}
	return set, nil
}

// C27_Long: an answer of many messages, while sends are stuck for some time.
func C27_Long() {
	c := newFcont()
	cfg := quiet()
	cfg.FlushBatchSize = 1 + nd.Choose("batch", 2)
	n := nd.Param("messages", 300) * cfg.FlushBatchSize
	cfg.Stores = []store.Interface{pagedStore{n: n}}
	if nd.Choose("slow", 2) == 1 {
		open := time.Now().Add(5 * time.Second)
		c.send = func(ctx context.Context, addr string, n int) error {
			if w := time.Until(open); w > 0 {
				time.Sleep(w)
			}
			return nil
		}
	}
	m := eventsource.NewManager(c, cfg)
	ctx, cancel := context.WithCancel(context.Background())
	var wg sync.WaitGroup
	wg.Add(1)
	go func() { defer wg.Done(); m.Run(ctx) }()
	c.deliver("direct", fitem{msg: vanflow.FlushMessage{}.Encode()})
	nd.Quiesce()
	time.Sleep(8 * time.Second)
	nd.Quiesce()
	i := 0
	for _, msg := range c.sentRecords("addr") {
		nd.Assert(len(msg.Records) <= cfg.FlushBatchSize, "a message is larger than the flush batch size")
		for _, r := range msg.Records {
			nd.Assert(i < n && r.Identity() == strconv.Itoa(i), "a flush request was not answered with every record once")
			i++
		}
	}
	nd.Assert(i == n, "a flush request was not answered with every record")
	cancel()
	wg.Wait()
	nd.Quiesce()
	nd.Assert(nd.Goroutines() == 0 && c.openLinks() == 0, "goroutines or links are left")
	nd.Cover("flushed")
}
