package h

import (
	"context"
	"fmt"
	"reflect"
	"sync"
	"time"

	"github.com/c-kruse/vanflow"
	"github.com/c-kruse/vanflow/eventsource"
	"github.com/c-kruse/vanflow/session"
	"github.com/c-kruse/vanflow/store"

	"verif/harness/nd"
)

// C35: a source and a collector joined by the mock router.

// held is a record that the source holds.
type held struct {
	r  *rec
	st int
}

func (h *held) record() vanflow.Record { return asRecord(h.r.value()) }

func (h *held) entry() store.Entry {
	return store.Entry{Record: h.record(), TypeMeta: h.record().GetTypeMeta(), Meta: store.Metadata{Source: store.SourceRef{Name: "me"}}}
}

// e2e is a source with its stores, and a collector with one for each type of record.
type e2e struct {
	src    []store.Interface
	hs     []*held
	m      *eventsource.Manager
	col    map[string]store.Interface
	ref    store.SourceRef
	client *eventsource.Client
	others []store.Interface // of a collector that listens to another source
}

// symHeld makes a record of the i-th type with up to k attributes, the first of which is symbolic.
func symHeld(pt ptype, id string, k, slen int) *rec {
	r := newRec(pt, id)
	attrs := pt.all()
	if m := nd.Param("attrs", 0); m > 0 && m < len(attrs) {
		attrs = attrs[len(attrs)-m:]
	}
	in := members(len(attrs), k)
	for i, a := range attrs {
		if in[i] {
			r.setSym(a, a.name, slen)
		}
	}
	return r
}

// check asserts that the collector holds what the source does.
func (e *e2e) check(what string) {
	bg := context.Background()
	total := 0
	for typ, st := range e.col {
		set, err := st.List(bg, nil)
		nd.Assert(err == nil, "listing failed")
		want := 0
		for _, h := range e.hs {
			if h.r.pt.name == typ {
				want++
			}
		}
		nd.Assert(len(set.Entries) == want, what+": the collector does not hold exactly the source's records")
		for _, en := range set.Entries {
			total++
			found := false
			for _, h := range e.hs {
				if h.r.id != en.Record.Identity() {
					continue
				}
				found = true
				nd.Assert(recV(en.Record).Type() == reflect.TypeOf(h.r.pt.zero), what+": a record has another type")
				for _, a := range h.r.pt.all() {
					nd.Assert(attrIs(recV(en.Record), a, h.r.vals[a.name]), what+": the collector's copy differs: "+a.name)
				}
				nd.Assert(en.TypeMeta == h.record().GetTypeMeta(), what+": an entry has another type than its record")
			}
			nd.Assert(found, what+": the collector holds a record that the source does not")
			nd.Assert(en.Meta.Source == e.ref, what+": a record is attributed to another source")
		}
	}
	nd.Assert(total == len(e.hs), what+": the collector does not hold exactly the source's records")
}

func C35_EndToEnd() {
	bg := context.Background()
	router := session.NewMockRouter()
	e := &e2e{col: map[string]store.Interface{}}
	types := nd.Param("types", len(protoTypes))
	// what the source holds
	nst := nd.Param("stores", 2)
	for i := 0; i < nst; i++ {
		e.src = append(e.src, store.NewDefaultCachingStore(store.CacheConfig{}))
	}
	var reg store.DispatchRegistry
	for _, pt := range protoTypes {
		st := store.NewDefaultCachingStore(store.CacheConfig{})
		e.col[pt.name] = st
		reg.RegisterStore(asRecord(pt.zero), st)
	}
	add := func(publish bool) {
		h := &held{st: len(e.hs) % nst}
		t := 0
		if len(e.hs) == 0 {
			t = nd.Choose("type", types)
		} else {
			t = nd.Param("other", 2)
		}
		k := nd.Param("k", 1)
		if len(e.hs) > 0 {
			k = 0
		}
		h.r = symHeld(protoTypes[t], fmt.Sprintf("id%d", len(e.hs)), k, nd.Param("len", 1))
		nd.Assert(e.src[h.st].Add(bg, h.entry()) == nil, "add failed")
		e.hs = append(e.hs, h)
		if publish {
			e.m.PublishUpdate(eventsource.RecordUpdate{Curr: h.record()})
		}
	}
	n := nd.Choose("records", nd.Param("records", 2)+1)
	for i := 0; i < n; i++ {
		add(false)
	}
	cfg := quiet()
	cfg.Stores = e.src
	cfg.FlushBatchSize = nd.Choose("flush batch", nd.Param("batches", 2))
	cfg.UpdateBatchSize = nd.Choose("update batch", nd.Param("updbatches", 2)) + 1
	cfg.UpdateBufferTime = time.Second
	e.m = eventsource.NewManager(session.NewMockContainer(router), cfg)
	ctx, cancel := context.WithCancel(bg)
	var wg sync.WaitGroup
	wg.Add(1)
	// the collector
	e.ref = store.SourceRef{APIVersion: "v", Type: "src", Name: "src"}
	e.client = eventsource.NewClient(session.NewMockContainer(router), eventsource.ClientOptions{Source: cfg.Source})
	e.client.OnRecord(reg.NewDispatcher(e.ref).Dispatch)
	nd.Assert(e.client.Listen(ctx, eventsource.FromSourceAddress()) == nil, "listening failed")
	run := func() { defer wg.Done(); e.m.Run(ctx) }
	if nd.Choose("running", 2) == 1 {
		go run()
		nd.Quiesce()
	} else {
		go run()
	}
	updates := nd.Param("updates", 1)
	change := func() {
		switch nd.Choose("change", 3) {
		case 0:
			add(true)
		case 1:
			if len(e.hs) == 0 {
				return
			}
			h := e.hs[0]
			attrs := h.r.pt.all()
			if m := nd.Param("attrs", 0); m > 0 && m < len(attrs) {
				attrs = attrs[len(attrs)-m:]
			}
			prev := h.record()
			next := newRec(h.r.pt, h.r.id)
			for _, a := range attrs {
				if v, ok := h.r.vals[a.name]; ok {
					next.set(a, v)
				}
			}
			a := attrs[nd.Choose("attribute", len(attrs))]
			next.setSymNZ(a, "new "+a.name, nd.Param("len", 1), true)
			h.r = next
			nd.Assert(e.src[h.st].Update(bg, h.entry()) == nil, "update failed")
			e.m.PublishUpdate(eventsource.RecordUpdate{Prev: prev, Curr: h.record()})
		}
	}
	settle := func() {
		nd.Quiesce()
		time.Sleep(2 * time.Second)
		nd.Quiesce()
	}
	during := nd.Choose("during", nd.Param("during", 2)) == 1
	nd.Assert(e.client.SendFlush(bg) == nil, "the flush request was not sent")
	if during {
		for i := 0; i < updates; i++ {
			change()
		}
	}
	settle()
	e.check("after a flush")
	nd.Cover(fmt.Sprintf("%d records", len(e.hs)))
	if !during {
		for i := 0; i < updates; i++ {
			change()
			if i+1 < updates && nd.Choose("settle", 2) == 1 {
				settle()
			}
		}
		settle()
		e.check("after an update")
	}
	cancel()
	wg.Wait()
	e.client.Close()
	nd.Quiesce()
	nd.Assert(nd.Goroutines() == 0, "a goroutine is left")
}

// C35_Discovered: a collector that discovers sources, listens to them and asks each to flush, as the tool does.
func C35_Discovered() {
	bg := context.Background()
	router := session.NewMockRouter()
	ctx, cancel := context.WithCancel(bg)
	defer cancel()
	var wg sync.WaitGroup
	n := nd.Param("sources", 2)
	var hs []*rec
	type source struct {
		info eventsource.Info
		stop context.CancelFunc
	}
	var ss []*source
	start := func(i int) {
		id := fmt.Sprintf("s%d", i)
		src := store.NewDefaultCachingStore(store.CacheConfig{})
		t := nd.Param("first", 0) + i
		r := symHeld(protoTypes[t], "id"+id, nd.Param("k", 1), nd.Param("len", 1))
		nd.Assert(src.Add(bg, store.Entry{Record: asRecord(r.value()), TypeMeta: asRecord(r.value()).GetTypeMeta()}) == nil, "add failed")
		hs = append(hs, r)
		s := &source{info: eventsource.Info{ID: id, Version: 1, Type: "T", Address: "addr/" + id, Direct: "direct/" + id}}
		m := eventsource.NewManager(session.NewMockContainer(router), eventsource.ManagerConfig{Source: s.info, Stores: []store.Interface{src}})
		sctx, stop := context.WithCancel(ctx)
		s.stop = stop
		ss = append(ss, s)
		wg.Add(1)
		go func() { defer wg.Done(); m.Run(sctx) }()
	}
	// the collector
	col := store.NewDefaultCachingStore(store.CacheConfig{})
	var reg store.DispatchRegistry
	for _, pt := range protoTypes {
		reg.RegisterStore(asRecord(pt.zero), col)
	}
	collect := func() {
		c := session.NewMockContainer(router)
		d := eventsource.NewDiscovery(c, eventsource.DiscoveryOptions{})
		wg.Add(1)
		go func() {
			defer wg.Done()
			d.Run(ctx, eventsource.DiscoveryHandlers{
				Discovered: func(info eventsource.Info) {
					cl := eventsource.NewClient(c, eventsource.ClientOptions{Source: info})
					nd.Assert(d.NewWatchClient(ctx, eventsource.WatchConfig{Client: cl, ID: info.ID, Timeout: 30 * time.Second}) == nil, "a source that was just discovered is not known")
					cl.OnRecord(reg.NewDispatcher(store.SourceRef{APIVersion: fmt.Sprint(info.Version), Type: info.Type, Name: info.ID}).Dispatch)
					nd.Assert(cl.Listen(ctx, eventsource.FromSourceAddress()) == nil, "listening failed")
					wg.Add(1)
					go func() {
						defer wg.Done()
						fctx, fcancel := context.WithTimeout(ctx, 5*time.Second)
						defer fcancel()
						err := eventsource.FlushOnFirstMessage(fctx, cl)
						if err != nil && fctx.Err() != nil {
							err = cl.SendFlush(ctx)
						}
						nd.Assert(err == nil || ctx.Err() != nil, "flushing failed")
					}()
				},
			})
		}()
	}
	order := nd.Choose("order", 3)
	switch order {
	case 0:
		collect()
		for i := 0; i < n; i++ {
			start(i)
		}
	case 1:
		for i := 0; i < n; i++ {
			start(i)
		}
		nd.Quiesce()
		time.Sleep(anyWait("late"))
		collect()
	case 2:
		collect()
		nd.Quiesce()
		time.Sleep(anyWait("later"))
		for i := 0; i < n; i++ {
			start(i)
		}
	}
	nd.Quiesce()
	time.Sleep(30 * time.Second)
	nd.Quiesce()
	set, err := col.List(bg, nil)
	nd.Assert(err == nil && len(set.Entries) == n, "the collector does not hold every source's record")
	for _, en := range set.Entries {
		found := false
		for i, r := range hs {
			if r.id == en.Record.Identity() {
				found = true
				nd.Assert(en.Meta.Source == store.SourceRef{APIVersion: "1", Type: "T", Name: ss[i].info.ID}, "a record is attributed to another source")
				checkRec(en.Record, r, "the collector's copy")
			}
		}
		nd.Assert(found, "the collector holds a record of no source")
	}
	nd.Cover(fmt.Sprintf("order %d", order))
	cancel()
	wg.Wait()
	nd.Quiesce()
}

func anyWait(label string) time.Duration {
	return time.Duration(nd.IntRange(label, 0, 12*sec))
}
