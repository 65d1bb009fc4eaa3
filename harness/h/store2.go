package h

import (
	"context"
	"fmt"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/c-kruse/vanflow"
	"github.com/c-kruse/vanflow/store"

	"verif/harness/nd"
)

// C17: concurrent use of one store.

func siteEntry(id, name string) store.Entry {
	return store.Entry{Record: vanflow.SiteRecord{BaseRecord: vanflow.BaseRecord{ID: id}, Name: ptr(name)}, TypeMeta: typeMetaOf(0)}
}

func nameOf(e store.Entry) string {
	_, _, name, extra, _ := recFields(e.Record)
	if extra != "" {
		return name + "+" + extra
	}
	return name
}

// evlog records handler calls from any goroutine.
type evlog struct {
	mu  sync.Mutex
	evs []string
}

func (l *evlog) add(s string) {
	l.mu.Lock()
	l.evs = append(l.evs, s)
	l.mu.Unlock()
}

func (l *evlog) funcs() store.EventHandlerFuncs {
	return store.EventHandlerFuncs{
		OnAdd:    func(e store.Entry) { l.add("add " + e.Record.Identity() + " " + nameOf(e)) },
		OnChange: func(p, e store.Entry) { l.add("change " + e.Record.Identity() + " " + nameOf(p) + ">" + nameOf(e)) },
		OnDelete: func(e store.Entry) { l.add("delete " + e.Record.Identity() + " " + nameOf(e)) },
	}
}

// C17_Adds: of several concurrent adds of one key exactly one succeeds.
func C17_Adds() {
	var l evlog
	st := store.NewDefaultCachingStore(store.CacheConfig{EventHandlers: l.funcs()})
	ctx := context.Background()
	t := nd.Param("threads", 3)
	errs := make([]error, t)
	var wg sync.WaitGroup
	for i := 0; i < t; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			errs[i] = st.Add(ctx, siteEntry("a", fmt.Sprint(i)))
		}()
	}
	wg.Wait()
	won := -1
	for i, err := range errs {
		if err == nil {
			nd.Assert(won < 0, "several concurrent adds of one key succeeded")
			won = i
		}
	}
	nd.Assert(won >= 0, "no concurrent add succeeded")
	s, err := st.Get(ctx, siteEntry("a", ""))
	nd.Assert(err == nil && s.Found && nameOf(s.Entry) == fmt.Sprint(won), "the entry is not that of the add that succeeded")
	nd.Assert(len(l.evs) == 1 && l.evs[0] == "add a "+fmt.Sprint(won), "the add was not reported once")
	nd.Cover(fmt.Sprintf("%d won", won))
}

// C17_Updates: of several concurrent updates under one ETag exactly one succeeds.
func C17_Updates() {
	var l evlog
	st := store.NewDefaultCachingStore(store.CacheConfig{EventHandlers: l.funcs()})
	ctx := context.Background()
	nd.Assert(st.Add(ctx, siteEntry("a", "old")) == nil, "add failed")
	s, err := st.Get(ctx, siteEntry("a", ""))
	nd.Assert(err == nil && s.Found, "get failed")
	l.evs = nil
	t := nd.Param("threads", 3)
	errs := make([]error, t)
	var wg sync.WaitGroup
	for i := 0; i < t; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			errs[i] = st.Update(store.WithIfMatch(ctx, s.ETag), siteEntry("a", fmt.Sprint(i)))
		}()
	}
	wg.Wait()
	won := -1
	for i, err := range errs {
		if err == nil {
			nd.Assert(won < 0, "several concurrent updates under one ETag succeeded")
			won = i
		}
	}
	nd.Assert(won >= 0, "no concurrent update under a current ETag succeeded")
	s, err = st.Get(ctx, siteEntry("a", ""))
	nd.Assert(err == nil && s.Found && nameOf(s.Entry) == fmt.Sprint(won), "the entry is not that of the update that succeeded")
	nd.Assert(len(l.evs) == 1 && l.evs[0] == "change a old>"+fmt.Sprint(won), "the change was not reported once")
	nd.Cover(fmt.Sprintf("%d won", won))
}

// C17_Accumulate: concurrent accumulates lose no attribute, and every change is reported once.
func C17_Accumulate() {
	type ev struct{ prev, next int }
	var mu sync.Mutex
	var evs []ev
	mask := func(e store.Entry) int {
		r, ok := e.Record.(*vanflow.SiteRecord)
		if !ok {
			return 1 << 20
		}
		m := 0
		for i, p := range []*string{r.Name, r.Location, r.Provider, r.Platform} {
			if p != nil {
				m |= 1 << i
				if *p != fmt.Sprint(i) {
					m |= 1 << 20
				}
			}
		}
		return m
	}
	st := store.NewDefaultCachingStore(store.CacheConfig{EventHandlers: store.EventHandlerFuncs{
		OnAdd: func(e store.Entry) {
			mu.Lock()
			evs = append(evs, ev{-1, mask(e)})
			mu.Unlock()
		},
		OnChange: func(p, e store.Entry) {
			mu.Lock()
			evs = append(evs, ev{mask(p), mask(e)})
			mu.Unlock()
		},
	}})
	ctx := context.Background()
	t, ops := nd.Param("threads", 3), nd.Param("ops", 1)
	var wg sync.WaitGroup
	for i := 0; i < t; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < ops; k++ {
				j := i*ops + k
				r := &vanflow.SiteRecord{BaseRecord: vanflow.BaseRecord{ID: "a"}}
				*[]**string{&r.Name, &r.Location, &r.Provider, &r.Platform}[j%4] = ptr(fmt.Sprint(j % 4))
				nd.Assert(st.Accumulate(store.SourceRef{Name: "s"}, r) == nil, "accumulate failed")
			}
		}()
	}
	wg.Wait()
	s, err := st.Get(ctx, siteEntry("a", ""))
	nd.Assert(err == nil && s.Found, "get failed")
	n := t * ops
	full := 1<<min(n, 4) - 1
	nd.Assert(mask(s.Entry) == full, "an attribute was lost by concurrent accumulates")
	nd.Assert(len(evs) == min(n, 4), "the changes were not reported once each")
	// the reported states form one chain from nothing to the final state
	at := -1
	for range evs {
		found := false
		for _, e := range evs {
			if e.prev == at {
				at, found = e.next, true
				break
			}
		}
		nd.Assert(found, "the reported states do not form one history")
	}
	nd.Assert(at == full, "the last reported state is not the final one")
	nd.Cover("chain")
}

const (
	copAdd = iota
	copUpdate
	copDelete
	copAccumulate
	copGet
	copList
	copReplace
	copIndex
	copValues
	copIfMatch
	nCops
)

type cop struct {
	kind   int
	key    string
	name   string
	etag   string
	etagOf string // the state under which the ETag was issued
	result string
	// when the operation was called and when it returned
	from, to int
}

// run performs the operation on the store and returns what it reported.
func (o *cop) run(st store.Interface) string {
	ctx := context.Background()
	fail := func(err error) string {
		if err != nil {
			return "error"
		}
		return "ok"
	}
	list := func(s store.Set, err error) string {
		if err != nil {
			return "error"
		}
		var r []string
		for _, e := range s.Entries {
			r = append(r, e.Record.Identity()+"="+nameOf(e))
		}
		sort.Strings(r)
		return strings.Join(r, ",")
	}
	switch o.kind {
	case copAdd:
		return fail(st.Add(ctx, siteEntry(o.key, o.name)))
	case copUpdate:
		return fail(st.Update(ctx, siteEntry(o.key, o.name)))
	case copDelete:
		return fail(st.Delete(ctx, siteEntry(o.key, "")))
	case copAccumulate:
		return fail(st.Accumulate(store.SourceRef{}, &vanflow.SiteRecord{BaseRecord: vanflow.BaseRecord{ID: o.key}, Location: ptr(o.name)}))
	case copGet:
		s, err := st.Get(ctx, siteEntry(o.key, ""))
		if err != nil {
			return "error"
		}
		if !s.Found {
			return "none"
		}
		return nameOf(s.Entry)
	case copList:
		return list(st.List(ctx, nil))
	case copReplace:
		return fail(st.Replace(ctx, []store.Entry{siteEntry("a", o.name)}))
	case copIndex:
		return list(st.Index(ctx, "all", siteEntry("a", ""), &store.Selector{}))
	case copValues:
		vs, err := st.IndexValues(ctx, "key")
		if err != nil {
			return "error"
		}
		sort.Strings(vs)
		return strings.Join(vs, ",")
	case copIfMatch:
		return fail(st.Update(store.WithIfMatch(ctx, o.etag), siteEntry(o.key, o.name)))
	}
	return ""
}

// cmodel is the sequential store.
type cmodel struct {
	vals map[string]string
	tick map[string]int
	n    int
	evs  []string
}

func (m *cmodel) clone() *cmodel {
	c := &cmodel{vals: map[string]string{}, tick: map[string]int{}, n: m.n, evs: append([]string{}, m.evs...)}
	for k, v := range m.vals {
		c.vals[k] = v
		c.tick[k] = m.tick[k]
	}
	return c
}

func (m *cmodel) set(k, v string, quiet bool) {
	old, ok := m.vals[k]
	if !quiet {
		if ok {
			m.evs = append(m.evs, "change "+k+" "+old+">"+v)
		} else {
			m.evs = append(m.evs, "add "+k+" "+v)
		}
	}
	m.vals[k] = v
	m.n++
	m.tick[k] = m.n
}

func (m *cmodel) list() string {
	var r []string
	for k, v := range m.vals {
		r = append(r, k+"="+v)
	}
	sort.Strings(r)
	return strings.Join(r, ",")
}

func (m *cmodel) apply(o *cop) string {
	cur, ok := m.vals[o.key]
	switch o.kind {
	case copAdd:
		if ok {
			return "error"
		}
		m.set(o.key, o.name, false)
	case copUpdate:
		m.set(o.key, o.name, false)
	case copDelete:
		if ok {
			m.evs = append(m.evs, "delete "+o.key+" "+cur)
			delete(m.vals, o.key)
			delete(m.tick, o.key)
		}
	case copAccumulate:
		name, loc, _ := strings.Cut(cur, "+")
		if ok && loc == o.name {
			return "ok"
		}
		m.set(o.key, name+"+"+o.name, false)
	case copGet:
		if !ok {
			return "none"
		}
		return cur
	case copList, copIndex:
		return m.list()
	case copValues:
		var r []string
		for k := range m.vals {
			r = append(r, k)
		}
		sort.Strings(r)
		return strings.Join(r, ",")
	case copReplace:
		m.vals, m.tick = map[string]string{}, map[string]int{}
		m.set("a", o.name, true)
	case copIfMatch:
		if !ok || m.tick[o.key] != 1 {
			return "error"
		}
		m.set(o.key, o.name, false)
	}
	return "ok"
}

// C17_Linearizable: any few operations take effect as if executed one at a time.
func C17_Linearizable() {
	var l evlog
	st := store.NewDefaultCachingStore(store.CacheConfig{
		EventHandlers: l.funcs(),
		Indexers: map[string]store.CacheIndexer{
			"all": func(store.Entry) []string { return []string{"x"} },
			"key": func(e store.Entry) []string { return []string{e.Record.Identity()} },
		},
	})
	ctx := context.Background()
	m := &cmodel{vals: map[string]string{}, tick: map[string]int{}}
	etag := ""
	exists := nd.Choose("exists", 2) == 1
	if exists {
		nd.Assert(st.Add(ctx, siteEntry("a", "old")) == nil, "add failed")
		m.set("a", "old", false)
		s, err := st.Get(ctx, siteEntry("a", ""))
		nd.Assert(err == nil && s.Found, "get failed")
		etag = s.ETag
	}
	t, ops := nd.Param("threads", 2), nd.Param("ops", 1)
	progs := make([][]*cop, t)
	last := 0
	for i := range progs {
		for k := 0; k < ops; k++ {
			o := &cop{key: "a", name: fmt.Sprintf("t%d%d", i, k)}
			n := nCops
			if !exists {
				n = copIfMatch
			}
			if ops == 1 {
				// threads are interchangeable
				o.kind = last + nd.Choose(fmt.Sprintf("t%d", i), n-last)
				last = o.kind
			} else {
				o.kind = nd.Choose(fmt.Sprintf("t%d.%d", i, k), n)
			}
			o.etag = etag
			if o.kind <= copUpdate && nd.Param("keys", 2) > 1 && nd.Choose("other key", 2) == 1 {
				o.key = "b"
			}
			progs[i] = append(progs[i], o)
		}
	}
	var wg sync.WaitGroup
	for i := range progs {
		p := progs[i]
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, o := range p {
				o.from = nd.Stamp()
				o.result = o.run(st)
				o.to = nd.Stamp()
			}
		}()
	}
	wg.Wait()
	final := (&cop{kind: copList}).run(st)
	findex := (&cop{kind: copIndex}).run(st)
	nd.Assert(final == findex, "the index and the content differ after concurrent operations")
	evs := append([]string{}, l.evs...)
	sort.Strings(evs)
	seen := strings.Join(evs, ";")
	nd.Assert(linearize(progs, make([]int, t), m, final, seen), "no sequential order explains the results: "+final)
	nd.Cover("linearizable")
}

func linearize(progs [][]*cop, pos []int, m *cmodel, final, seen string) bool {
	done := true
	for i := range progs {
		if pos[i] == len(progs[i]) {
			continue
		}
		done = false
		o := progs[i][pos[i]]
		early := false
		for j := range progs {
			// another operation was over before this one was called
			early = early || pos[j] < len(progs[j]) && progs[j][pos[j]].to < o.from
		}
		if early {
			continue
		}
		c := m.clone()
		if c.apply(o) != o.result {
			continue
		}
		pos[i]++
		ok := linearize(progs, pos, c, final, seen)
		pos[i]--
		if ok {
			return true
		}
	}
	if !done {
		return false
	}
	if m.list() != final {
		return false
	}
	evs := append([]string{}, m.evs...)
	sort.Strings(evs)
	return strings.Join(evs, ";") == seen
}

// C17_Reentrant: handlers may call back into the store.
func C17_Reentrant() {
	var st store.Interface
	ctx := context.Background()
	back := nd.Choose("callback", 6)
	var mu sync.Mutex
	calls := 0
	cb := func(e store.Entry) {
		mu.Lock()
		calls++
		c := calls
		mu.Unlock()
		if c > 2 {
			return
		}
		switch back {
		case 0:
			_, err := st.Get(ctx, e)
			nd.Assert(err == nil, "get failed in a handler")
		case 1:
			_, err := st.List(ctx, nil)
			nd.Assert(err == nil, "list failed in a handler")
		case 2:
			nd.Assert(st.Update(ctx, siteEntry("b", "x")) == nil, "update failed in a handler")
		case 3:
			nd.Assert(st.Delete(ctx, e) == nil, "delete failed in a handler")
		case 4:
			nd.Assert(st.Accumulate(store.SourceRef{}, &vanflow.SiteRecord{BaseRecord: vanflow.BaseRecord{ID: "a"}, Provider: ptr("p")}) == nil, "accumulate failed in a handler")
		case 5:
			nd.Assert(st.Replace(ctx, nil) == nil, "replace failed in a handler")
		}
	}
	st = store.NewDefaultCachingStore(store.CacheConfig{EventHandlers: store.EventHandlerFuncs{
		OnAdd: cb, OnDelete: cb, OnChange: func(_, e store.Entry) { cb(e) }}})
	nd.Assert(st.Add(ctx, siteEntry("a", "old")) == nil, "add failed")
	k := nd.Choose("op", 3)
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		_, err := st.Index(ctx, store.IndexBySource, siteEntry("a", ""), nil)
		nd.Assert(err == nil, "index failed")
	}()
	switch k {
	case 0:
		nd.Assert(st.Update(ctx, siteEntry("a", "new")) == nil, "update failed")
	case 1:
		nd.Assert(st.Delete(ctx, siteEntry("a", "")) == nil, "delete failed")
	case 2:
		nd.Assert(st.Accumulate(store.SourceRef{}, &vanflow.SiteRecord{BaseRecord: vanflow.BaseRecord{ID: "a"}, Platform: ptr("p")}) == nil, "accumulate failed")
	}
	wg.Wait()
	nd.Assert(calls >= 1, "no handler was called")
	nd.Cover("returned")
}

// C16: dispatching.

// accLog is a store that records what is accumulated.
type accLog struct {
	store.Interface
	name string
	fail func(n int) bool
	log  *[]accCall
}

type accCall struct {
	store string
	src   store.SourceRef
	rec   vanflow.Record
}

func (a accLog) Accumulate(s store.SourceRef, r vanflow.Record) error {
	*a.log = append(*a.log, accCall{a.name, s, r})
	if a.fail(len(*a.log)) {
		return errKey
	}
	return nil
}

// C16_Dispatch: each record goes to its type's store, in order, once, under the dispatcher's source.
func C16_Dispatch() {
	var log []accCall
	stor := func(name string) store.Interface {
		return accLog{name: name, log: &log, fail: func(n int) bool { return nd.Bool(fmt.Sprintf("fail%d", n)) }}
	}
	types := nd.Param("types", 4)
	pick := func(l string) int {
		if types >= len(protoTypes) {
			return nd.Choose(l, len(protoTypes))
		}
		return []int{0, 2, 14, 8, 6, 7, 13}[nd.Choose(l, types)]
	}
	rec := func(t int, id string, p bool) vanflow.Record {
		r := newRec(protoTypes[t], id)
		if p {
			return r.pointer().(vanflow.Record)
		}
		return r.value().(vanflow.Record)
	}
	// registrations: a few types, one perhaps twice, one perhaps sharing a store
	var reg store.DispatchRegistry
	want := map[int]string{}
	n := nd.Choose("registrations", nd.Param("regs", 2)+1)
	for i := 0; i < n; i++ {
		t := pick(fmt.Sprintf("reg%d", i))
		name := fmt.Sprintf("store%d", i)
		reg.RegisterStore(rec(t, "", nd.Choose("by pointer", 2) == 1), stor(name))
		want[t] = name
	}
	src := store.SourceRef{APIVersion: "v", Type: "t", Name: nd.String("source", 2)}
	d := reg.NewDispatcher(src)
	// later changes of the registry and other dispatchers do not matter
	if nd.Choose("later", 2) == 1 {
		reg.RegisterStore(rec(pick("late"), "", true), stor("late"))
		other := reg.NewDispatcher(store.SourceRef{Name: "other"})
		_ = other
	}
	var msg vanflow.RecordMessage
	var exp []accCall
	k := nd.Choose("records", nd.Param("n", 2)+1)
	for i := 0; i < k; i++ {
		t := pick(fmt.Sprintf("rec%d", i))
		r := rec(t, fmt.Sprint(i), nd.Choose("by pointer", 2) == 1)
		msg.Records = append(msg.Records, r)
		if s, ok := want[t]; ok {
			exp = append(exp, accCall{s, src, r})
		}
	}
	d.Dispatch(msg)
	nd.Assert(len(log) == len(exp), "a record was not delivered exactly once")
	for i, e := range exp {
		nd.Assert(log[i].store == e.store, "a record was delivered to the wrong store, or out of order")
		nd.Assert(log[i].src == e.src, "a record was delivered under another source")
		nd.Assert(log[i].rec.Identity() == e.rec.Identity() && log[i].rec.GetTypeMeta() == e.rec.GetTypeMeta(), "another record was delivered, or out of order")
	}
	nd.Cover(fmt.Sprintf("%d delivered", len(exp)))
}

// C16_Stores: dispatched records end up in real stores under their source.
func C16_Stores() {
	sites := store.NewDefaultCachingStore(store.CacheConfig{})
	links := store.NewDefaultCachingStore(store.CacheConfig{})
	var reg store.DispatchRegistry
	reg.RegisterStore(vanflow.SiteRecord{}, sites)
	reg.RegisterStore(&vanflow.LinkRecord{}, links)
	src := store.SourceRef{APIVersion: "v", Type: "t", Name: "a"}
	d := reg.NewDispatcher(src)
	ctx := context.Background()
	var wantS, wantL []string
	k := nd.Param("n", 2)
	var msg vanflow.RecordMessage
	for i := 0; i < k; i++ {
		id := fmt.Sprint(i)
		nm := nd.String("name"+id, 1)
		switch nd.Choose("type", 4) {
		case 0:
			msg.Records = append(msg.Records, &vanflow.SiteRecord{BaseRecord: vanflow.BaseRecord{ID: id}, Name: &nm})
			wantS = append(wantS, id+nm)
		case 1:
			msg.Records = append(msg.Records, vanflow.LinkRecord{BaseRecord: vanflow.BaseRecord{ID: id}, Name: &nm})
			wantL = append(wantL, id+nm)
		case 2:
			msg.Records = append(msg.Records, &vanflow.LogRecord{BaseRecord: vanflow.BaseRecord{ID: id}})
		case 3: // cannot be merged with what is there
			old := vanflow.NewBase("0", timeBefore1970)
			msg.Records = append(msg.Records, &vanflow.SiteRecord{BaseRecord: old})
			if len(wantS) == 0 || wantS[0][:1] != "0" {
				// nothing to merge with: stored as it is
				return
			}
		}
	}
	d.Dispatch(msg)
	check := func(st store.Interface, want []string) {
		l, err := st.List(ctx, &store.Selector{})
		nd.Assert(err == nil && len(l.Entries) == len(want), "a store holds another number of records")
		for i, e := range l.Entries {
			_, id, name, _, _ := recFields(e.Record)
			nd.Assert(id+name == want[i], "a store holds another record")
			nd.Assert(e.Meta.Source == src, "a record is attributed to another source")
		}
	}
	check(sites, wantS)
	check(links, wantL)
	nd.Cover("dispatched")
}

var timeBefore1970 = time.Unix(-1, 0)

// C17_SameAttribute: concurrent accumulates of one attribute, with any values, form one history.
func C17_SameAttribute() {
	type ev struct {
		first      bool
		prev, next string
		used       bool
	}
	var mu sync.Mutex
	var evs []*ev
	st := store.NewDefaultCachingStore(store.CacheConfig{EventHandlers: store.EventHandlerFuncs{
		OnAdd: func(e store.Entry) {
			mu.Lock()
			evs = append(evs, &ev{first: true, next: nameOf(e)})
			mu.Unlock()
		},
		OnChange: func(p, e store.Entry) {
			mu.Lock()
			evs = append(evs, &ev{prev: nameOf(p), next: nameOf(e)})
			mu.Unlock()
		},
	}})
	ctx := context.Background()
	t := nd.Param("threads", 2)
	vals := make([]string, t)
	for i := range vals {
		vals[i] = nd.StringN(fmt.Sprintf("v%d", i), 1)
	}
	init := nd.Choose("exists", 2) == 1
	start := ""
	if init {
		start = nd.StringN("old", 1)
		nd.Assert(st.Accumulate(store.SourceRef{}, &vanflow.SiteRecord{BaseRecord: vanflow.BaseRecord{ID: "a"}, Name: &start}) == nil, "accumulate failed")
		evs = nil
	}
	var wg sync.WaitGroup
	for i := range vals {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			v := vals[i]
			nd.Assert(st.Accumulate(store.SourceRef{}, &vanflow.SiteRecord{BaseRecord: vanflow.BaseRecord{ID: "a"}, Name: &v}) == nil, "accumulate failed")
		}()
	}
	wg.Wait()
	s, err := st.Get(ctx, siteEntry("a", ""))
	nd.Assert(err == nil && s.Found, "get failed")
	// some order of the reported changes leads from the first state to the final one
	var walk func(have bool, at string, left int) bool
	walk = func(have bool, at string, left int) bool {
		if left == 0 {
			return have && at == nameOf(s.Entry)
		}
		for _, x := range evs {
			if !x.used && x.first == !have && (x.first || x.prev == at) {
				x.used = true
				if walk(true, x.next, left-1) {
					return true
				}
				x.used = false
			}
		}
		return false
	}
	for _, e := range evs {
		nd.Assert(e.first || e.next != e.prev, "a change that changes nothing was reported")
	}
	nd.Assert(walk(init, start, len(evs)), "the reported changes do not form one history ending in the final state")
	for _, v := range vals {
		ok := init && v == start
		for _, e := range evs {
			ok = ok || e.next == v
		}
		nd.Assert(ok, "a value accumulated was never reported")
	}
	nd.Cover(fmt.Sprintf("%d changes", len(evs)))
}
