package h

import (
	"context"
	"errors"
	"fmt"
	"sync"
	"time"

	amqp "github.com/Azure/go-amqp"
	"github.com/c-kruse/vanflow"
	"github.com/c-kruse/vanflow/eventsource"

	"verif/harness/nd"
)

const beacons = "mc/sfe.all"

// dlog records what discovery's handlers are called with.
type dlog struct {
	mu   sync.Mutex
	evs  []devent
	gate chan struct{} // handlers wait for it, if not nil
	busy chan struct{} // closed when a handler starts
	once sync.Once
}

type devent struct {
	forgotten bool
	info      eventsource.Info
	at        time.Time
}

func (l *dlog) add(forgotten bool, info eventsource.Info) {
	l.mu.Lock()
	l.evs = append(l.evs, devent{forgotten, info, time.Now()})
	l.mu.Unlock()
	if l.gate != nil {
		<-l.gate
	}
}

func (l *dlog) handlers() eventsource.DiscoveryHandlers {
	return eventsource.DiscoveryHandlers{
		Discovered: func(i eventsource.Info) { l.add(false, i) },
		Forgotten:  func(i eventsource.Info) { l.add(true, i) },
	}
}

func (l *dlog) all() []devent {
	l.mu.Lock()
	defer l.mu.Unlock()
	return append([]devent(nil), l.evs...)
}

func beaconItem(id string, ver uint32) fitem {
	return fitem{msg: vanflow.BeaconMessage{Identity: id, Version: ver, SourceType: "T", Address: "A", Direct: "D"}.Encode()}
}

func sameInfo(a, b eventsource.Info) bool {
	return and(a.ID == b.ID, a.Version == b.Version, a.Type == b.Type, a.Address == b.Address, a.Direct == b.Direct)
}

// dmodel is what discovery should know.
type dmodel struct {
	known []eventsource.Info
	evs   []devent
}

func (m *dmodel) find(id string) int {
	for i := range m.known {
		if m.known[i].ID == id {
			return i
		}
	}
	return -1
}

func (m *dmodel) beacon(b eventsource.Info) {
	now := time.Now()
	i := m.find(b.ID)
	if i < 0 {
		b.LastSeen = now
		m.known = append(m.known, b)
		m.evs = append(m.evs, devent{info: b})
		return
	}
	m.known[i].LastSeen = now
}

func (m *dmodel) add(b eventsource.Info) bool {
	if m.find(b.ID) >= 0 {
		return false
	}
	m.known = append(m.known, b)
	m.evs = append(m.evs, devent{info: b})
	return true
}

func (m *dmodel) forget(id string) bool {
	i := m.find(id)
	if i < 0 {
		return false
	}
	m.evs = append(m.evs, devent{forgotten: true, info: m.known[i]})
	m.known = append(append([]eventsource.Info(nil), m.known[:i]...), m.known[i+1:]...)
	return true
}

func (m *dmodel) check(d *eventsource.Discovery) {
	l := d.List()
	nd.Assert(len(l) == len(m.known), "not exactly the live sources are listed")
	for _, x := range l {
		i := m.find(x.ID)
		nd.Assert(i >= 0, "a source is listed that is not live")
		nd.Assert(sameInfo(x, m.known[i]), "a listed source is not as its beacon described it")
		nd.Assert(x.LastSeen.Equal(m.known[i].LastSeen), "a listed source's last-seen time is not that of its latest beacon")
		g, ok := d.Get(x.ID)
		nd.Assert(ok && and(sameInfo(x, g), x.LastSeen.Equal(g.LastSeen)), "get and list disagree")
	}
	for _, k := range m.known {
		_, ok := d.Get(k.ID)
		nd.Assert(ok, "a live source is not known")
	}
}

// checkLog compares the handler calls per source.
func (m *dmodel) checkLog(got []devent) {
	nd.Assert(len(got) == len(m.evs), fmt.Sprintf("%d handler calls instead of %d", len(got), len(m.evs)))
	used := make([]bool, len(got))
	for _, w := range m.evs {
		// the next call for this source
		for i, g := range got {
			if used[i] || g.info.ID != w.info.ID {
				continue
			}
			used[i] = true
			nd.Assert(g.forgotten == w.forgotten, "a source's handler calls are not in the order of its changes")
			nd.Assert(sameInfo(g.info, w.info), "a handler was called with another description of the source")
			break
		}
	}
	for _, u := range used {
		nd.Assert(u, "a handler was called for a source that did not change")
	}
}

// junk is something on the beacon address that is not a valid beacon.
func junk(c int) fitem {
	id := "a"
	switch c {
	case 0:
		return fitem{msg: hbMsg("a", 1, 1)}
	case 1:
		return fitem{msg: &amqp.Message{}}
	case 2:
		return fitem{msg: &amqp.Message{Properties: &amqp.MessageProperties{}, ApplicationProperties: map[string]any{"id": id}}}
	case 3:
		return fitem{msg: &amqp.Message{Properties: &amqp.MessageProperties{Subject: ptr("BEACON")}}}
	case 4:
		return fitem{msg: &amqp.Message{Properties: &amqp.MessageProperties{Subject: ptr("BEACON")}, ApplicationProperties: map[string]any{"id": uint32(7), "v": uint32(1)}}}
	case 5:
		s := nd.String("subject", 8)
		nd.Assume(s != "BEACON")
		return fitem{msg: &amqp.Message{Properties: &amqp.MessageProperties{Subject: &s}, ApplicationProperties: map[string]any{"id": id, "v": uint32(1)}}}
	case 6:
		return fitem{msg: recMsg([]string{"a"}, "n")}
	}
	return fitem{msg: &amqp.Message{Properties: &amqp.MessageProperties{Subject: ptr("BEACON")}, ApplicationProperties: map[string]any{"v": uint32(1), "id": nil}}}
}

// discovery under a script of beacons, explicit changes and junk
func discScript(check bool) {
	n := nd.Param("n", 2)
	kinds := nd.Param("kinds", 4)
	c := newFcont()
	d := eventsource.NewDiscovery(c, eventsource.DiscoveryOptions{})
	l := &dlog{}
	slow := nd.Choose("slow", 2) == 1
	if slow {
		l.gate = make(chan struct{})
	}
	ctx, cancel := context.WithCancel(context.Background())
	done := make(chan error, 1)
	go func() { done <- d.Run(ctx, l.handlers()) }()
	var m dmodel
	for i := 0; i < n; i++ {
		time.Sleep(time.Second)
		switch nd.Choose("op", kinds) {
		case 0:
			b := vanflow.BeaconMessage{Identity: nd.StringN("id", 1), Version: nd.Uint32("ver"), SourceType: nd.String("type", 1), Address: nd.String("addr", 1), Direct: nd.String("direct", 1)}
			it := fitem{msg: b.Encode()}
			if nd.Choose("accept", 2) == 1 {
				it.accErr = errFake
			}
			c.deliver(beacons, it)
			m.beacon(eventsource.Info{ID: b.Identity, Version: int(b.Version), Type: b.SourceType, Address: b.Address, Direct: b.Direct})
		case 1:
			in := eventsource.Info{ID: nd.StringN("id", 1), Version: nd.IntRange("ver", 0, 1<<30), Type: nd.String("type", 1), Address: nd.String("addr", 1), Direct: nd.String("direct", 1)}
			if nd.Choose("seen", 2) == 1 {
				in.LastSeen = time.Now()
			}
			nd.Assert(d.Add(in) == m.add(in), "add reports wrongly whether the source is new")
		case 2:
			id := nd.StringN("id", 1)
			nd.Assert(d.Forget(id) == m.forget(id), "forget reports wrongly whether the source was known")
		case 3:
			c.deliver(beacons, junk(nd.Choose("junk", 8)))
		}
		nd.Quiesce()
		select {
		case <-done:
			nd.Fail("discovery stopped")
		default:
		}
		if check {
			m.check(d)
		}
	}
	m.check(d)
	if slow {
		close(l.gate)
	}
	nd.Quiesce()
	m.checkLog(l.all())
	m.check(d)
	cancel()
	err := <-done
	nd.Assert(errors.Is(err, context.Canceled), "Run does not report the end of its context")
	nd.Quiesce()
	nd.Assert(nd.Goroutines() == 0 && c.openLinks() == 0, "goroutines or the receiver are left")
	nd.Cover("done")
}

// C19_Script: the handler calls for an arbitrary script, handlers slow or not.
func C19_Script() { discScript(false) }

// C20_Script: what is known after every step of an arbitrary script.
func C20_Script() { discScript(true) }

// C19_Concurrent: beacons, adds and forgets of one source at the same time.
func C19_Concurrent() {
	c := newFcont()
	d := eventsource.NewDiscovery(c, eventsource.DiscoveryOptions{})
	l := &dlog{}
	ctx, cancel := context.WithCancel(context.Background())
	for i := nd.Param("beacons", 2); i > 0; i-- {
		c.deliver(beacons, beaconItem("a", uint32(i)))
	}
	var wg sync.WaitGroup
	adds, forgets := make([]int, 4), make([]int, 4)
	for t := 0; t < nd.Param("threads", 2); t++ {
		t := t
		prog := make([]int, nd.Param("ops", 2))
		for j := range prog {
			prog[j] = nd.Choose("op", 2)
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, p := range prog {
				if p == 0 {
					if d.Add(eventsource.Info{ID: "a", Version: 100}) {
						adds[t]++
					}
				} else if d.Forget("a") {
					forgets[t]++
				}
			}
		}()
	}
	wg.Add(1)
	go func() { defer wg.Done(); d.Run(ctx, l.handlers()) }()
	nd.Quiesce()
	na, nf := 0, 0
	for i := range adds {
		na, nf = na+adds[i], nf+forgets[i]
	}
	known := false
	gotA, gotF := 0, 0
	for _, e := range l.all() {
		nd.Assert(e.forgotten == known, "arrivals and departures of a source do not alternate")
		known = !e.forgotten
		if e.forgotten {
			gotF++
		} else if e.info.Version == 100 {
			gotA++
		}
	}
	nd.Assert(gotF == nf, "not every departure was reported once")
	nd.Assert(gotA == na, "not every explicit arrival was reported once")
	_, ok := d.Get("a")
	nd.Assert(ok == known, "the last call does not agree with what is known")
	cancel()
	wg.Wait()
	nd.Quiesce()
	nd.Assert(nd.Goroutines() == 0, "a goroutine is left")
	nd.Cover(fmt.Sprintf("calls %v", len(l.evs) > 2))
}

// C21_Flood: many undelivered notifications behind a handler that does not return.
func C21_Flood() {
	n := nd.Param("n", 100)
	c := newFcont()
	d := eventsource.NewDiscovery(c, eventsource.DiscoveryOptions{})
	l := &dlog{gate: make(chan struct{})}
	ctx, cancel := context.WithCancel(context.Background())
	done := make(chan error, 1)
	var m dmodel
	running := nd.Choose("running", 2) == 1
	if running {
		go func() { done <- d.Run(ctx, l.handlers()) }()
	}
	kind := nd.Choose("kind", 3)
	base := nd.Uint32("ver")
	for i := 0; i < n; i++ {
		id := fmt.Sprintf("s%d", i)
		in := eventsource.Info{ID: id, Version: int(base) + i, Type: "T", Address: "A", Direct: "D"}
		switch {
		case kind == 0 && running:
			c.deliver(beacons, beaconItem(id, base+uint32(i)))
			in.Version = int(base + uint32(i))
			m.beacon(in)
			nd.Quiesce()
		case kind == 2 && i%2 == 1:
			prev := fmt.Sprintf("s%d", i-1)
			nd.Assert(d.Forget(prev) && m.forget(prev), "a known source could not be forgotten")
		default:
			nd.Assert(d.Add(in) && m.add(in), "a new source could not be added")
		}
	}
	nd.Assert(len(d.List()) == len(m.known), "not exactly the live sources are listed")
	if running && nd.Choose("cancel", 2) == 1 {
		cancel()
		nd.Assert(errors.Is(<-done, context.Canceled), "Run does not return with its context's error")
		nd.Cover("cancelled")
		close(l.gate)
		nd.Quiesce()
		nd.Assert(nd.Goroutines() == 0 && c.openLinks() == 0, "goroutines or the receiver are left")
		return
	}
	if !running {
		go func() { done <- d.Run(ctx, l.handlers()) }()
	}
	nd.Quiesce()
	close(l.gate)
	nd.Quiesce()
	m.checkLog(l.all())
	cancel()
	<-done
	nd.Quiesce()
	nd.Assert(nd.Goroutines() == 0 && c.openLinks() == 0, "goroutines or the receiver are left")
	nd.Cover("flooded")
}

// C21_Reentrant: handlers that call back into discovery.
func C21_Reentrant() {
	c := newFcont()
	d := eventsource.NewDiscovery(c, eventsource.DiscoveryOptions{})
	ctx, cancel := context.WithCancel(context.Background())
	acts := make([]int, nd.Param("acts", 2))
	for i := range acts {
		acts[i] = nd.Choose("act", 6)
	}
	calls := 0
	act := func(i eventsource.Info) {
		if calls < len(acts) {
			switch acts[calls] {
			case 0:
				d.Get(i.ID)
			case 1:
				d.List()
			case 2:
				d.Add(eventsource.Info{ID: "new"})
			case 3:
				d.Forget(i.ID)
			case 4:
				d.Add(i)
			case 5:
				d.Forget("new")
				d.Forget("b")
			}
		}
		calls++
	}
	done := make(chan error, 1)
	go func() { done <- d.Run(ctx, eventsource.DiscoveryHandlers{Discovered: act, Forgotten: act}) }()
	c.deliver(beacons, beaconItem("a", 1))
	c.deliver(beacons, beaconItem("b", 1))
	d.Add(eventsource.Info{ID: "x"})
	nd.Quiesce()
	d.Forget("x")
	c.deliver(beacons, beaconItem("last", 1))
	nd.Quiesce()
	_, ok := d.Get("last")
	nd.Assert(ok, "discovery no longer processes beacons")
	nd.Assert(calls >= 5, "notifications are no longer delivered")
	cancel()
	<-done
	nd.Quiesce()
	nd.Assert(nd.Goroutines() == 0 && c.openLinks() == 0, "goroutines or the receiver are left")
	nd.Cover("reentered")
}

// C21_Cancel: cancelling at any moment.
func C21_Cancel() {
	c := newFcont()
	d := eventsource.NewDiscovery(c, eventsource.DiscoveryOptions{})
	l := &dlog{}
	if nd.Choose("stuck", 2) == 1 {
		l.gate = make(chan struct{})
	}
	ctx, cancel := context.WithCancel(context.Background())
	var wg sync.WaitGroup
	for i := 0; i < nd.Param("n", 2); i++ {
		c.deliver(beacons, beaconItem(fmt.Sprint("s", i), 1))
	}
	wg.Add(1)
	go func() { defer wg.Done(); cancel() }()
	err := d.Run(ctx, l.handlers())
	nd.Assert(errors.Is(err, context.Canceled), "Run does not report the end of its context")
	wg.Wait()
	if l.gate != nil {
		close(l.gate)
	}
	nd.Quiesce()
	nd.Assert(nd.Goroutines() == 0 && c.openLinks() == 0, "goroutines or the receiver are left")
	nd.Cover("cancelled")
}

const sec = int(time.Second)

// watched: discovery of a source with a watch on it, under a script of beacons, adds, forgets and messages of the source.
func watched(check bool) {
	c := newFcont()
	d := eventsource.NewDiscovery(c, eventsource.DiscoveryOptions{})
	l := &dlog{}
	ctx, cancel := context.WithCancel(context.Background())
	done := make(chan error, 1)
	go func() { done <- d.Run(ctx, l.handlers()) }()
	info := eventsource.Info{ID: "s", Address: "addr", Direct: "direct", LastSeen: time.Now()}
	d.Add(info)
	client := eventsource.NewClient(c, eventsource.ClientOptions{Source: info})
	nd.Assert(d.NewWatchClient(ctx, eventsource.WatchConfig{Client: client, ID: "s", Timeout: time.Hour}) == nil, "a known source cannot be watched")
	client.Listen(ctx, providers[0].p)
	nd.Quiesce()
	known := true
	base, act := info.LastSeen, info.LastSeen // the latest beacon and the latest activity
	prev := base
	for i := 0; i < nd.Param("n", 2); i++ {
		if nd.Choose("pause", 2) == 1 {
			time.Sleep(time.Duration(nd.IntRange("gap", 1, 2*sec)))
			nd.Quiesce()
		}
		now := time.Now()
		switch nd.Choose("op", 5) {
		case 0:
			c.deliver(beacons, beaconItem("s", 0))
			if !known {
				act, prev = now, now
			}
			known, base = true, now
		case 1:
			in := info
			in.LastSeen = now
			nd.Assert(d.Add(in) == !known, "add reports wrongly whether the source is new")
			if !known {
				known, base, act, prev = true, now, now, now
			}
		case 2:
			nd.Assert(d.Forget("s") == known, "forget reports wrongly whether the source was known")
			known = false
		case 3:
			c.deliver("addr", fitem{msg: hbMsg("s", 1, 1)})
			act = now
		case 4:
			c.deliver("addr", fitem{msg: recMsg([]string{"r"}, "n")})
			act = now
		}
		if nd.Choose("wait", 2) == 1 {
			time.Sleep(1100 * time.Millisecond)
		}
		nd.Quiesce()
		g, ok := d.Get("s")
		nd.Assert(len(d.List()) == len(l.all())%2, "the listed sources are not those reported")
		if check {
			nd.Assert(ok == known, "the source is known although it is not live, or not although it is")
			if ok {
				nd.Assert(!g.LastSeen.Before(base), "the last-seen time is before the latest beacon")
				nd.Assert(!g.LastSeen.Before(prev), "the last-seen time moved backwards")
				nd.Assert(!g.LastSeen.After(base) || !g.LastSeen.After(act), "the last-seen time is later than anything seen")
				prev = g.LastSeen
			}
		}
	}
	c.deliver(beacons, beaconItem("last", 1))
	nd.Quiesce()
	_, ok := d.Get("last")
	nd.Assert(ok, "discovery no longer processes beacons")
	cancel()
	<-done
	nd.Quiesce()
	nd.Assert(nd.Goroutines() == 0 && c.openLinks() == 0, "goroutines or links are left")
	nd.Cover("watched")
}

// C20_Watched: the watch of a source neither brings it back nor moves its last-seen time wrongly.
func C20_Watched() { watched(true) }

// C21_Watched: discovery keeps going with a watched source, known or not.
func C21_Watched() { watched(false) }

// C22_Watch: a watched source with activity at arbitrary times.
func C22_Watch() {
	c := newFcont()
	d := eventsource.NewDiscovery(c, eventsource.DiscoveryOptions{})
	l := &dlog{}
	ctx, cancel := context.WithCancel(context.Background())
	wctx, wcancel := context.WithCancel(context.Background())
	dctx, dcancel := context.WithCancel(context.Background())
	done := make(chan error, 1)
	go func() { done <- d.Run(dctx, l.handlers()) }()
	info := eventsource.Info{ID: "s", Address: "addr", Direct: "direct"}
	client := eventsource.NewClient(c, eventsource.ClientOptions{Source: info})
	nd.Assert(d.NewWatchClient(ctx, eventsource.WatchConfig{Client: client, ID: "s", Timeout: time.Second}) != nil, "an unknown source can be watched")
	info.LastSeen = time.Now()
	d.Add(info)
	client.Listen(ctx, providers[0].p)
	nd.Quiesce()

	timeout := time.Duration(nd.IntRange("timeout", 1, 3*sec))
	grace := time.Duration(nd.IntRange("grace", 0, 3*sec))
	every := time.Second
	cfg := eventsource.WatchConfig{Client: client, ID: "s", Timeout: timeout, GracePeriod: grace}
	if nd.Choose("interval", 2) == 1 {
		every = time.Duration(nd.IntRange("every", sec/2, 2*sec))
		cfg.DiscoveryUpdateInterval = every
	}
	start := time.Now()
	nd.Assert(d.NewWatchClient(wctx, cfg) == nil, "a known source cannot be watched")
	nd.Quiesce()
	n := nd.Choose("n", nd.Param("n", 2)+1)
	var acts []time.Time
	gone := func() bool { return len(l.all()) > 1 }
	for i := 0; i < n; i++ {
		time.Sleep(time.Duration(nd.IntRange("gap", 0, 3*sec)))
		nd.Quiesce()
		if gone() {
			break
		}
		acts = append(acts, time.Now())
		if nd.Choose("what", 2) == 0 {
			c.deliver("addr", fitem{msg: hbMsg("s", 1, 1)})
		} else {
			c.deliver("addr", fitem{msg: recMsg([]string{"r"}, "n")})
		}
		nd.Quiesce()
	}
	due := start.Add(grace + timeout)
	late := due
	last := info.LastSeen
	if len(acts) > 0 {
		last = acts[len(acts)-1]
		late = last.Add(timeout + every)
		due = last.Add(timeout)
	}
	if w := time.Until(late); w > 0 {
		time.Sleep(w)
		nd.Quiesce()
	}
	// anything due at this very moment
	time.Sleep(1)
	nd.Quiesce()
	evs := l.all()
	nd.Assert(len(evs) == 2 && evs[1].forgotten, "a silent source was not forgotten in time")
	f := evs[1]
	nd.Assert(!f.at.Before(due), "the source was forgotten too early")
	nd.Assert(f.info.LastSeen.Equal(last), "the last-seen time is not that of the last activity")
	_, ok := d.Get("s")
	nd.Assert(!ok, "the source is still known")
	nd.Assert(len(c.recvs) == 2 && c.recvs[1].closed.Load() > 0 || c.recvs[0].closed.Load() > 0, "the client of a forgotten source is not closed")
	cancel()
	wcancel()
	dcancel()
	<-done
	nd.Quiesce()
	nd.Assert(nd.Goroutines() == 0 && c.openLinks() == 0, "goroutines or links are left")
	nd.Cover(fmt.Sprintf("%d active", len(acts)))
}

// C22_Alive: a source is not forgotten before its time, and its last-seen time advances; cancelling does not forget it.
func C22_Alive() {
	c := newFcont()
	d := eventsource.NewDiscovery(c, eventsource.DiscoveryOptions{})
	info := eventsource.Info{ID: "s", Address: "addr", Direct: "direct", LastSeen: time.Now()}
	client := eventsource.NewClient(c, eventsource.ClientOptions{Source: info})
	d.Add(info)
	ctx, cancel := context.WithCancel(context.Background())
	wctx, wcancel := context.WithCancel(context.Background())
	client.Listen(ctx, providers[0].p)
	timeout := time.Duration(nd.IntRange("timeout", 0, 3*sec)) // none, perhaps
	grace := time.Duration(nd.IntRange("grace", 0, 3*sec))
	nd.Assert(d.NewWatchClient(wctx, eventsource.WatchConfig{Client: client, ID: "s", Timeout: timeout, GracePeriod: grace}) == nil, "a known source cannot be watched")
	nd.Quiesce()
	start := time.Now()
	seen := info.LastSeen
	n := nd.Param("n", 2)
	until := start.Add(grace + timeout)
	for i := 0; i < n; i++ {
		gap := time.Duration(nd.IntRange("gap", 0, 2*sec))
		if timeout > 0 {
			nd.Assume(time.Now().Add(gap).Before(until))
		}
		time.Sleep(gap)
		nd.Quiesce()
		in, ok := d.Get("s")
		nd.Assert(ok, "a source was forgotten before its time")
		nd.Assert(!in.LastSeen.Before(seen), "the last-seen time moved backwards")
		seen = in.LastSeen
		c.deliver("addr", fitem{msg: hbMsg("s", 1, 1)})
		nd.Quiesce()
		until = time.Now().Add(timeout)
	}
	act := time.Now()
	if timeout == 0 {
		time.Sleep(5 * time.Second)
		nd.Quiesce()
	} else {
		wait := time.Duration(nd.IntRange("wait", 0, 3*sec))
		nd.Assume(time.Now().Add(wait).Before(until))
		time.Sleep(wait)
		nd.Quiesce()
	}
	in, ok := d.Get("s")
	nd.Assert(ok, "a source was forgotten before its time")
	nd.Assert(!in.LastSeen.Before(seen), "the last-seen time moved backwards")
	if n > 0 && time.Since(act) > time.Second {
		nd.Assert(in.LastSeen.Equal(act), "the last-seen time did not advance with the activity")
		nd.Cover("advanced")
	}
	wcancel()
	nd.Quiesce()
	_, ok = d.Get("s")
	nd.Assert(ok, "cancelling the watch forgot the source")
	nd.Assert(c.openLinks() == 0 && nd.Goroutines() == 0, "cancelling the watch did not close the client")
	time.Sleep(10 * time.Second)
	nd.Quiesce()
	_, ok = d.Get("s")
	nd.Assert(ok, "a cancelled watch forgot the source")
	cancel()
	nd.Quiesce()
	nd.Cover("alive")
}
