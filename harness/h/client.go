package h

import (
	"context"
	"errors"
	"sync"
	"sync/atomic"

	amqp "github.com/Azure/go-amqp"
	"github.com/c-kruse/vanflow"
	"github.com/c-kruse/vanflow/eventsource"

	"verif/harness/nd"
)

var errFake = errors.New("fake failure")

// a message or fault arriving at a client's receiver, and what handlers should see of it
type arrival struct {
	it   fitem
	kind int // 0 record, 1 heartbeat, 2 neither
	id   string
	name string
	now  uint64
	ver  uint32
	n    int // records
}

func hbMsg(id string, ver uint32, now uint64) *amqp.Message {
	return vanflow.HeartbeatMessage{Identity: id, Version: ver, Now: now}.Encode()
}

func recMsg(ids []string, name string) *amqp.Message {
	var m vanflow.RecordMessage
	for _, id := range ids {
		m.Records = append(m.Records, vanflow.SiteRecord{BaseRecord: vanflow.BaseRecord{ID: id}, Name: ptr(name)})
	}
	msg, err := m.Encode()
	nd.Assert(err == nil, "encoding a record message failed")
	return msg
}

const arrivalKinds = 12

func chooseArrival(kinds int) arrival {
	var a arrival
	a.kind = 2
	c := nd.Choose("arrival", kinds)
	// ordered so that small bounds on the kinds keep the important ones
	switch c {
	case 0, 3:
		a.kind, a.id, a.name, a.n = 0, nd.StringN("id", 1), nd.String("name", 1), 1
		ids := []string{a.id}
		if c == 3 {
			a.n = 2
			ids = append(ids, "z")
		}
		a.it.msg = recMsg(ids, a.name)
	case 1:
		a.kind, a.id, a.ver, a.now = 1, nd.StringN("id", 1), nd.Uint32("ver"), nd.Uint64("now")
		a.it.msg = hbMsg(a.id, a.ver, a.now)
	case 2: // cannot be decoded
		a.it.msg = &amqp.Message{Properties: &amqp.MessageProperties{Subject: ptr("RECORD")}, Value: nd.String("body", 1)}
	case 4:
		a.it.err = errFake
	case 5:
		a.it.msg, a.it.accErr = hbMsg("a", 1, 1), errFake
	case 6:
		a.it.msg = &amqp.Message{}
	case 7:
		a.it.msg = &amqp.Message{Properties: &amqp.MessageProperties{}}
	case 8:
		a.it.msg = vanflow.BeaconMessage{Identity: "a"}.Encode()
	case 9:
		a.it.msg = vanflow.FlushMessage{}.Encode()
	case 10:
		a.it.msg = &amqp.Message{Properties: &amqp.MessageProperties{Subject: ptr("OTHER")}}
	case 11:
		a.it.msg = recMsg([]string{"a"}, "n")
		a.it.msg.Value = []any{map[any]any{"x": 1}}
	}
	return a
}

func (a arrival) isRecord(m vanflow.RecordMessage) bool {
	if a.kind != 0 || len(m.Records) != a.n {
		return false
	}
	ok := true
	for i, r := range m.Records {
		typ, id, name, extra, rest := recFields(r)
		want := a.id
		if i == 1 {
			want = "z"
		}
		ok = and(ok, typ == 0 && extra == "" && rest, id == want, name == a.name)
	}
	return ok
}

func (a arrival) isHeartbeat(m vanflow.HeartbeatMessage) bool {
	return a.kind == 1 && and(m.Identity == a.id, m.Version == a.ver, m.Now == a.now)
}

type cliLog struct {
	mu   sync.Mutex
	recs []vanflow.RecordMessage
	hbs  []vanflow.HeartbeatMessage
}

func (l *cliLog) record(m vanflow.RecordMessage) {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.recs = append(l.recs, m)
}

func (l *cliLog) heartbeat(m vanflow.HeartbeatMessage) {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.hbs = append(l.hbs, m)
}

func (l *cliLog) check(items []arrival, what string) {
	l.mu.Lock()
	defer l.mu.Unlock()
	r, h := 0, 0
	for _, a := range items {
		switch a.kind {
		case 0:
			nd.Assert(r < len(l.recs), what+": a record message was not passed on")
			nd.Assert(a.isRecord(l.recs[r]), what+": the record message passed on is not the one received next")
			r++
		case 1:
			nd.Assert(h < len(l.hbs), what+": a heartbeat was not passed on")
			nd.Assert(a.isHeartbeat(l.hbs[h]), what+": the heartbeat passed on is not the one received next")
			h++
		}
	}
	nd.Assert(r == len(l.recs), what+": more record messages were passed on than received")
	nd.Assert(h == len(l.hbs), what+": more heartbeats were passed on than received")
}

var providers = []struct {
	p      eventsource.ListenerConfigProvider
	suffix string
}{
	{eventsource.FromSourceAddress(), ""},
	{eventsource.FromSourceAddressHeartbeats(), ".heartbeats"},
	{eventsource.FromSourceAddressFlows(), ".flows"},
	{eventsource.FromSourceAddressLogs(), ".logs"},
}

// C23_Handle: what handlers see of an arbitrary sequence of messages and faults.
func C23_Handle() {
	n := nd.Param("n", 2)
	c := newFcont()
	cl := eventsource.NewClient(c, eventsource.ClientOptions{Source: eventsource.Info{ID: "s", Address: "addr", Direct: "direct"}})
	prov := providers[nd.Choose("provider", nd.Param("providers", 1))]
	var before, after, late cliLog
	cl.OnRecord(before.record)
	cl.OnHeartbeat(before.heartbeat)
	ctx, cancel := context.WithCancel(context.Background())
	nd.Assert(cl.Listen(ctx, prov.p) == nil, "listening failed")
	cl.OnHeartbeat(after.heartbeat)
	cl.OnRecord(after.record)
	nd.Quiesce()
	lateAt := nd.Choose("late", n+1)
	burst := nd.Choose("burst", 2) == 1 // deliver without waiting for the client
	var items []arrival
	for i := 0; i < n; i++ {
		items = append(items, chooseArrival(nd.Param("kinds", arrivalKinds)))
	}
	for i, a := range items {
		if i == lateAt {
			nd.Quiesce()
			cl.OnRecord(late.record)
			cl.OnHeartbeat(late.heartbeat)
		}
		c.deliver("addr"+prov.suffix, a.it)
		if !burst {
			nd.Quiesce()
		}
	}
	nd.Quiesce()
	before.check(items, "handler")
	after.check(items, "handler registered after listening started")
	if lateAt < n {
		late.check(items[lateAt:], "handler registered later")
	}
	nd.Assert(len(c.recvs) == 1, "not one receiver")
	// every message is accepted once, in order
	r := c.recvs[0]
	j := 0
	for _, a := range items {
		if a.it.msg == nil || a.it.accErr != nil {
			continue
		}
		if a.kind == 2 && !(j < len(r.accepted) && r.accepted[j] == a.it.msg) {
			continue
		}
		nd.Assert(j < len(r.accepted) && r.accepted[j] == a.it.msg, "a message received was not accepted exactly once")
		j++
	}
	nd.Assert(j == len(r.accepted), "something was accepted more than once")
	nd.Cover("handled")
	cancel()
	nd.Quiesce()
	nd.Assert(c.openLinks() == 0 && nd.Goroutines() == 0, "the listener did not end with its context")
}

// C23_Listeners: listeners on several addresses; each address's messages in order, each once.
func C23_Listeners() {
	k := nd.Param("listeners", 2)
	n := nd.Param("n", 2)
	c := newFcont()
	cl := eventsource.NewClient(c, eventsource.ClientOptions{Source: eventsource.Info{ID: "s", Address: "addr", Direct: "direct"}})
	var mu sync.Mutex
	var got []uint64
	cl.OnHeartbeat(func(m vanflow.HeartbeatMessage) {
		mu.Lock()
		defer mu.Unlock()
		got = append(got, m.Now)
	})
	now := nd.Uint64("now")
	for i := 0; i < k; i++ {
		for j := 0; j < n; j++ {
			c.deliver("addr"+providers[i].suffix, fitem{msg: hbMsg("a", 1, now+uint64(10*i+j))})
		}
	}
	ctx, cancel := context.WithCancel(context.Background())
	for i := 0; i < k; i++ {
		cl.Listen(ctx, providers[i].p)
	}
	nd.Quiesce()
	next := make([]int, k)
	for _, g := range got {
		found := false
		for i := 0; i < k; i++ {
			if next[i] < n && g == now+uint64(10*i+next[i]) {
				next[i]++
				found = true
				break
			}
		}
		nd.Assert(found, "a message was handled twice, out of order or changed")
	}
	nd.Assert(len(got) == k*n, "not every message was handled")
	cancel()
	nd.Quiesce()
	nd.Assert(c.openLinks() == 0 && nd.Goroutines() == 0, "the listeners did not end with their context")
	nd.Cover("both")
}

// C24_Close: closing with listeners starting, messages arriving and handlers using the client.
func C24_Close() {
	c := newFcont()
	cl := eventsource.NewClient(c, eventsource.ClientOptions{Source: eventsource.Info{ID: "s", Address: "addr", Direct: "direct"}})
	var closed atomic.Bool
	handler := nd.Choose("handler", 3)
	handle := func() {
		nd.Assert(!closed.Load(), "a handler runs after Close returned")
		switch handler {
		case 1:
			cl.OnRecord(func(vanflow.RecordMessage) {})
		case 2:
			cl.Listen(context.Background(), providers[1].p)
		}
		nd.Assert(!closed.Load(), "Close returned while a handler was running")
	}
	cl.OnRecord(func(vanflow.RecordMessage) { handle() })
	cl.OnHeartbeat(func(vanflow.HeartbeatMessage) { handle() })
	msgs := nd.Param("msgs", 1)
	stall := handler == 0 && nd.Choose("accept stalls", 2) == 1
	for i := 0; i < msgs; i++ {
		if i%2 == 0 {
			c.deliver("addr", fitem{msg: hbMsg("a", 1, 1), stall: stall})
		} else {
			c.deliver("addr", fitem{msg: recMsg([]string{"a"}, "n"), stall: stall})
		}
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	before := nd.Choose("before", nd.Param("listeners", 1)+1)
	for i := 0; i < before; i++ {
		cl.Listen(ctx, providers[0].p)
	}
	if nd.Choose("settled", 2) == 1 {
		nd.Quiesce()
	}
	var wg sync.WaitGroup
	closeIt := func() {
		cl.Close()
		closed.Store(true)
	}
	switch nd.Choose("concurrently", 4) {
	case 1: // another listener starts
		wg.Add(1)
		go func() { defer wg.Done(); cl.Listen(ctx, providers[nd.Param("second", 0)].p) }()
	case 2: // another Close
		wg.Add(1)
		go func() { defer wg.Done(); closeIt() }()
	case 3: // a listener's context ends
		wg.Add(1)
		go func() { defer wg.Done(); cancel() }()
	}
	cl.Close()
	closed.Store(true)
	for _, r := range c.opened() {
		nd.Assert(r.closed.Load() > 0, "a receiver is still open when Close returns")
	}
	wg.Wait()
	for i := nd.Choose("again", 2); i > 0; i-- {
		cl.Close()
	}
	if nd.Choose("listen after", 2) == 1 {
		cl.Listen(ctx, providers[0].p)
		c.deliver("addr", fitem{msg: hbMsg("a", 1, 1)})
	}
	cl.OnHeartbeat(func(vanflow.HeartbeatMessage) {})
	nd.Quiesce()
	nd.Assert(c.openLinks() == 0, "a receiver is still open after Close")
	nd.Assert(nd.Goroutines() == 0, "a goroutine of the client outlives Close")
	nd.Cover("closed")
}

// C25_Flush: waiting for the first message.
func C25_Flush() {
	c := newFcont()
	direct := nd.String("direct", 2)
	cl := eventsource.NewClient(c, eventsource.ClientOptions{Source: eventsource.Info{ID: "s", Address: "addr", Direct: direct}})
	var handled atomic.Int32
	cl.OnHeartbeat(func(vanflow.HeartbeatMessage) { handled.Add(1) })
	cl.OnRecord(func(vanflow.RecordMessage) { handled.Add(1) })
	mode := nd.Choose("send", 3)
	c.send = func(ctx context.Context, addr string, n int) error {
		nd.Assert(handled.Load() > 0, "a flush was sent before any message was received")
		switch mode {
		case 1:
			return errFake
		case 2:
			<-ctx.Done()
			return ctx.Err()
		}
		return nil
	}
	ctx, cancel := context.WithCancel(context.Background())
	lctx, lcancel := context.WithCancel(context.Background())
	listeners := nd.Param("listeners", 2)
	n := nd.Param("n", 2)
	useful := 0
	for i := 0; i < n; i++ {
		a := chooseArrival(3)
		if a.kind < 2 {
			useful++
		}
		c.deliver("addr"+providers[i%listeners].suffix, a.it)
	}
	when := nd.Choose("cancel", 3)
	if when == 1 {
		cancel() // before
	}
	var err error
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		err = eventsource.FlushOnFirstMessage(ctx, cl)
	}()
	if nd.Choose("waiting", 2) == 1 {
		nd.Quiesce() // the wait has begun before anything arrives
	}
	for i := 0; i < listeners; i++ {
		cl.Listen(lctx, providers[i].p)
	}
	if when == 2 {
		cancel() // any time
	}
	nd.Quiesce()
	attempts := c.count[direct]
	nd.Assert(len(c.count) == 0 || len(c.count) == 1 && attempts == 1, "not at most one message was sent, or it was sent to another address")
	for _, m := range c.onAddr(direct) {
		d, err := vanflow.Decode(m.msg)
		f, ok := d.(vanflow.FlushMessage)
		nd.Assert(err == nil && ok, "something else than a flush was sent")
		nd.Assert(f.To == direct, "the flush is not addressed to the source's direct address")
	}
	if useful == 0 {
		nd.Assert(attempts == 0, "a flush was sent without a message received")
	}
	cancel()
	wg.Wait()
	delivered := len(c.onAddr(direct))
	if err == nil {
		nd.Assert(delivered == 1, "success was reported without exactly one flush sent")
		nd.Cover("flushed")
	} else {
		nd.Assert(delivered == 0, "the flush was sent but an error was reported")
		if attempts == 0 {
			nd.Assert(errors.Is(err, context.Canceled), "not the context's error")
			nd.Cover("cancelled")
		} else if mode == 1 {
			nd.Assert(errors.Is(err, errFake) || errors.Is(err, context.Canceled), "another error than the sender's")
			nd.Cover("failed")
		}
	}
	lcancel()
	nd.Quiesce()
	nd.Assert(nd.Goroutines() == 0 && c.openLinks() == 0, "goroutines or links are left")
}

// C25_Sure: a message after the wait began is always answered.
func C25_Sure() {
	c := newFcont()
	cl := eventsource.NewClient(c, eventsource.ClientOptions{Source: eventsource.Info{ID: "s", Address: "addr", Direct: "direct"}})
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	if nd.Choose("listening", 2) == 1 {
		cl.Listen(ctx, providers[0].p)
	} else {
		defer cl.Listen(ctx, providers[0].p)
	}
	var wg sync.WaitGroup
	var err error
	returned := false
	wg.Add(1)
	go func() {
		defer wg.Done()
		err = eventsource.FlushOnFirstMessage(ctx, cl)
		returned = true
	}()
	nd.Quiesce()
	nd.Assert(!returned && len(c.sent) == 0, "the wait ended before any message was received")
	cl.Listen(ctx, providers[1].p)
	n := nd.Param("n", 3)
	sent := 0
	for i := 0; i < n; i++ {
		a := chooseArrival(nd.Param("kinds", arrivalKinds))
		c.deliver("addr"+providers[1].suffix, a.it)
		nd.Quiesce()
		if a.kind < 2 {
			sent = 1
		}
		nd.Assert(len(c.onAddr("direct")) == sent && len(c.sent) == sent, "not exactly one flush after the first heartbeat or record")
		nd.Assert(returned == (sent == 1), "the wait did not end with the flush")
	}
	if sent == 1 {
		wg.Wait()
		nd.Assert(err == nil, "an error was reported")
		nd.Cover("sent")
	}
	cancel()
	nd.Quiesce()
}
