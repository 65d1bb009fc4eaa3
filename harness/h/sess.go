package h

import (
	"context"
	"fmt"
	"sync"
	"sync/atomic"
	"time"

	amqp "github.com/Azure/go-amqp"
	"github.com/c-kruse/vanflow/session"
	"github.com/cenkalti/backoff/v4"

	"verif/harness/nd"
)

// policy is a back-off policy with given delays, the last repeated; it gives up when asked for more than max.
type policy struct {
	mu     sync.Mutex
	delays []time.Duration
	max    int // 0: never give up
	i      int
	asked  int
	given  []time.Duration
}

func (p *policy) NextBackOff() time.Duration {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.asked++
	if p.max > 0 && p.i >= p.max {
		return -1
	}
	d := p.delays[min(p.i, len(p.delays)-1)]
	p.i++
	p.given = append(p.given, d)
	return d
}

func (p *policy) Reset() {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.i = 0
}

// sess is a container, and the peer its connections talk to.
type sess struct {
	p      *amqp.Peer
	c      session.Container
	ctx    context.Context
	cancel context.CancelFunc
	bo     *policy

	// the number of next attempts to fail
	mu                     sync.Mutex
	dials, begins, attachs int
	dialTimes              []time.Time
}

func (s *sess) take(n *int) bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	if *n > 0 {
		*n--
		return true
	}
	return false
}

func (s *sess) fail(n *int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	*n++
}

func newSess(bo *policy) *sess {
	s := newSessWith(nil)
	s.bo = bo
	cfg := session.ContainerConfig{ContainerID: "id"}
	if bo != nil {
		cfg.BackOff = bo
	}
	s.c = session.NewContainer("amqp://router", cfg)
	return s
}

// newSessWith makes a container with some policy.
func newSessWith(bo backoff.BackOff) *sess {
	s := &sess{p: &amqp.Peer{}}
	amqp.ThePeer = s.p
	s.p.OnDial = func(ctx context.Context, addr string, opts *amqp.ConnOptions) error {
		s.mu.Lock()
		s.dialTimes = append(s.dialTimes, time.Now())
		s.mu.Unlock()
		if s.take(&s.dials) {
			return errFake
		}
		return nil
	}
	s.p.OnSession = func(ctx context.Context, c *amqp.Conn) error {
		if s.take(&s.begins) {
			return errFake
		}
		return nil
	}
	s.p.OnAttach = func(ctx context.Context, l *amqp.Link) error {
		if s.take(&s.attachs) {
			return errFake
		}
		return nil
	}
	s.ctx, s.cancel = context.WithCancel(context.Background())
	cfg := session.ContainerConfig{ContainerID: "id", BackOff: bo}
	s.c = session.NewContainer("amqp://router", cfg)
	return s
}

func anyDur(label string) time.Duration {
	return time.Duration(nd.IntRange(label, 1, 10*sec))
}

func (s *sess) dialed() []time.Time {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]time.Time(nil), s.dialTimes...)
}

// anyDelay redials after a delay of between 1 ms and 5 s.
func anyDelay() *policy {
	return &policy{delays: []time.Duration{time.Duration(nd.IntRange("delay", sec/1000, 5*sec))}}
}

func (s *sess) open() (cs []*amqp.Conn) {
	for _, c := range s.p.Conns() {
		if c.Alive() {
			cs = append(cs, c)
		}
	}
	return cs
}

// live are the links attached to an address that are in use.
func (s *sess) live(addr string) (ls []*amqp.Link) {
	for _, l := range s.p.Links() {
		if l.Address == addr && !l.Closed() {
			ls = append(ls, l)
		}
	}
	return ls
}

// settle lets the container finish reconnecting.
func (s *sess) settle() {
	nd.Quiesce()
	time.Sleep(20 * time.Second)
	nd.Quiesce()
}

func textMsg(s string) *amqp.Message {
	return &amqp.Message{Value: s}
}

func textOf(m *amqp.Message) string {
	if m == nil {
		return "<nil>"
	}
	t, ok := m.Value.(string)
	nd.Assert(ok, "another message")
	return t
}

// inbox receives until its context ends.
type inbox struct {
	mu   sync.Mutex
	got  []string
	done sync.WaitGroup
}

func (b *inbox) run(ctx context.Context, r session.Receiver) {
	b.done.Add(1)
	go func() {
		defer b.done.Done()
		for {
			m, err := r.Next(ctx)
			if err != nil {
				nd.Assert(ctx.Err() != nil, "receiving failed although its context has not ended")
				return
			}
			nd.Assert(m != nil, "received nothing")
			b.mu.Lock()
			b.got = append(b.got, textOf(m))
			b.mu.Unlock()
			r.Accept(ctx, m)
		}
	}()
}

func (b *inbox) count(t string) (n int) {
	b.mu.Lock()
	defer b.mu.Unlock()
	for _, g := range b.got {
		if g == t {
			n++
		}
	}
	return n
}

// fault makes something fail now or next.
func (s *sess) fault(k int) {
	switch k {
	case 1:
		for _, c := range s.open() {
			c.Break("lost")
		}
	case 2:
		if ls := s.live("in"); len(ls) > 0 {
			ls[len(ls)-1].Session.Break("ended")
		}
	case 3:
		for _, l := range s.live("in") {
			l.Break("detached")
		}
	case 4:
		for _, l := range s.live("out") {
			l.Break("detached")
		}
	case 5:
		s.fail(&s.attachs)
	case 6:
		s.fail(&s.dials)
	case 7:
		s.fail(&s.begins)
	}
}

// C30_Recover: after any faults, a receiver and a sender work again.
func C30_Recover() {
	s := newSess(anyDelay())
	defer s.cancel()
	bg := context.Background()
	early := nd.Choose("start", 2) == 1
	if early {
		s.c.Start(s.ctx)
		if nd.Choose("started", 2) == 1 {
			nd.Quiesce()
		}
	}
	rcv := s.c.NewReceiver("in", session.ReceiverOptions{Credit: 2})
	snd := s.c.NewSender("out", session.SenderOptions{})
	var in inbox
	in.run(s.ctx, rcv)
	if !early {
		s.c.Start(s.ctx)
	}
	n := nd.Param("n", 2)
	links := false // a link failed by itself, which only its next use can show
	for i := 0; i < n; i++ {
		if nd.Choose("quiet", 2) == 1 {
			nd.Quiesce()
		}
		k := nd.Choose("fault", nd.Param("faults", 8))
		if k == 4 || k == 5 {
			links = true
		}
		s.fault(k)
		if nd.Choose("send", nd.Param("sends", 2)) == 1 {
			// may fail, which is no reason not to work later
			m := textMsg("try")
			before := len(s.sentOn("out"))
			err := snd.Send(bg, m)
			if err == nil {
				nd.Assert(len(s.sentOn("out")) == before+1, "a send succeeded without a message sent")
			}
		}
	}
	s.settle()
	ls := s.live("in")
	nd.Assert(len(ls) == 1 && ls[0].Receiver, "not one receiver is attached after the failures")
	ls[0].Queue <- textMsg("after")
	nd.Quiesce()
	nd.Assert(in.count("after") == 1, "a message was not received after the failures")
	err := snd.Send(bg, textMsg("a"))
	if err != nil {
		nd.Assert(links, "a send fails although a new session is in use")
		s.settle()
		nd.Cover("stale send")
		err = snd.Send(bg, textMsg("a"))
		nd.Assert(err == nil, "sending does not recover")
	}
	s.settle()
	out := s.live("out")
	nd.Assert(len(out) == 1 && !out[0].Receiver, "not one sender is attached after the failures")
	sent := out[0].Sent
	nd.Assert(len(sent) > 0 && textOf(sent[len(sent)-1]) == "a", "the message was not sent on the working session")
	nd.Assert(len(s.live("in")) == 1, "no receiver is attached")
	nd.Assert(len(s.open()) == 1, "not one connection is open")
	nd.Cover(fmt.Sprintf("%d connections", len(s.p.Conns())))
	s.cancel()
	in.done.Wait()
	nd.Quiesce()
	nd.Assert(len(s.open()) == 0, "a connection is left open after the container stopped")
	nd.Assert(nd.Goroutines() == 0, "a goroutine is left after the container stopped")
}

func (s *sess) sentOn(addr string) (ms []*amqp.Message) {
	for _, l := range s.p.Links() {
		if l.Address == addr {
			ms = append(ms, l.Sent...)
		}
	}
	return ms
}

// C30_Late: a failure of an old session reported while a newer session is in use.
func C30_Late() {
	s := newSess(anyDelay())
	defer s.cancel()
	bg := context.Background()
	release := make(chan struct{})
	var held atomic.Bool
	slow := nd.Choose("slow", 3)
	s.p.OnSend = func(ctx context.Context, l *amqp.Link, m *amqp.Message) error {
		if slow < 2 && textOf(m) == "slow" {
			// the error is slow to be noticed
			held.Store(true)
			<-release
			return l.Ended()
		}
		return nil
	}
	s.p.OnAttach = func(ctx context.Context, l *amqp.Link) error {
		if slow == 2 && !l.Receiver && held.CompareAndSwap(false, true) {
			// fails with the session
			<-l.Session.Gone()
			if nd.Choose("attach", 2) == 1 {
				<-release
			}
			return errFake
		}
		return nil
	}
	s.c.Start(s.ctx)
	snd := s.c.NewSender("out", session.SenderOptions{})
	other := snd
	if slow == 1 {
		other = s.c.NewSender("out", session.SenderOptions{})
	}
	rcv := s.c.NewReceiver("in", session.ReceiverOptions{Credit: 2})
	var in inbox
	in.run(s.ctx, rcv)
	if nd.Choose("used", 2) == 1 {
		if slow < 2 {
			nd.Assert(snd.Send(bg, textMsg("first")) == nil, "the first send failed")
		}
	}
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		err := snd.Send(bg, textMsg("slow"))
		nd.Assert(err != nil || slow == 2, "a send on a lost connection succeeded")
	}()
	nd.Quiesce()
	nd.Assert(held.Load(), "the send has not begun")
	nd.Assert(len(s.p.Conns()) == 1, "not one connection")
	s.p.Conns()[0].Break("lost")
	s.settle()
	nd.Assert(len(s.p.Conns()) == 2, "the container did not reconnect once")
	// the newer session is in use by the link whose old failure is still to be reported, or another
	if slow < 2 {
		for i := 0; i < 2; i++ {
			if other.Send(bg, textMsg("new")) == nil {
				break
			}
			nd.Assert(i == 0, "sending does not recover")
		}
		s.settle()
	}
	n := len(s.p.Conns())
	close(release)
	s.settle()
	wg.Wait()
	s.settle()
	nd.Assert(len(s.p.Conns()) == n && n == 2, "a late failure of an older session tore down the newer one")
	nd.Assert(len(s.open()) == 1 && len(s.live("in")) == 1, "the newer session is not in use")
	// nor does it keep the link from being used on the newer session
	for i := 0; nd.Param("last", 0) == 1; i++ {
		ctx, done := context.WithTimeout(bg, 10*time.Second)
		err := other.Send(ctx, textMsg("last"))
		done()
		if err == nil {
			break
		}
		nd.Assert(slow == 2 && i == 0, "sending does not recover")
	}
	if nd.Param("last", 0) == 1 {
		out := s.live("out")
		nd.Assert(len(out) == 1, "not one sender is attached after the failures")
		nd.Assert(textOf(out[0].Sent[len(out[0].Sent)-1]) == "last", "the message was not sent on the working session")
		nd.Assert(len(s.p.Conns()) == n, "a late failure of an older session tore down the newer one")
	}
	nd.Cover("late")
	s.cancel()
	in.done.Wait()
	nd.Quiesce()
}

// C30_Idle: links not in use while their session fails and another takes its place.
func C30_Idle() {
	s := newSess(anyDelay())
	defer s.cancel()
	bg := context.Background()
	s.c.Start(s.ctx)
	rcv := s.c.NewReceiver("idle", session.ReceiverOptions{Credit: 2})
	snd := s.c.NewSender("out", session.SenderOptions{})
	var in inbox
	in.run(s.ctx, s.c.NewReceiver("in", session.ReceiverOptions{Credit: 2}))
	nd.Quiesce()
	next := func() (*amqp.Message, error) {
		ctx, cancel := context.WithTimeout(bg, time.Second)
		defer cancel()
		return rcv.Next(ctx)
	}
	use := func(text string) {
		_, err := next() // attaches
		nd.Assert(err != nil, "received something")
		ls := s.live("idle")
		nd.Assert(len(ls) == 1, "an idle receiver is not attached once to the new session")
		ls[0].Queue <- textMsg(text)
		m, err := next()
		nd.Assert(err == nil && textOf(m) == text, "an idle receiver does not receive from the new session")
		nd.Assert(rcv.Accept(bg, m) == nil, "a message received from the new session cannot be accepted")
	}
	send := func(text string) {
		nd.Assert(snd.Send(bg, textMsg(text)) == nil, "an idle sender does not use the new session")
		out := s.live("out")
		nd.Assert(len(out) == 1, "an idle sender is not attached once to the new session")
		nd.Assert(textOf(out[0].Sent[len(out[0].Sent)-1]) == text, "the message was not sent on the working session")
	}
	if nd.Choose("received", 2) == 1 {
		use("first")
	}
	if nd.Choose("sent", 2) == 1 {
		send("first")
	}
	rounds := nd.Param("rounds", 2)
	for i := 0; i < rounds; i++ {
		s.fault(1 + nd.Choose("fault", 2))
		s.settle()
		if i+1 == rounds || nd.Choose("use", 2) == 1 {
			use(fmt.Sprint("r", i))
			send(fmt.Sprint("s", i))
		}
	}
	nd.Assert(len(s.open()) == 1 && len(s.p.Conns()) == 1+rounds, "not one connection per failure")
	nd.Assert(len(s.live("in")) == 1, "another receiver is not attached to the new session")
	nd.Cover("idle")
	s.cancel()
	in.done.Wait()
	nd.Quiesce()
}

// C30_GivenUp: operations that end with their own context leave the session alone.
func C30_GivenUp() {
	s := newSess(anyDelay())
	defer s.cancel()
	s.p.OnSend = func(ctx context.Context, l *amqp.Link, m *amqp.Message) error {
		if textOf(m) == "stuck" {
			return amqp.NoCredit(ctx, l)
		}
		return nil
	}
	stuck := nd.Choose("attach", 2) == 1
	s.p.OnAttach = func(ctx context.Context, l *amqp.Link) error {
		if stuck {
			select {
			case <-ctx.Done():
				return ctx.Err()
			case <-l.Gone():
				return l.Ended()
			}
		}
		return nil
	}
	s.c.Start(s.ctx)
	if nd.Choose("started", 2) == 1 {
		nd.Quiesce()
	}
	op := nd.Choose("op", 3)
	var rcv session.Receiver
	var snd session.Sender
	switch op {
	case 0:
		rcv = s.c.NewReceiver("in", session.ReceiverOptions{})
	default:
		snd = s.c.NewSender("out", session.SenderOptions{})
	}
	ctx, cancel := context.WithTimeout(context.Background(), anyDur("timeout"))
	defer cancel()
	if nd.Choose("cancel", 2) == 1 {
		go cancel()
	}
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		switch op {
		case 0:
			_, err := rcv.Next(ctx)
			nd.Assert(err != nil, "received something")
		case 1:
			nd.Assert(snd.Send(ctx, textMsg("stuck")) != nil, "a message that was not sent was reported sent")
		case 2:
			err := snd.Send(ctx, textMsg("ok"))
			nd.Assert(!stuck || err != nil, "a message that was not sent was reported sent")
		}
	}()
	// a second operation at the same time on the same link is not held up by the first
	if nd.Choose("second", 2) == 1 {
		d2 := anyDur("timeout 2")
		c2, cancel2 := context.WithTimeout(context.Background(), d2)
		defer cancel2()
		start := time.Now()
		if op == 0 {
			rcv.Next(c2)
		} else {
			snd.Send(c2, textMsg("second"))
		}
		nd.Assert(!time.Now().After(start.Add(d2)), "an operation outlasts its context")
	}
	wg.Wait()
	s.settle()
	stuck = false
	nd.Assert(len(s.p.Conns()) == 1 && len(s.open()) == 1, "an operation that was given up tore down the session")
	// and it works afterwards
	if op == 0 {
		go func() {
			nd.Quiesce()
			for _, l := range s.live("in") {
				l.Queue <- textMsg("m")
			}
		}()
		m, err := rcv.Next(context.Background())
		nd.Assert(err == nil && textOf(m) == "m", "receiving does not work after one was given up")
	} else {
		nd.Assert(snd.Send(context.Background(), textMsg("later")) == nil, "sending does not work after one was given up")
	}
	nd.Assert(len(s.p.Conns()) == 1, "an operation that was given up tore down the session")
	nd.Cover(fmt.Sprintf("op %d", op))
	s.cancel()
	nd.Quiesce()
}

// C30_Concurrent: operations at the same time as failures.
func C30_Concurrent() {
	s := newSess(anyDelay())
	defer s.cancel()
	bg := context.Background()
	s.c.Start(s.ctx)
	rcv := s.c.NewReceiver("in", session.ReceiverOptions{Credit: 2})
	snd := s.c.NewSender("out", session.SenderOptions{})
	var in inbox
	receivers := nd.Param("receivers", 1)
	for i := 0; i < receivers; i++ {
		in.run(s.ctx, rcv)
	}
	if nd.Choose("settled", 2) == 1 {
		nd.Quiesce()
		snd.Send(bg, textMsg("first"))
	}
	var wg sync.WaitGroup
	senders := nd.Param("senders", 2)
	for i := 0; i < senders; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			snd.Send(bg, textMsg("any"))
		}()
	}
	s.fault(nd.Choose("fault", nd.Param("faults", 5)))
	wg.Wait()
	s.settle()
	ls := s.live("in")
	nd.Assert(len(ls) == 1, "not one receiver is attached after the failures")
	ls[0].Queue <- textMsg("after")
	nd.Quiesce()
	nd.Assert(in.count("after") == 1, "a message was not received after the failures")
	err := snd.Send(bg, textMsg("a"))
	if err != nil {
		s.settle()
		nd.Assert(snd.Send(bg, textMsg("a")) == nil, "sending does not recover")
		s.settle()
	}
	nd.Assert(len(s.open()) == 1, "not one connection is open")
	nd.Assert(len(s.p.Conns()) <= 3, "more reconnections than failures")
	nd.Cover(fmt.Sprintf("%d connections", len(s.p.Conns())))
	s.cancel()
	in.done.Wait()
	nd.Quiesce()
}

// C31_Close: closing a sender or receiver in any state.
func C31_Close() {
	s := newSess(anyDelay())
	defer s.cancel()
	bg := context.Background()
	isRcv := nd.Choose("receiver", 2) == 1
	addr := "out"
	if isRcv {
		addr = "in"
	}
	state := nd.Choose("state", 7)
	var stuck atomic.Bool
	s.p.OnAttach = func(ctx context.Context, l *amqp.Link) error {
		if l.Address == addr && state == 2 && stuck.CompareAndSwap(false, true) {
			// the peer does not answer
			select {
			case <-ctx.Done():
				return ctx.Err()
			case <-l.Session.Gone():
				return errFake
			}
		}
		return nil
	}
	s.p.OnSend = func(ctx context.Context, l *amqp.Link, m *amqp.Message) error {
		if textOf(m) == "stuck" {
			return amqp.NoCredit(ctx, l)
		}
		return nil
	}
	s.p.OnAccept = func(ctx context.Context, l *amqp.Link, m *amqp.Message) error {
		if textOf(m) == "stuck" {
			select {
			case <-ctx.Done():
				return ctx.Err()
			case <-l.Gone():
				return l.Ended()
			}
		}
		return nil
	}
	silent := nd.Choose("silent", 2) == 1 // the peer does not acknowledge detaching
	s.p.OnDetach = func(ctx context.Context, l *amqp.Link) error {
		if silent {
			select {
			case <-ctx.Done():
				return ctx.Err()
			case <-l.Session.Gone():
			}
		}
		return nil
	}
	if state > 0 {
		s.c.Start(s.ctx)
		nd.Quiesce()
	}
	var rcv session.Receiver
	var snd session.Sender
	closeIt := func(ctx context.Context) error {
		if isRcv {
			return rcv.Close(ctx)
		}
		return snd.Close(ctx)
	}
	if isRcv {
		rcv = s.c.NewReceiver(addr, session.ReceiverOptions{Credit: 2})
	} else {
		snd = s.c.NewSender(addr, session.SenderOptions{})
	}
	// another link of the same container
	var in inbox
	in.run(s.ctx, s.c.NewReceiver("other", session.ReceiverOptions{}))
	if state >= 3 {
		// the link has been used
		if isRcv {
			ctx, cancel := context.WithTimeout(bg, time.Second)
			rcv.Next(ctx)
			cancel()
			if state == 4 {
				for _, l := range s.live(addr) {
					l.Queue <- textMsg("stuck")
				}
			}
		} else {
			nd.Assert(snd.Send(bg, textMsg("ok")) == nil, "sending failed")
		}
		nd.Quiesce()
	}
	if state == 6 {
		// and again after a reconnection
		s.p.Conns()[0].Break("lost")
		s.settle()
		if nd.Choose("reused", 2) == 1 {
			if isRcv {
				ctx, cancel := context.WithTimeout(bg, time.Second)
				rcv.Next(ctx)
				cancel()
			} else if snd.Send(bg, textMsg("ok")) != nil {
				nd.Assert(snd.Send(bg, textMsg("ok")) == nil, "sending failed")
			}
			nd.Quiesce()
		}
	}
	if state == 5 {
		s.p.Conns()[0].Break("lost")
		if nd.Choose("noticed", 2) == 1 {
			nd.Quiesce()
		}
	}
	var wg sync.WaitGroup
	ops := nd.Choose("ops", nd.Param("ops", 1)+1)
	for i := 0; i < ops; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if isRcv {
				m, err := rcv.Next(bg)
				if err != nil {
					return
				}
				nd.Assert(state == 4, "received something")
				err = rcv.Accept(bg, m)
				nd.Assert(err != nil, "a message that was not accepted was reported accepted")
			} else {
				nd.Assert(snd.Send(bg, textMsg("stuck")) != nil, "a message that was not sent was reported sent")
			}
		}()
	}
	if nd.Choose("pending", 2) == 1 {
		nd.Quiesce()
	}
	before := len(s.p.Conns())
	cctx, ccancel := context.WithCancel(bg)
	defer ccancel()
	limit := 3 * time.Second // more than it may take to notice
	if silent {
		// the caller does not wait longer than this for the peer
		var tcancel context.CancelFunc
		timeout := anyDur("timeout")
		limit += timeout
		cctx, tcancel = context.WithTimeout(bg, timeout)
		defer tcancel()
	}
	if nd.Choose("cancelled", 2) == 1 {
		ccancel()
	}
	if nd.Choose("twice", 2) == 1 {
		wg.Add(1)
		go func() { defer wg.Done(); closeIt(cctx) }()
	}
	closing := time.Now()
	closeIt(cctx)
	closeIt(cctx)
	wg.Wait()
	nd.Assert(time.Since(closing) <= limit, "closing, or an operation pending, hangs")
	// later operations
	later := func() error {
		if isRcv {
			if nd.Choose("later", 2) == 1 {
				return rcv.Accept(bg, textMsg("ok"))
			}
			_, err := rcv.Next(bg)
			return err
		}
		return snd.Send(bg, textMsg("ok"))
	}
	start := time.Now()
	nd.Assert(later() != nil, "an operation on a closed link succeeded")
	nd.Assert(!time.Now().After(start), "an operation on a closed link waits")
	if state == 0 {
		s.c.Start(s.ctx)
	}
	s.settle()
	nd.Assert(later() != nil, "an operation on a closed link succeeded")
	s.settle()
	nd.Assert(len(s.live(addr)) == 0, "a link is left open after closing")
	if state > 0 && state != 5 {
		nd.Assert(len(s.p.Conns()) == before, "closing a link tore down the session of others")
	}
	nd.Assert(len(s.open()) == 1, "not one connection is open")
	nd.Assert(len(s.live("other")) == 1, "another link does not work any more")
	s.live("other")[0].Queue <- textMsg("m")
	nd.Quiesce()
	nd.Assert(in.count("m") == 1, "another link does not work any more")
	nd.Cover(fmt.Sprintf("state %d", state))
	s.cancel()
	in.done.Wait()
	nd.Quiesce()
	nd.Assert(nd.Goroutines() == 0, "a goroutine is left after closing")
}

// C31_During: closing at any moment of an operation in progress, or of the container's reconnecting.
func C31_During() {
	s := newSess(anyDelay())
	defer s.cancel()
	bg := context.Background()
	s.c.Start(s.ctx)
	isRcv := nd.Choose("receiver", 2) == 1
	var rcv session.Receiver
	var snd session.Sender
	addr := "out"
	if isRcv {
		addr = "in"
		rcv = s.c.NewReceiver(addr, session.ReceiverOptions{})
	} else {
		snd = s.c.NewSender(addr, session.SenderOptions{})
	}
	if nd.Choose("settled", 2) == 1 {
		nd.Quiesce()
	}
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		for i := 0; i < nd.Param("tries", 2); i++ {
			if isRcv {
				if _, err := rcv.Next(bg); err == nil {
					nd.Fail("received something")
				}
			} else {
				snd.Send(bg, textMsg("m"))
			}
		}
	}()
	if nd.Choose("fault", 2) == 1 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			s.fault(1)
		}()
	}
	if isRcv {
		rcv.Close(bg)
	} else {
		snd.Close(bg)
	}
	wg.Wait()
	s.settle()
	nd.Assert(len(s.live(addr)) == 0, "a link is left open after closing")
	nd.Assert(len(s.p.Conns()) <= 2, "closing tore down a session")
	nd.Cover("closed")
	s.cancel()
	nd.Quiesce()
	nd.Assert(len(s.open()) == 0 && nd.Goroutines() == 0, "a connection or goroutine is left")
}

// C32_Attach: addresses and credit of every link, at first and after failures.
func C32_Attach() {
	s := newSess(anyDelay())
	defer s.cancel()
	type want struct {
		rcv    bool
		addr   string
		credit int
	}
	n := nd.Param("links", 2)
	var ws []want
	s.c.Start(s.ctx)
	if nd.Choose("started", 2) == 1 {
		nd.Quiesce()
	}
	var in inbox
	var snds []session.Sender
	for i := 0; i < n; i++ {
		w := want{addr: nd.String("address", nd.Param("len", 2))}
		for _, o := range ws {
			nd.Assume(o.addr != w.addr)
		}
		if nd.Choose("receiver", 2) == 1 {
			w.rcv = true
			w.credit = int(nd.Int64("credit"))
			nd.Assume(w.credit <= 1<<31-1)
			in.run(s.ctx, s.c.NewReceiver(w.addr, session.ReceiverOptions{Credit: w.credit}))
		} else {
			snd := s.c.NewSender(w.addr, session.SenderOptions{})
			snds = append(snds, snd)
		}
		ws = append(ws, w)
	}
	send := func() {
		for _, snd := range snds {
			snd.Send(context.Background(), textMsg("m"))
		}
	}
	rounds := nd.Param("rounds", 1)
	for r := 0; r <= rounds; r++ {
		for i := 0; i <= 3*r; i++ {
			// the first ones may fail on the old session or to attach
			send()
			s.settle()
		}
		ls := s.p.Links()
		used := make([]bool, len(ws))
		for _, l := range ls {
			if l.Closed() {
				continue
			}
			found := false
			for j, w := range ws {
				if l.Receiver == w.rcv && l.Address == w.addr {
					found = true
					nd.Assert(!used[j], "two links of one sender or receiver are attached")
					used[j] = true
					if w.rcv && w.credit > 0 {
						nd.Assert(int(l.Credit) == w.credit, "a receiver was not granted the credit requested")
					}
					break
				}
			}
			nd.Assert(found, "a link is attached to an address nobody asked for")
		}
		for j := range used {
			nd.Assert(used[j], "a sender or receiver is not attached to its address")
		}
		if r < rounds {
			s.fault(1)
			s.settle()
			if nd.Choose("again", 2) == 1 {
				s.fail(&s.attachs)
				s.fault(1)
				s.settle()
			}
		}
	}
	nd.Cover(fmt.Sprintf("%d conns", len(s.p.Conns())))
	s.cancel()
	nd.Quiesce()
}

// C33_Redial: the container's life under a back-off policy.
func C33_Redial() {
	bo := &policy{}
	for i := 0; i < nd.Param("delays", 2); i++ {
		bo.delays = append(bo.delays, time.Duration(nd.IntRange("delay", sec/1000, 5*sec)))
	}
	bo.max = nd.Choose("max", nd.Param("max", 3))
	s := newSess(bo)
	defer s.cancel()
	var mu sync.Mutex
	var logs [3][]error
	reenter := nd.Choose("reenter", nd.Param("reenter", 2)) == 1
	handler := func(i int) func(error) {
		return func(err error) {
			mu.Lock()
			logs[i] = append(logs[i], err)
			mu.Unlock()
			if reenter {
				// a handler may use the container
				s.c.NewSender("x", session.SenderOptions{})
				s.c.OnSessionError(func(error) {})
			}
		}
	}
	reports := func(i int) []error {
		mu.Lock()
		defer mu.Unlock()
		return append([]error(nil), logs[i]...)
	}
	s.c.OnSessionError(handler(0))
	s.c.OnSessionError(handler(1))
	// outcomes of attempts: 0 dialing fails, 1 creating a session fails, 2 the session fails without
	// having been of use, 3 it fails after having been of use
	n := nd.Param("n", 3)
	var plan []int
	for i := 0; i < n; i++ {
		plan = append(plan, nd.Choose("outcome", 4))
	}
	attempt := -1
	s.p.OnDial = func(ctx context.Context, addr string, opts *amqp.ConnOptions) error {
		nd.Assert(addr == "amqp://router" && opts != nil && opts.ContainerID == "id", "another address was dialed or as another container")
		s.mu.Lock()
		defer s.mu.Unlock()
		s.dialTimes = append(s.dialTimes, time.Now())
		attempt++
		if attempt < n && plan[attempt] == 0 {
			return errFake
		}
		return nil
	}
	s.p.OnSession = func(ctx context.Context, c *amqp.Conn) error {
		s.mu.Lock()
		defer s.mu.Unlock()
		if attempt < n && plan[attempt] == 1 {
			return errFake
		}
		return nil
	}
	var in inbox
	in.run(s.ctx, s.c.NewReceiver("in", session.ReceiverOptions{}))
	t := time.Now()
	s.c.Start(s.ctx)
	nd.Quiesce()
	s.c.OnSessionError(handler(2))
	early := len(reports(0)) // reported before the third handler was registered
	idx := 0
	gaveUp := false
	for i := 0; i < n; i++ {
		nd.Assert(len(s.dialed()) == i+1, "not one attempt to connect after each failure")
		nd.Assert(s.dialed()[i].Equal(t), "not redialed when the back-off policy said")
		k := plan[i]
		cs := s.p.Conns()
		switch k {
		case 1:
			nd.Assert(!cs[len(cs)-1].Alive(), "a connection that no session can be created on is left open")
		case 2, 3:
			nd.Assert(len(s.open()) == 1 && cs[len(cs)-1].Alive(), "not only the newest connection is open")
			nd.Assert(len(reports(0)) == i, "a failure was reported without one")
			if k == 3 {
				ls := s.live("in")
				nd.Assert(len(ls) == 1, "not one receiver is attached")
				ls[0].Queue <- textMsg("m")
				nd.Quiesce()
				idx = 0
			}
			if w := nd.Choose("wait", 2); w == 1 && k == 2 {
				// too short to count as a success
				time.Sleep(time.Duration(nd.IntRange("wait", 0, sec)))
			} else if w == 1 {
				time.Sleep(anyDur("wait"))
			}
			cs[len(cs)-1].Break("lost")
		}
		nd.Quiesce()
		final := bo.max > 0 && idx >= bo.max
		for h := range logs {
			skip := 0
			if h == 2 {
				skip = early
			}
			rs := reports(h)
			nd.Assert(len(rs) == i+1-skip, "a failure was not reported once to every handler")
			if len(rs) == 0 {
				continue
			}
			r, retry := rs[len(rs)-1].(session.RetryableError)
			nd.Assert(retry != final, "a failure was reported as retryable when it is final, or the other way round")
			if retry {
				nd.Assert(r.Retry() == bo.delays[min(idx, len(bo.delays)-1)], "a failure was reported with another delay")
			}
		}
		if final {
			gaveUp = true
			nd.Assert(len(s.open()) == 0, "a connection is left open after giving up")
			break
		}
		d := bo.delays[min(idx, len(bo.delays)-1)]
		idx++
		if k >= 2 {
			t = time.Now() // of the failure
		}
		t = t.Add(d)
		time.Sleep(t.Sub(time.Now()))
		time.Sleep(1)
		nd.Quiesce()
	}
	if gaveUp {
		time.Sleep(20 * time.Second)
		nd.Quiesce()
		nd.Assert(len(s.dialed()) == attempt+1 && len(s.open()) == 0, "dialed after giving up")
		nd.Cover("gave up")
	} else {
		nd.Assert(len(s.open()) == 1, "not one connection is open")
		nd.Cover("running")
	}
	total := len(reports(0))
	if nd.Choose("stop", 2) == 1 && !gaveUp {
		// stopped while waiting to redial
		s.p.Conns()[len(s.p.Conns())-1].Break("lost")
		nd.Quiesce()
		total++
		if bo.max > 0 && idx >= bo.max {
			nd.Cover("gave up last")
		}
	}
	dials := len(s.dialed())
	s.cancel()
	in.done.Wait()
	nd.Quiesce()
	time.Sleep(20 * time.Second)
	nd.Quiesce()
	nd.Assert(len(s.open()) == 0, "a connection is left open after the container stopped")
	nd.Assert(nd.Goroutines() == 0, "a goroutine is left after the container stopped")
	nd.Assert(len(s.dialed()) == dials, "dialed after the container stopped")
	nd.Assert(len(reports(0)) == total, "stopping was reported as a failure")
}

// C33_Stop: the container stops at any moment, with its peer in any state.
func C33_Stop() {
	s := newSess(&policy{delays: []time.Duration{time.Duration(nd.IntRange("delay", sec, 5*sec))}})
	hang := nd.Choose("hang", 5)
	ctxOr := func(ctx context.Context, gone <-chan struct{}) error {
		select {
		case <-ctx.Done():
			return ctx.Err()
		case <-gone:
			return errFake
		}
	}
	s.p.OnDial = func(ctx context.Context, addr string, opts *amqp.ConnOptions) error {
		switch hang {
		case 1:
			return ctxOr(ctx, nil)
		case 4:
			return errFake
		}
		return nil
	}
	s.p.OnSession = func(ctx context.Context, c *amqp.Conn) error {
		if hang == 2 {
			return ctxOr(ctx, c.Gone())
		}
		return nil
	}
	s.p.OnEnd = func(ctx context.Context, ss *amqp.Session) error {
		if hang == 3 {
			return ctxOr(ctx, ss.Gone())
		}
		return nil
	}
	var reported atomic.Int32
	s.c.OnSessionError(func(err error) { reported.Add(1) })
	var in inbox
	if nd.Choose("receiver", 2) == 1 {
		in.run(s.ctx, s.c.NewReceiver("in", session.ReceiverOptions{}))
	}
	s.c.Start(s.ctx)
	switch nd.Choose("when", 4) {
	case 1:
		nd.Quiesce()
	case 2:
		nd.Quiesce()
		s.fault(1)
	case 3:
		nd.Quiesce()
		s.fault(1)
		time.Sleep(time.Duration(nd.IntRange("sleep", 0, 3*sec)))
	}
	s.cancel()
	in.done.Wait()
	nd.Quiesce()
	nd.Assert(len(s.open()) == 0, "a connection is left open after the container stopped")
	nd.Assert(nd.Goroutines() == 0, "a goroutine is left after the container stopped")
	nd.Cover("stopped")
}

// C33_Elapsed: a policy that gives up after some time does so that time after the failures began.
func C33_Elapsed() {
	b := backoff.NewExponentialBackOff()
	limit := []time.Duration{60, 2}[nd.Choose("limit", 2)] * time.Second
	b.MaxElapsedTime = limit
	b.Reset()
	s := newSessWith(b)
	defer s.cancel()
	var mu sync.Mutex
	retries, finals := 0, 0
	s.c.OnSessionError(func(err error) {
		mu.Lock()
		defer mu.Unlock()
		if _, ok := err.(session.RetryableError); ok {
			retries++
		} else {
			finals++
		}
	})
	count := func() (int, int) {
		mu.Lock()
		defer mu.Unlock()
		return retries, finals
	}
	var in inbox
	in.run(s.ctx, s.c.NewReceiver("in", session.ReceiverOptions{}))
	snd := s.c.NewSender("out", session.SenderOptions{})
	s.c.Start(s.ctx)
	nd.Quiesce()
	for i := 0; i < nd.Param("n", 2); i++ {
		least := 0
		switch nd.Choose("use", 3) {
		case 0:
			ls := s.live("in")
			nd.Assert(len(ls) == 1, "not one receiver is attached")
			ls[0].Queue <- textMsg("m")
		case 1:
			nd.Assert(snd.Send(context.Background(), textMsg("a")) == nil, "a send fails")
		case 2:
			least = 10 * sec // there are no messages
		}
		nd.Quiesce()
		time.Sleep(time.Duration(nd.IntRange("healthy", least, 3600*sec)))
		nd.Quiesce()
		for _, c := range s.open() {
			c.Break("lost")
		}
		time.Sleep(time.Second)
		nd.Quiesce()
		r, f := count()
		nd.Assert(f == 0 && r == i+1, "a failure after a time without any is final")
		nd.Assert(len(s.open()) == 1, "the container does not connect again after a time without failures")
	}
	// from now on the router cannot be reached
	s.mu.Lock()
	s.dials = 1 << 30
	s.mu.Unlock()
	began := time.Now()
	for _, c := range s.open() {
		c.Break("lost")
	}
	time.Sleep(25 * time.Second) // with any jitter
	nd.Quiesce()
	_, f := count()
	nd.Assert(f == 0 || limit < 25*time.Second, "the container gives up before its policy does")
	time.Sleep(95 * time.Second)
	nd.Quiesce()
	_, f = count()
	nd.Assert(f == 1, "the container does not give up when its policy does")
	for _, t := range s.dialed() {
		nd.Assert(t.Sub(began) <= limit, "a container dials after it has given up")
	}
	nd.Assert(len(s.open()) == 0, "a connection is left open after giving up")
	nd.Cover("given up")
}

// C33_Factory: the containers of one factory retry independently.
func C33_Factory() {
	b := backoff.NewExponentialBackOff()
	b.InitialInterval = time.Second
	b.MaxInterval = time.Minute
	b.MaxElapsedTime = 0
	if nd.Choose("limit", 2) == 1 {
		b.MaxElapsedTime = 100 * time.Second
	}
	s := newSessWith(nil)
	defer s.cancel()
	f := session.NewContainerFactory("amqp://router", session.ContainerConfig{BackOff: b})
	n := nd.Param("containers", 2)
	type one struct {
		c    session.Container
		fail int
		rs   []time.Duration
		next map[int]bool // how often the delay may have grown by the next failure
		up   time.Time    // when it connects next
	}
	var mu sync.Mutex
	all := make([]*one, n)
	for i := range all {
		o := &one{c: f.Create(), next: map[int]bool{0: true}, up: time.Now()}
		all[i] = o
		o.c.OnSessionError(func(err error) {
			r, ok := err.(session.RetryableError)
			nd.Assert(ok, "a container gives up")
			mu.Lock()
			defer mu.Unlock()
			d := r.Retry()
			if time.Since(o.up) > 2*time.Second { // which may count as a success
				o.next[0] = true
			}
			ok = false
			later := map[int]bool{}
			for k := range o.next {
				// randomised by up to a half, growing by a half
				want := float64(time.Second)
				for j := 0; j < k; j++ {
					want *= 1.5
				}
				ok = ok || float64(d) > want*0.49 && float64(d) < want*1.51
				later[k+1] = true
			}
			nd.Assert(ok, "a container waits longer, or shorter, for the failures of another")
			o.next, o.up = later, time.Now().Add(d)
			o.rs = append(o.rs, d)
		})
	}
	// links are told apart by their address
	for i, o := range all {
		var in inbox
		in.run(s.ctx, o.c.NewReceiver(fmt.Sprintf("in%d", i), session.ReceiverOptions{}))
		o.c.Start(s.ctx)
		if nd.Choose("settle", 2) == 1 {
			nd.Quiesce()
		}
	}
	nd.Quiesce()
	for round := 0; round < nd.Param("rounds", 3); round++ {
		which := nd.Choose("which", 1<<n-1) + 1
		for i := range all {
			if which&(1<<i) == 0 {
				continue
			}
			ls := s.live(fmt.Sprintf("in%d", i))
			nd.Assert(len(ls) == 1, "not one receiver is attached")
			ls[0].Session.Conn.Break("lost")
			all[i].fail++
		}
		nd.Quiesce()
		time.Sleep([]time.Duration{4 * time.Second, 10 * time.Second}[nd.Choose("wait", nd.Param("waits", 2))])
		nd.Quiesce()
	}
	mu.Lock()
	defer mu.Unlock()
	for _, o := range all {
		nd.Assert(len(o.rs) == o.fail, "a container reports the failures of another, or not its own")
	}
	nd.Cover(fmt.Sprintf("%d containers", n))
}
