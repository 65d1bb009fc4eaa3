package h

import (
	"context"
	"errors"
	"sync"
	"sync/atomic"
	"time"

	amqp "github.com/Azure/go-amqp"
	"github.com/c-kruse/vanflow/session"

	"verif/harness/nd"
)

// A container whose peers are scripted by the harness.

// fitem is what a receiver's next call to Next returns.
type fitem struct {
	msg    *amqp.Message
	err    error // returned by Next
	accErr error // returned by Accept of msg
	stall  bool  // Accept of msg is not answered
}

type fsent struct {
	addr string
	msg  *amqp.Message
	at   time.Time
}

type fcont struct {
	mu     sync.Mutex
	queues map[string]chan fitem
	recvs  []*frecv
	sends  []*fsend
	sent   []fsent
	// send decides the outcome of the n-th send to an address; nil: delivered.
	send  func(ctx context.Context, addr string, n int) error
	count map[string]int
}

func newFcont() *fcont {
	return &fcont{queues: map[string]chan fitem{}, count: map[string]int{}}
}

func (c *fcont) Start(context.Context)       {}
func (c *fcont) OnSessionError(func(error)) {}

func (c *fcont) queue(addr string) chan fitem {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.queueL(addr)
}

func (c *fcont) queueL(addr string) chan fitem {
	q, ok := c.queues[addr]
	if !ok {
		q = make(chan fitem, 128)
		c.queues[addr] = q
	}
	return q
}

// deliver makes an item available to the receiver on the address.
func (c *fcont) deliver(addr string, it fitem) { c.queue(addr) <- it }

func (c *fcont) NewReceiver(addr string, opts session.ReceiverOptions) session.Receiver {
	c.mu.Lock()
	defer c.mu.Unlock()
	r := &frecv{addr: addr, credit: opts.Credit, q: c.queueL(addr), done: make(chan struct{})}
	c.recvs = append(c.recvs, r)
	return r
}

func (c *fcont) NewSender(addr string, opts session.SenderOptions) session.Sender {
	s := &fsend{addr: addr, c: c}
	c.mu.Lock()
	defer c.mu.Unlock()
	c.sends = append(c.sends, s)
	return s
}

// openLinks are the senders and receivers not closed.
func (c *fcont) openLinks() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	n := 0
	for _, r := range c.recvs {
		if r.closed.Load() == 0 {
			n++
		}
	}
	for _, s := range c.sends {
		if s.closed.Load() == 0 {
			n++
		}
	}
	return n
}

type frecv struct {
	addr     string
	credit   int
	q        chan fitem
	closed   atomic.Int32
	done     chan struct{}
	last     fitem
	accepted []*amqp.Message
}

var errFakeClosed = errors.New("fake: closed")

func (r *frecv) Next(ctx context.Context) (*amqp.Message, error) {
	// as with AMQP, a message may be returned although the context has ended
	select {
	case <-ctx.Done():
		return nil, ctx.Err()
	case <-r.done:
		return nil, errFakeClosed
	case it := <-r.q:
		if it.err != nil {
			return nil, it.err
		}
		r.last = it
		return it.msg, nil
	}
}

func (r *frecv) Accept(ctx context.Context, msg *amqp.Message) error {
	nd.Assert(msg != nil && msg == r.last.msg, "something other than the message received was accepted")
	if r.last.stall {
		<-ctx.Done()
		return ctx.Err()
	}
	if r.last.accErr != nil {
		return r.last.accErr
	}
	r.accepted = append(r.accepted, msg)
	return nil
}

func (r *frecv) Close(context.Context) error {
	if r.closed.Add(1) == 1 {
		close(r.done)
	}
	return nil
}

type fsend struct {
	addr   string
	c      *fcont
	closed atomic.Int32
}

func (s *fsend) Send(ctx context.Context, msg *amqp.Message) error {
	if err := ctx.Err(); err != nil {
		return err
	}
	if s.closed.Load() != 0 {
		return errFakeClosed
	}
	s.c.mu.Lock()
	n := s.c.count[s.addr]
	s.c.count[s.addr]++
	f := s.c.send
	s.c.mu.Unlock()
	if f != nil {
		if err := f(ctx, s.addr, n); err != nil {
			return err
		}
	}
	s.c.mu.Lock()
	defer s.c.mu.Unlock()
	s.c.sent = append(s.c.sent, fsent{s.addr, msg, time.Now()})
	return nil
}

func (s *fsend) Close(context.Context) error {
	s.closed.Add(1)
	return nil
}

// onAddr are the messages delivered to an address.
func (c *fcont) onAddr(addr string) []fsent {
	c.mu.Lock()
	defer c.mu.Unlock()
	var r []fsent
	for _, s := range c.sent {
		if s.addr == addr {
			r = append(r, s)
		}
	}
	return r
}

// opened are the receivers opened so far.
func (c *fcont) opened() []*frecv {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]*frecv(nil), c.recvs...)
}
