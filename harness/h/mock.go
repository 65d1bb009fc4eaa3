package h

import (
	"context"
	"fmt"
	"sync"
	"time"

	"github.com/c-kruse/vanflow/session"

	"verif/harness/nd"
)

// recvNow takes the messages a receiver holds.
func recvNow(r session.Receiver, max int) (got []string) {
	for len(got) < max {
		ctx, cancel := context.WithTimeout(context.Background(), 1)
		m, err := r.Next(ctx)
		cancel()
		if err != nil {
			return got
		}
		got = append(got, textOf(m))
	}
	return got
}

// C34_History: any history of opening, closing, sending and receiving, one after another.
func C34_History() {
	bg := context.Background()
	router := session.NewMockRouter()
	cs := []session.Container{session.NewMockContainer(router), session.NewMockContainer(router)}
	type rcv struct {
		r      session.Receiver
		addr   string
		credit int
		open   bool
		want   []string // messages it was sent and has not taken
		maybe  []bool   // whose sending failed
	}
	var rs []*rcv
	var snds []session.Sender
	var saddr []string
	var sopen []bool
	nSnd := nd.Param("senders", 1)
	for i := 0; i < nSnd; i++ {
		saddr = append(saddr, nd.String("sender address", 1))
		snds = append(snds, cs[i%2].NewSender(saddr[i], session.SenderOptions{}))
		sopen = append(sopen, true)
	}
	opened := 0
	msgs := 0
	check := func(r *rcv) {
		got := recvNow(r.r, len(r.want)+2)
		k := 0
		for i, w := range r.want {
			if k < len(got) && got[k] == w {
				k++
				continue
			}
			nd.Assert(r.maybe[i], "a receiver misses a message, or received another instead")
		}
		nd.Assert(k == len(got), "a receiver received a message that was not for it, twice or out of order")
		r.want, r.maybe = nil, nil
		if k > 0 {
			nd.Cover("received")
		}
	}
	n := nd.Param("n", 4)
	for i := 0; i < n; i++ {
		switch nd.Choose("op", 5) {
		case 0:
			if opened < nd.Param("receivers", 2) {
				opened++
				r := &rcv{addr: nd.String("address", 1), credit: nd.Choose("credit", 3), open: true}
				r.r = cs[opened%2].NewReceiver(r.addr, session.ReceiverOptions{Credit: r.credit})
				rs = append(rs, r)
			}
		case 1:
			if len(rs) > 0 {
				r := rs[nd.Choose("which", len(rs))]
				nd.Assert(r.r.Close(bg) == nil, "closing failed")
				r.open, r.want, r.maybe = false, nil, nil
			}
		case 2:
			if len(rs) > 0 {
				r := rs[nd.Choose("which", len(rs))]
				if r.open {
					check(r)
				} else {
					_, err := r.r.Next(bg)
					nd.Assert(err != nil && r.r.Accept(bg, textMsg("x")) != nil, "an operation on a closed receiver succeeded")
				}
			}
		case 3:
			j := nd.Choose("sender", nSnd)
			msgs++
			text := fmt.Sprintf("m%d", msgs)
			some, full := false, false
			for _, r := range rs {
				if r.addr == saddr[j] {
					some = true
					c := r.credit
					if c == 0 {
						c = 256
					}
					if r.open && len(r.want) >= c {
						full = true
					}
				}
			}
			// those of failed sends may not be there
			unsure := false
			for _, r := range rs {
				if r.open && r.addr == saddr[j] {
					for _, m := range r.maybe {
						unsure = unsure || m
					}
				}
			}
			ctx, cancel := context.WithTimeout(bg, anyDur("timeout"))
			t := time.Now()
			err := snds[j].Send(ctx, textMsg(text))
			if err != nil {
				nd.Assert(!sopen[j] || ctx.Err() != nil, "sending failed before its context ended")
				nd.Assert(!sopen[j] || !some || full || unsure, "sending failed although a message can be delivered")
				nd.Assert(sopen[j] || !time.Now().After(t), "sending with a closed sender waits")
			} else {
				nd.Assert(sopen[j], "sending with a closed sender succeeded")
				nd.Assert(some, "sending succeeded although nobody ever received from the address")
				nd.Assert(!full || unsure, "sending succeeded although a receiver has no credit left")
			}
			cancel()
			if sopen[j] {
				for _, r := range rs {
					c := r.credit
					if c == 0 {
						c = 256
					}
					if r.open && r.addr == saddr[j] && (err == nil || len(r.want) < c) {
						r.want = append(r.want, text)
						r.maybe = append(r.maybe, err != nil)
					}
				}
			}
		case 4:
			j := nd.Choose("sender", nSnd)
			nd.Assert(snds[j].Close(bg) == nil, "closing failed")
			sopen[j] = false
		}
	}
	for _, r := range rs {
		if r.open {
			check(r)
		}
	}
	nd.Assert(nd.Goroutines() == 0, "a goroutine is left")
}

// checkOrder checks that messages are those of each sender in order, from some point on.
func checkOrder(got []string, senders, n int, all bool) {
	for s := 0; s < senders; s++ {
		var mine []int
		for _, g := range got {
			for i := 0; i < n; i++ {
				if g == fmt.Sprintf("s%d-%d", s, i) {
					mine = append(mine, i)
				}
			}
		}
		if all {
			nd.Assert(len(mine) == n, "a receiver did not receive every message exactly once")
		}
		for k, i := range mine {
			nd.Assert(i == n-len(mine)+k, "a receiver received messages out of order, twice or not all since it was opened")
		}
	}
}

// C34_Concurrent: senders and receivers at the same time, receivers coming and going.
func C34_Concurrent() {
	bg := context.Background()
	router := session.NewMockRouter()
	c := session.NewMockContainer(router)
	senders, n := nd.Param("senders", 2), nd.Param("n", 2)
	credit := nd.Choose("credit", 2) + 1
	take := func(ctx context.Context, r session.Receiver, k int) (got []string) {
		for len(got) < k {
			m, err := r.Next(ctx)
			if err != nil {
				return got
			}
			got = append(got, textOf(m))
		}
		return got
	}
	first := c.NewReceiver("a", session.ReceiverOptions{Credit: credit})
	crossed := c.NewReceiver("b", session.ReceiverOptions{})
	var wg sync.WaitGroup
	for s := 0; s < senders; s++ {
		snd := c.NewSender("a", session.SenderOptions{})
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < n; i++ {
				nd.Assert(snd.Send(bg, textMsg(fmt.Sprintf("s%d-%d", s, i))) == nil, "sending failed")
			}
		}()
	}
	var late []string
	ctx, cancel := context.WithCancel(bg)
	defer cancel()
	var second session.Receiver
	scene := nd.Choose("scene", nd.Param("scenes", 3))
	switch scene {
	case 0: // another one that is opened at any moment
		wg.Add(1)
		second = c.NewReceiver("a", session.ReceiverOptions{Credit: 8})
	case 1: // another one that takes no messages and is closed at any moment
		wg.Add(1)
		r := c.NewReceiver("a", session.ReceiverOptions{Credit: 1})
		go func() {
			defer wg.Done()
			late = take(ctx, r, nd.Choose("take", 2))
			r.Close(bg)
		}()
	}
	got := take(bg, first, senders*n)
	checkOrder(got, senders, n, true)
	switch scene {
	case 0:
		wg.Done()
	case 1:
		cancel()
	}
	wg.Wait()
	nd.Assert(len(recvNow(first, 1)) == 0, "a receiver received a message twice")
	nd.Assert(len(recvNow(crossed, 1)) == 0, "a message crossed addresses")
	if second != nil {
		late = recvNow(second, senders*n+1)
		nd.Assert(len(late) <= senders*n, "a receiver received a message twice")
		checkOrder(late, senders, n, false)
	}
	nd.Cover(fmt.Sprintf("scene %d, %d", scene, len(late)))
	nd.Quiesce()
	nd.Assert(nd.Goroutines() == 0, "a goroutine is left")
}

// C34_Wait: a send waits for the first receiver.
func C34_Wait() {
	bg := context.Background()
	router := session.NewMockRouter()
	c := session.NewMockContainer(router)
	snd := c.NewSender("a", session.SenderOptions{})
	ctx, cancel := context.WithCancel(bg)
	defer cancel()
	var err error
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		err = snd.Send(ctx, textMsg("m"))
	}()
	scene := nd.Choose("scene", 5)
	var mu sync.Mutex
	var rs []session.Receiver
	open := func() {
		r := c.NewReceiver("a", session.ReceiverOptions{})
		mu.Lock()
		defer mu.Unlock()
		rs = append(rs, r)
	}
	switch scene {
	case 0:
		open()
	case 1:
		wg.Add(1)
		go func() { defer wg.Done(); open() }()
		open()
	case 2:
		wg.Add(1)
		go func() { defer wg.Done(); cancel() }()
		open()
	case 3:
		wg.Add(1)
		go func() { defer wg.Done(); snd.Close(bg) }()
		if nd.Choose("open", 2) == 1 {
			open()
		}
	case 4:
		c.NewReceiver("b", session.ReceiverOptions{})
		nd.Quiesce()
		nd.Assert(nd.Goroutines() == 1, "a send with nobody to receive did not wait")
		cancel()
	}
	wg.Wait()
	n := 0
	for _, r := range rs {
		got := recvNow(r, 2)
		nd.Assert(len(got) <= 1, "a message was received twice")
		n += len(got)
	}
	nd.Assert(err != nil || n > 0, "a message that was sent reached nobody")
	switch scene {
	case 0, 1:
		nd.Assert(err == nil, "sending failed")
	case 4:
		nd.Assert(err != nil, "a send with nobody to receive succeeded")
	}
	nd.Assert(err == nil || n == 0, "a message that was not sent was received")
	nd.Cover(fmt.Sprintf("scene %d %v", scene, err == nil))
}

// C34_Full: a send to a receiver without credit left waits for it.
func C34_Full() {
	bg := context.Background()
	router := session.NewMockRouter()
	c := session.NewMockContainer(router)
	credit := nd.Choose("credit", 2) + 1
	other := c.NewReceiver("a", session.ReceiverOptions{})
	full := c.NewReceiver("a", session.ReceiverOptions{Credit: credit})
	var last session.Receiver
	if nd.Choose("last", 2) == 1 {
		last = c.NewReceiver("a", session.ReceiverOptions{})
	}
	snd := c.NewSender("a", session.SenderOptions{})
	for i := 0; i < credit; i++ {
		nd.Assert(snd.Send(bg, textMsg("m")) == nil, "sending failed")
	}
	ctx, cancel := context.WithCancel(bg)
	defer cancel()
	var err, err2 error
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		err = snd.Send(ctx, textMsg("n"))
	}()
	if nd.Choose("pending", 2) == 1 {
		nd.Quiesce()
		nd.Assert(nd.Goroutines() == 1, "a send to a receiver without credit left did not wait")
	}
	// another sender meanwhile
	two := nd.Choose("two", 2) == 1
	if two {
		o := c.NewSender("a", session.SenderOptions{})
		wg.Add(1)
		go func() {
			defer wg.Done()
			err2 = o.Send(ctx, textMsg("o"))
		}()
	}
	// others are not affected
	b := c.NewReceiver("b", session.ReceiverOptions{})
	nd.Assert(c.NewSender("b", session.SenderOptions{}).Send(bg, textMsg("b")) == nil && len(recvNow(b, 2)) == 1, "another address is affected")
	scene := nd.Choose("scene", 4)
	switch scene {
	case 0:
		for i := 0; i < 2; i++ {
			if two || i == 0 {
				_, e := full.Next(bg)
				nd.Assert(e == nil, "receiving failed")
			}
		}
	case 1:
		full.Close(bg)
	case 2:
		cancel()
	case 3:
		snd.Close(bg)
		if two {
			cancel()
		}
	}
	wg.Wait()
	switch scene {
	case 0, 1:
		nd.Assert(err == nil && err2 == nil, "sending failed although the receiver does not hold it up any more")
	case 2, 3:
		nd.Assert(err != nil, "sending succeeded although a receiver has no credit left")
	}
	if last != nil && err == nil && err2 == nil {
		got := recvNow(last, credit+3)
		want := credit + 1
		if two {
			want++
		}
		nd.Assert(len(got) == want, "a message did not reach every open receiver once")
	}
	got := recvNow(other, credit+3)
	k := 0
	for _, g := range got {
		if g == "n" {
			k++
		}
	}
	nd.Assert(k <= 1 && (err != nil || k == 1), "a message did not reach every open receiver once")
	if scene == 0 {
		got := recvNow(full, credit+3)
		nd.Assert(len(got) == credit, "a message did not reach every open receiver once")
	}
	nd.Cover(fmt.Sprintf("scene %d", scene))
}

// C34_Closed: operations pending and begun after closing fail.
func C34_Closed() {
	bg := context.Background()
	router := session.NewMockRouter()
	c := session.NewMockContainer(router)
	r := c.NewReceiver("a", session.ReceiverOptions{})
	snd := c.NewSender("a", session.SenderOptions{})
	idle := c.NewSender("idle", session.SenderOptions{})
	var wg sync.WaitGroup
	held := nd.Choose("held", 2) == 1
	if held {
		nd.Assert(snd.Send(bg, textMsg("m")) == nil, "sending failed")
	}
	wg.Add(2)
	go func() {
		defer wg.Done()
		_, err := r.Next(bg)
		nd.Assert(held || err != nil, "received something from nobody")
	}()
	go func() {
		defer wg.Done()
		nd.Assert(idle.Send(bg, textMsg("m")) != nil, "a message to nobody was sent")
	}()
	wg.Add(2)
	go func() { defer wg.Done(); r.Close(bg); idle.Close(bg) }()
	go func() { defer wg.Done(); r.Close(bg); idle.Close(bg) }()
	wg.Wait()
	_, err := r.Next(bg)
	nd.Assert(err != nil, "received from a closed receiver")
	nd.Assert(r.Accept(bg, textMsg("m")) != nil, "accepted with a closed receiver")
	nd.Assert(idle.Send(bg, textMsg("m")) != nil, "sent with a closed sender")
	snd.Close(bg)
	nd.Assert(snd.Send(bg, textMsg("m")) != nil, "sent with a closed sender")
	snd.Close(bg)
	ctx, cancel := context.WithCancel(bg)
	cancel()
	r2 := c.NewReceiver("z", session.ReceiverOptions{})
	_, err = r2.Next(ctx)
	nd.Assert(err != nil, "received with a context that has ended")
	nd.Cover("closed")
}
