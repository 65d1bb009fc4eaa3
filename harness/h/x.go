package h

import (
	"context"
	"errors"
	"fmt"
	"sync"
	"time"

	"verif/harness/nd"
)

// T_arith exercises the executor itself.
func T_arith() {
	a := nd.Uint64("a")
	nd.Assume(a < 1000)
	b := nd.IntRange("b", 1, 7)
	q := a / uint64(b)
	nd.Assert(q*uint64(b) <= a, "quotient")
	nd.Assert(a != 777, "expected violation")
}

func T_str() {
	s := nd.String("s", 4)
	m := map[string]int{"abc": 1, "x": 2}
	if v, ok := m[s]; ok {
		nd.Cover(fmt.Sprintf("v%d", v))
		nd.Assert(s != "x", "expected x")
	}
	err := fmt.Errorf("wrap %w", context.Canceled)
	nd.Assert(errors.Is(err, context.Canceled), "errors.Is")
}

func T_conc() {
	var mu sync.Mutex
	var wg sync.WaitGroup
	n := 0
	last := 0
	for i := 1; i <= 3; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			mu.Lock()
			n++
			last = i
			mu.Unlock()
		}()
	}
	wg.Wait()
	nd.Assert(n == 3, "count")
	nd.Cover(fmt.Sprintf("last%d", last))
}

func T_race() {
	n := 0
	done := make(chan struct{})
	go func() { n++; close(done) }()
	n++
	<-done
}

func T_ctx() {
	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
	defer cancel()
	c := make(chan int)
	go func() {
		select {
		case <-ctx.Done():
			c <- 1
		case <-time.After(3 * time.Second):
			c <- 2
		}
	}()
	st := time.Now()
	v := <-c
	nd.Assert(v == 2, "timer first")
	nd.Assert(time.Since(st) == 3*time.Second, "elapsed")
	<-ctx.Done()
	nd.Assert(time.Since(st) == 5*time.Second, "elapsed2")
	nd.Assert(errors.Is(ctx.Err(), context.DeadlineExceeded), "deadline")
}

func T_dead() {
	a, b := make(chan int), make(chan int)
	go func() { a <- 1; <-b }()
	b <- 1
	<-a
}
