package nd

import (
	"encoding/json"
	"fmt"
	"os"
	"strconv"
	"testing"
	"testing/synctest"
)

// Replay runs one recorded case natively, in a bubble with virtual time, and prints the outcome.
func Replay(t *testing.T, file string, table map[string]func()) {
	b, err := os.ReadFile(file)
	if err != nil {
		t.Skip("no case file")
	}
	var c Case
	if err := json.Unmarshal(b, &c); err != nil {
		fmt.Println("VP-RESULT exit:" + err.Error())
		os.Exit(3)
	}
	fn := table[c.Harness]
	if fn == nil {
		fmt.Println("VP-RESULT exit:no such harness")
		os.Exit(3)
	}
	repeat, _ := strconv.Atoi(os.Getenv("VP_REPEAT"))
	if repeat < 1 {
		repeat = 1
	}
	for i := 0; i < repeat; i++ {
		last := i == repeat-1
		run1(t, c, fn, last)
	}
}

func run1(t *testing.T, c Case, fn func(), last bool) {
	done := make(chan struct{})
	// goroutines the harness leaves behind would fail the bubble: end the process or abandon the bubble instead
	go func() {
		defer func() { recover() }()
		synctest.Test(t, func(t *testing.T) {
			Bubble = true
			Load(c)
			res := outcome(fn)
			if res != "ok" || last {
				for _, o := range Obs {
					b, _ := json.Marshal(o)
					fmt.Printf("VP-OBS %s\n", b)
				}
				fmt.Println("VP-RESULT " + res)
				os.Exit(0)
			}
			close(done)
		})
	}()
	<-done
}

func outcome(fn func()) (res string) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case Failure:
				res = "assert:" + x.Msg
			case Diverged:
				res = "diverged:" + x.Msg
			default:
				res = fmt.Sprintf("panic:%v", r)
			}
		}
	}()
	fn()
	return "ok"
}
