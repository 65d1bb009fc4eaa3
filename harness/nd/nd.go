// Package nd provides the nondeterministic inputs and the assertions of the harnesses.
//
// Under the symbolic executor every function here is an intrinsic: values are solver variables,
// Choose forks, Assert asks the solver. Compiled natively the same functions read the recorded
// counterexample (or sample) from memory, so that a harness can be replayed against the real code.
package nd

import (
	"sync/atomic"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"testing/synctest"
)

// Val is one recorded input.
type Val struct {
	K string `json:"k"`
	L string `json:"l"`
	I uint64 `json:"i"`
	S []byte `json:"s,omitempty"`
}

// Case is a recorded path.
type Case struct {
	Harness string         `json:"harness"`
	Params  map[string]int `json:"params"`
	Inputs  []Val          `json:"inputs"`
}

// Failure is the panic value of a failed assertion.
type Failure struct{ Msg string }

func (f Failure) Error() string { return "assertion failed: " + f.Msg }

// Diverged is the panic value when the native run asks for other inputs than the recorded ones.
type Diverged struct{ Msg string }

func (f Diverged) Error() string { return "replay diverged: " + f.Msg }

var (
	cur    Case
	pos    int
	Obs    []string
	base   int
	Bubble bool
)

// Load starts a replay.
func Load(c Case) { cur, pos, Obs = c, 0, nil; base = runtime.NumGoroutine() }

// LoadFile reads a list of cases.
func LoadFile(name string) ([]Case, error) {
	b, err := os.ReadFile(name)
	if err != nil {
		return nil, err
	}
	var cs []Case
	return cs, json.Unmarshal(b, &cs)
}

func next(kind, label string) Val {
	if pos >= len(cur.Inputs) {
		panic(Diverged{fmt.Sprintf("no recorded input for %s %s", kind, label)})
	}
	v := cur.Inputs[pos]
	if v.K != kind || v.L != label {
		panic(Diverged{fmt.Sprintf("input %d is %s %s, asked for %s %s", pos, v.K, v.L, kind, label)})
	}
	pos++
	return v
}

func Int64(label string) int64   { return int64(next("int", label).I) }
func Uint64(label string) uint64 { return next("int", label).I }
func Int32(label string) int32   { return int32(next("int", label).I) }
func Uint32(label string) uint32 { return uint32(next("int", label).I) }
func Byte(label string) byte     { return byte(next("int", label).I) }
func Bool(label string) bool     { return next("bool", label).I != 0 }

// IntRange is an int with 0 <= lo <= v <= hi.
func IntRange(label string, lo, hi int) int { return int(next("int", label).I) }

// String has any length from 0 to max and any bytes.
func String(label string, max int) string { return string(next("string", label).S) }

// StringN has length n and any bytes.
func StringN(label string, n int) string { return string(next("string", label).S) }

// Choose explores every value from 0 to n-1 separately.
func Choose(label string, n int) int { return int(next("choose", label).I) }

// Assume restricts the inputs.
func Assume(c bool) {
	if !c {
		panic(Diverged{"assumption does not hold"})
	}
}

// Assert states the property.
func Assert(c bool, msg string) {
	if !c {
		panic(Failure{msg})
	}
}

func Fail(msg string) { panic(Failure{msg}) }

// Cover marks a situation that must be reachable.
func Cover(name string) {}

// Observe records a value to compare between the executor and the native run.
func Observe(label string, v any) {
	s := ""
	switch x := v.(type) {
	case string:
		s = fmt.Sprintf("%q", x)
	case nil:
		s = "nil"
	default:
		s = fmt.Sprint(x)
	}
	Obs = append(Obs, label+"="+s)
}

func Note(v any) {}

// Param is a bound of the exploration.
func Param(name string, def int) int {
	if v, ok := cur.Params[name]; ok {
		return v
	}
	return def
}

// Quiesce waits until every other goroutine is blocked.
func Quiesce() {
	if Bubble {
		synctest.Wait()
	}
}

// Goroutines is the number of goroutines started by the harness that have not ended.
func Goroutines() int {
	if Bubble {
		synctest.Wait()
	}
	return runtime.NumGoroutine() - base
}

var stamp atomic.Int64

// Stamp is the position of the call in the execution. It orders nothing.
func Stamp() int { return int(stamp.Add(1)) }

// Symbolic tells whether the symbolic executor runs the harness.
func Symbolic() bool { return false }

func And(a, b bool) bool     { return a && b }
func Or(a, b bool) bool      { return a || b }
func Implies(a, b bool) bool { return !a || b }
func Iff(a, b bool) bool     { return a == b }
func Ite(c bool, a, b int64) int64 {
	if c {
		return a
	}
	return b
}

// Concrete forks until s has a concrete value.
func Concrete(s string) string    { return s }
func ConcreteInt(i uint64) uint64 { return i }
