// Package vsym is the interface between a verification harness and the
// symbolic engine. The engine intercepts every function of this package; the
// bodies below are what runs when a harness is replayed natively with concrete
// inputs taken from the solver's counterexample.
package vsym

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"time"
)

type input struct {
	Inputs  map[string]json.RawMessage
	Observe []string
}

type state struct {
	mu      sync.Mutex
	in      map[string]json.RawMessage
	names   map[string]int
	observe []string
	failed  []string
	skew    time.Duration
	missing int
}

var cur = &state{names: map[string]int{}}

// Stop is the panic value used natively to end a harness early.
type Stop struct{ Why string }

func (s *state) raw(name string) (json.RawMessage, bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	k := s.names[name]
	s.names[name] = k + 1
	if k > 0 {
		name = fmt.Sprintf("%s#%d", name, k)
	}
	r, ok := s.in[name]
	if !ok {
		s.missing++
	}
	return r, ok
}

func (s *state) num(name string) string {
	r, ok := s.raw(name)
	if !ok {
		return "0"
	}
	var x string
	if err := json.Unmarshal(r, &x); err != nil {
		return strings.Trim(string(r), "\"")
	}
	return x
}

// Native reports whether the harness runs natively rather than symbolically.
func Native() bool { return true }

// Bool, Byte, ... return an arbitrary value.
func Bool(name string) bool {
	r, _ := cur.raw(name)
	return string(r) == "true"
}

func Byte(name string) byte {
	n, _ := strconv.ParseUint(cur.num(name), 10, 8)
	return byte(n)
}
func Uint16(name string) uint16 {
	n, _ := strconv.ParseUint(cur.num(name), 10, 16)
	return uint16(n)
}
func Uint32(name string) uint32 {
	n, _ := strconv.ParseUint(cur.num(name), 10, 32)
	return uint32(n)
}
func Uint64(name string) uint64 {
	n, _ := strconv.ParseUint(cur.num(name), 10, 64)
	return n
}
func Int64(name string) int64 {
	n, _ := strconv.ParseInt(cur.num(name), 10, 64)
	return n
}

// Int returns an arbitrary value in [lo,hi].
func Int(name string, lo, hi int) int {
	n, err := strconv.Atoi(cur.num(name))
	if err != nil || n < lo || n > hi {
		return lo
	}
	return n
}

// Choose returns an arbitrary value in [0,n), explored one path per value.
func Choose(name string, n int) int { return Int(name, 0, n-1) }

// Pick returns one of the options.
func Pick(name string, opts ...string) string { return opts[Choose(name, len(opts))] }

// Bytes returns an arbitrary byte string with lo <= length <= hi.
func Bytes(name string, lo, hi int) []byte {
	r, ok := cur.raw(name)
	if !ok {
		return make([]byte, lo)
	}
	var x struct{ Hex string }
	json.Unmarshal(r, &x)
	b, _ := hex.DecodeString(x.Hex)
	return b
}

// String returns an arbitrary string with lo <= length <= hi.
func String(name string, lo, hi int) string { return string(Bytes(name, lo, hi)) }

// Assume restricts the inputs; natively a false assumption ends the run.
func Assume(b bool) {
	if !b {
		panic(Stop{"assume"})
	}
}

// Assert states the property.
func Assert(b bool, label string) {
	if !b {
		cur.mu.Lock()
		cur.failed = append(cur.failed, label)
		cur.mu.Unlock()
		fmt.Printf("VSYM-FAILED %s\n", label)
	}
}

// Fail is Assert(false).
func Fail(label string) { Assert(false, label) }

// Reach marks a point that must be reachable (vacuity guard).
func Reach(label string) {}

// Observe records a value for the comparison of symbolic and native runs.
func Observe(label string, v any) {
	cur.mu.Lock()
	defer cur.mu.Unlock()
	cur.observe = append(cur.observe, label+"="+render(v))
}

func render(v any) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case error:
		return "error"
	case string:
		return strconv.Quote(x)
	case []byte:
		return hex.EncodeToString(x)
	case []string:
		q := make([]string, len(x))
		for i := range x {
			q[i] = strconv.Quote(x[i])
		}
		return "[" + strings.Join(q, ",") + "]"
	}
	return fmt.Sprint(v)
}

// Concrete forces one path per value of x.
func Concrete(x int) int { return x }

// And, Or, Not, Implies combine conditions without forking the path.
func And(bs ...bool) bool {
	for _, b := range bs {
		if !b {
			return false
		}
	}
	return true
}
func Or(bs ...bool) bool {
	for _, b := range bs {
		if b {
			return true
		}
	}
	return false
}
func Implies(a, b bool) bool { return !a || b }

// Iff is a == b without forking.
func Iff(a, b bool) bool { return a == b }

// Ite picks without forking.
func Ite(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// Explore turns on exploration of goroutine schedules with at most n
// preemptions; the default is one fixed schedule.
func Explore(preemptions int) {}

// ExploreDelays turns on exploration of goroutine schedules that differ from a
// fixed round-robin schedule in at most n places.
func ExploreDelays(n int) {}

// DetectRaces turns on happens-before race detection.
func DetectRaces() {}

// MapOrder makes iteration over maps with at most n entries arbitrary.
func MapOrder(n int) {}

// NoTimers keeps pending timers from firing.
func NoTimers() {}

// DeadlockFails makes a state with every goroutine blocked a failure.
func DeadlockFails(label string) {}

// Yield is a possible context switch.
func Yield() { time.Sleep(time.Millisecond) }

// Settle lets every other goroutine run until it blocks or ends.
func Settle() { time.Sleep(30 * time.Millisecond) }

// Advance moves the virtual clock by n seconds. Natively it sleeps, which is
// immediate inside a synctest bubble.
func Advance(n int) { time.Sleep(time.Duration(n) * time.Second) }

// Eq compares two strings without forking.
func Eq(a, b string) bool { return a == b }

// Param returns a bound of the run.
func Param(name string, def int) int {
	if v := os.Getenv("VSYM_PARAM_" + name); v != "" {
		if n, err := strconv.Atoi(v); err == nil {
			return n
		}
	}
	return def
}

// TryPanic runs f and reports whether it panicked.
func TryPanic(f func()) (p bool, msg string) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(Stop); ok {
				panic(s)
			}
			p = true
			msg = fmt.Sprint(r)
			if os.Getenv("VSYM_VERBOSE") != "" {
				fmt.Printf("VSYM-PANIC %v\n%s\n", r, debug.Stack())
			}
		}
	}()
	f()
	return
}

// RunReplay is called by the generated test: it runs the harness on each input
// set in the file and prints the outcome.
func RunReplay(file string, wrap func(func()), harness func()) {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Printf("VSYM-ERROR %v\n", err)
		return
	}
	var ins []input
	if err := json.Unmarshal(b, &ins); err != nil {
		fmt.Printf("VSYM-ERROR %v\n", err)
		return
	}
	for i, in := range ins {
		cur = &state{in: in.Inputs, names: map[string]int{}}
		fmt.Printf("VSYM-CASE %d\n", i)
		end := "ok"
		wrap(func() {
			defer func() {
				if r := recover(); r != nil {
					if s, ok := r.(Stop); ok {
						end = "stop:" + s.Why
						return
					}
					end = "panic"
					fmt.Printf("VSYM-FAILED panic %v\n%s\n", r, debug.Stack())
				}
			}()
			harness()
		})
		ok := "same"
		if in.Observe != nil {
			if strings.Join(in.Observe, "\n") != strings.Join(cur.observe, "\n") {
				ok = "DIFF"
				fmt.Printf("VSYM-DIFF want %q got %q\n", in.Observe, cur.observe)
			}
		}
		fmt.Printf("VSYM-END %d %s %s missing=%d\n", i, end, ok, cur.missing)
	}
}
