// Package vf is the harness vocabulary. The symbolic engine gives every function here its meaning; the
// bodies below are the native meaning, used when a counterexample or a sample path is replayed against
// the real build.
package vf

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sync"
	"time"
)

type input struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	U    uint64 `json:"u"`
	B    []byte `json:"b"`
}

type obs struct {
	Name string `json:"name"`
	Val  string `json:"val"`
}

type replay struct {
	Entry  string   `json:"entry"`
	Tier   string   `json:"tier"`
	Inputs []input  `json:"inputs"`
	Order  []string `json:"order"`
}

type result struct {
	Status string `json:"status"` // ok, violation, panic, assume, exit, missing, deadlock
	Label  string `json:"label"`
	Detail string `json:"detail"`
	Obs    []obs  `json:"obs"`
}

var (
	mu      sync.Mutex
	opMu    sync.Mutex
	rep     replay
	ins     map[string]input
	ctr     = map[string]int{}
	res     result
	advance int64
	ended   = make(chan struct{})
	endOnce sync.Once
	ops     int64
)

// RuntimeError is the engine's stand-in for runtime.Error values.
type RuntimeError struct{ msg string }

func (e RuntimeError) Error() string { return e.msg }
func (e RuntimeError) RuntimeError() {}

func finish(status, label, detail string) {
	endOnce.Do(func() {
		lock(&mu)
		res.Status, res.Label, res.Detail = status, label, detail
		unlock(&mu)
		close(ended)
	})
}

// stop ends the calling goroutine's part in the replay.
func stop(status, label, detail string) {
	finish(status, label, detail)
	select {}
}

// RunNative replays the inputs in the file named by VF_REPLAY.
func RunNative(entries map[string]func()) {
	b, err := os.ReadFile(os.Getenv("VF_REPLAY"))
	if err != nil {
		fmt.Println("VF_RESULT {\"status\":\"missing\"}")
		return
	}
	if err := json.Unmarshal(b, &rep); err != nil {
		panic(err)
	}
	ins = map[string]input{}
	for _, i := range rep.Inputs {
		ins[i.Name] = i
	}
	f := entries[rep.Entry]
	if f == nil {
		fmt.Println("VF_RESULT {\"status\":\"missing\"}")
		return
	}
	go func() {
		defer func() {
			if r := recover(); r != nil {
				finish("panic", "panic", fmt.Sprint(r)+"\n"+string(debug.Stack()))
			}
		}()
		f()
		finish("ok", "", "")
	}()
	select {
	case <-ended:
	case <-time.After(20 * time.Second):
		buf := make([]byte, 1<<16)
		buf = buf[:runtime.Stack(buf, true)]
		finish("deadlock", "deadlock", string(buf))
	}
	lock(&mu)
	j, _ := json.Marshal(res)
	unlock(&mu)
	fmt.Printf("\nVF_RESULT %s\n", j)
	os.Exit(0)
}

func get(name string) input {
	lock(&mu)
	k := ctr[name]
	ctr[name] = k + 1
	n := fmt.Sprintf("%s#%d", name, k)
	i, ok := ins[n]
	unlock(&mu)
	if !ok {
		stop("missing", n, "input not in replay")
	}
	return i
}

func U64(name string) uint64 { return get(name).U }
func I64(name string) int64  { return int64(get(name).U) }
func Int(name string) int    { return int(int64(get(name).U)) }
func U32(name string) uint32 { return uint32(get(name).U) }
func U16(name string) uint16 { return uint16(get(name).U) }
func U8(name string) uint8   { return uint8(get(name).U) }
func Bool(name string) bool  { return get(name).U != 0 }

// Below is a value in 0..n-1 (n is a constant).
func Below(name string, n uint64) uint64 { return get(name).U }

func Bytes(name string, n int) []byte {
	b := get(name).B
	r := make([]byte, n)
	copy(r, b)
	return r
}

func Str(name string, n int) string { return string(Bytes(name, n)) }

// Choose makes a nondeterministic choice in [0,n).
func Choose(name string, n int) int { return int(get(name).U) }

// Concrete forks over the values of v.
func Concrete(v int) int { return v }

func Assume(c bool) {
	if !c {
		stop("assume", "", "")
	}
}

func Assert(c bool, label string) {
	if !c {
		stop("violation", label, string(debug.Stack()))
	}
}

func Reached(label string) {}

func Observe(name string, v any) {
	var s string
	switch x := v.(type) {
	case nil:
		s = "nil"
	case string:
		s = fmt.Sprintf("%x", x)
	case []byte:
		s = fmt.Sprintf("%x", x)
	case int:
		s = fmt.Sprint(uint64(x))
	case int64:
		s = fmt.Sprint(uint64(x))
	default:
		s = fmt.Sprint(x)
	}
	lock(&mu)
	res.Obs = append(res.Obs, obs{name, s})
	unlock(&mu)
}

// Bound is a named exploration bound: q in the quick tier, t in the thorough tier.
func Bound(name string, q, t int) int {
	if rep.Tier == "thorough" {
		return t
	}
	return q
}

func Note(s string) {}

// Exit ends the run like a process exit.
func Exit() { stop("exit", "", "") }

func Symbolic() bool { return false }

// Sched switches on scheduling choices with at most n preemptions (n < 0: off).
func Sched(n int) { gate(n >= 0) }

// Delays switches on scheduling choices with at most n departures from the default schedule, in which the running
// goroutine goes on until it blocks and the next one in turn follows.
func Delays(n int) { gate(n >= 0) }

// SchedIO is Sched with preemptions before operations on the environment only.
func SchedIO(n int) { gate(n >= 0) }

// The order of environment operations of the counterexample is enforced in the replay, as far as it can be.
var (
	gateMu   sync.Mutex
	gateOn   bool
	gateIdx  int
	gateLast time.Time
)

func gate(on bool) {
	lock(&gateMu)
	gateOn = on && len(rep.Order) > 0
	gateLast = time.Now()
	unlock(&gateMu)
}

// Order is called at every environment operation, with its name.
func Order(name string) {
	for {
		lock(&gateMu)
		if !gateOn || gateIdx >= len(rep.Order) {
			unlock(&gateMu)
			return
		}
		since := time.Since(gateLast)
		if since > 1500*time.Millisecond {
			gateOn = false // another order of events
			unlock(&gateMu)
			return
		}
		if rep.Order[gateIdx] == name && since > 2*time.Millisecond {
			gateIdx++
			gateLast = time.Now()
			unlock(&gateMu)
			return
		}
		unlock(&gateMu)
		time.Sleep(500 * time.Microsecond)
	}
}

// MapOrder makes map iteration order nondeterministic.
func MapOrder(on bool) {}

func And(c ...bool) bool {
	for _, x := range c {
		if !x {
			return false
		}
	}
	return true
}
func Or(c ...bool) bool {
	for _, x := range c {
		if x {
			return true
		}
	}
	return false
}
func Implies(a, b bool) bool { return !a || b }
func IteU64(c bool, a, b uint64) uint64 {
	if c {
		return a
	}
	return b
}
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// Yield is a point where another goroutine may run.
func Yield() { runtime.Gosched() }

// SleepNs waits in model time (a thousand times faster natively).
func SleepNs(n int64) {
	d := time.Duration(n / 1000)
	if d < time.Microsecond {
		d = time.Microsecond
	}
	lock(&mu)
	wake := advance + n
	unlock(&mu)
	time.Sleep(d)
	lock(&mu)
	if n > 0 && wake > advance {
		advance = wake
	}
	unlock(&mu)
}

// ClockNs is the model clock: it only moves when a sleep ends, so that it does not depend on the load of the machine.
func ClockNs() int64 {
	lock(&mu)
	defer unlock(&mu)
	return advance
}

func AdvanceNs(n int64) {
	lock(&mu)
	advance += n
	unlock(&mu)
}

// Block stops the calling goroutine for ever.
func Block() { select {} }

// Idle waits until every other goroutine is finished or blocked.
func Idle() { time.Sleep(100 * time.Millisecond) }

// Lock and Unlock guard model state natively; the engine only switches goroutines at yield points.
func Lock()   { lock(&opMu) }
func Unlock() { unlock(&opMu) }
