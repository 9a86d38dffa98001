// Package env is the modelled environment: crash points, faults, scheduling points and the model clock.
package env

import (
	"errors"
	"time"

	"github.com/mozilla/crlite/go/zzvf/vf"
)

type Proc struct {
	dead bool
	done chan string
}

var (
	// CrashAt is the index of the durable operation before which the process dies; -1: never.
	CrashAt int = -1
	// FaultAt is the index of the operation that fails; -1: none.
	FaultAt int = -1
	// FaultEvery makes every operation from FaultAt on fail.
	FaultForever bool
	// FaultOnly restricts faults to operations with this name prefix.
	FaultOnly string
	// Durable counts mutating operations, Ops counts operations that may fail.
	Durable, Ops int
	// Crashed and Faulted report what happened.
	Crashed, Faulted bool
	FaultName        string
	CrashName        string
	// Hook runs before every operation (for interference by another party).
	Hook func(name string)
	// Trace, when on, records the operations.
	TraceOn bool
	Log     []string

	// ExitCode is the status a process exited with.
	ExitCode int

	cur    *Proc
	inHook bool
	on     bool
)

var ErrInjected = errors.New("injected fault")

// Reset puts the environment back to a fault-free state.
func Reset() {
	CrashAt, FaultAt, FaultForever, FaultOnly = -1, -1, false, ""
	Durable, Ops = 0, 0
	Crashed, Faulted, FaultName, CrashName = false, false, "", ""
	Hook = nil
	Skew = 0
	SkewSec = 0
	ExitCode = 0
	on = false
}

func hasPrefix(s, p string) bool { return len(s) >= len(p) && s[:len(p)] == p }

// Op is called at the start of every environment operation.
func Op(name string, mutating bool) error {
	p := cur
	if p != nil && p.dead {
		vf.Block()
	}
	if t := curThr; t != nil {
		back <- struct{}{}
		<-t.grant
	}
	vf.Yield()
	if p != nil && p.dead {
		vf.Block()
	}
	if Hook != nil && !inHook && on {
		inHook = true
		Hook(name)
		inHook = false
	}
	vf.Order(name)
	if !on {
		return nil
	}
	vf.Lock()
	if TraceOn {
		Log = append(Log, name)
	}
	if mutating {
		k := Durable
		Durable++
		if k == CrashAt && !Crashed {
			Crashed = true
			CrashName = name
			vf.Unlock()
			die("crashed")
		}
	}
	if FaultOnly == "" || hasPrefix(name, FaultOnly) {
		k := Ops
		Ops++
		if FaultAt >= 0 && (k == FaultAt || FaultForever && k >= FaultAt) {
			Faulted = true
			FaultName = name
			vf.Unlock()
			return ErrInjected
		}
	}
	vf.Unlock()
	return nil
}

// Fault is an operation that may fail but is not visible to others.
func Fault(name string) error {
	if p := cur; p != nil && p.dead {
		vf.Block()
	}
	if !on || FaultOnly != "" && !hasPrefix(name, FaultOnly) {
		return nil
	}
	vf.Lock()
	defer vf.Unlock()
	k := Ops
	Ops++
	if FaultAt >= 0 && (k == FaultAt || FaultForever && k >= FaultAt) {
		Faulted = true
		FaultName = name
		return ErrInjected
	}
	return nil
}

func die(how string) {
	p := cur
	if p == nil {
		vf.Exit()
	}
	vf.Lock()
	p.dead = true
	vf.Unlock()
	p.done <- how
	vf.Block()
}

// Exit ends the current process.
func Exit() {
	if p := cur; p != nil && p.dead {
		vf.Block()
	}
	vf.Yield()
	vf.Order("exit")
	die("exited")
}

// Run runs f as a process of its own and reports how it ended: done, crashed or exited.
func Run(f func()) string {
	p := &Proc{done: make(chan string, 16)}
	saved, savedOn := cur, on
	cur = p
	on = true
	go func() {
		f()
		p.done <- "done"
	}()
	r := <-p.done
	if r != "done" {
		vf.Idle()
	}
	cur = saved
	on = savedOn
	return r
}

// Base is the model time at the start of the run.
var Base = time.Unix(1700000000, 0).UTC()

// Skew is a (possibly symbolic) offset of the model time.
var Skew time.Duration

// NowNs is the model time in Unix nanoseconds.
func NowNs() int64 { return 1700000000000000000 + vf.ClockNs() + int64(Skew) + SkewSec*1e9 }

// SkewSec is a (possibly symbolic) offset of the model time in seconds.
var SkewSec int64

// Now is the model time.
func Now() time.Time {
	if Skew == 0 {
		if SkewSec != 0 {
			return time.Unix(1700000000+vf.ClockNs()/1e9+SkewSec, vf.ClockNs()%1e9).UTC()
		}
		return Base.Add(time.Duration(vf.ClockNs()))
	}
	return time.Unix(0, NowNs()).UTC()
}

type thr struct {
	grant chan struct{}
	done  bool
}

var (
	curThr *thr
	back   chan struct{}
)

// Threads runs fs as interleaved clients: before every operation, and at the start, pick chooses which of the
// unfinished ones goes on (up to its next operation); pick may return -1 to be asked again.
func Threads(pick func(alive []int) int, fs ...func()) {
	var ts []*thr
	back = make(chan struct{})
	for _, f := range fs {
		t := &thr{grant: make(chan struct{})}
		ts = append(ts, t)
		f := f
		go func() {
			<-t.grant
			f()
			t.done = true
			back <- struct{}{}
		}()
	}
	for {
		var alive []int
		for i, t := range ts {
			if !t.done {
				alive = append(alive, i)
			}
		}
		if len(alive) == 0 {
			break
		}
		i := pick(alive)
		if i < 0 {
			continue
		}
		curThr = ts[i]
		ts[i].grant <- struct{}{}
		<-back
		curThr = nil
	}
}
