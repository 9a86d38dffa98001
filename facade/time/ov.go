package time

import (
	real "time"

	"github.com/mozilla/crlite/go/zzvf/env"
	"github.com/mozilla/crlite/go/zzvf/vf"
)

func Now() real.Time                  { return env.Now() }
func Since(t real.Time) real.Duration { return sub(env.Now(), t) }
func Until(t real.Time) real.Duration { return sub(t, env.Now()) }

// sub is Time.Sub, without the division of its overflow check where that cannot happen.
func sub(a, b real.Time) real.Duration {
	ds := a.Unix() - b.Unix()
	if vf.And(ds > -9e9, ds < 9e9) {
		return real.Duration(ds)*real.Second + real.Duration(a.Nanosecond()-b.Nanosecond())
	}
	return a.Sub(b)
}

func Sleep(d real.Duration)           { vf.SleepNs(int64(d)) }

func After(d real.Duration) <-chan real.Time { return NewTimer(d).C }

type Timer struct {
	C       <-chan real.Time
	stopped bool
	fired   bool
}

func NewTimer(d real.Duration) *Timer {
	c := make(chan real.Time, 1)
	t := &Timer{C: c}
	go func() {
		vf.SleepNs(int64(d))
		if !t.stopped {
			t.fired = true
			c <- env.Now()
		}
	}()
	return t
}

func AfterFunc(d real.Duration, f func()) *Timer {
	t := &Timer{}
	go func() {
		vf.SleepNs(int64(d))
		if !t.stopped {
			t.fired = true
			f()
		}
	}()
	return t
}

func (t *Timer) Stop() bool {
	was := !t.stopped && !t.fired
	t.stopped = true
	return was
}

func (t *Timer) Reset(d real.Duration) bool {
	was := t.Stop()
	n := NewTimer(d)
	t.C, t.stopped, t.fired = n.C, false, false
	return was
}

// VFMaxTicks bounds how often each ticker fires.
var VFMaxTicks = 3

type Ticker struct {
	C       <-chan real.Time
	stopped bool
}

func NewTicker(d real.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan real.Time, 1)
	t := &Ticker{C: c}
	go func() {
		for i := 0; i < VFMaxTicks && !t.stopped; i++ {
			vf.SleepNs(int64(d))
			if t.stopped {
				return
			}
			select {
			case c <- env.Now():
			default:
			}
		}
	}()
	return t
}

func (t *Ticker) Stop()                     { t.stopped = true }
func (t *Ticker) Reset(d real.Duration)     {}
func Tick(d real.Duration) <-chan real.Time { return NewTicker(d).C }
