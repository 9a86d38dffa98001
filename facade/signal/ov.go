package signal

import (
	"context"
	"os"
	"sync"

	"github.com/mozilla/crlite/go/zzvf/env"
	"github.com/mozilla/crlite/go/zzvf/vf"
)

type reg struct {
	c    chan<- os.Signal
	sigs []os.Signal
}

var regs []*reg

func (r *reg) wants(s os.Signal) bool {
	if len(r.sigs) == 0 {
		return true
	}
	for _, x := range r.sigs {
		if x == s {
			return true
		}
	}
	return false
}

func Notify(c chan<- os.Signal, sig ...os.Signal) {
	vf.Lock()
	regs = append(regs, &reg{c, sig})
	vf.Unlock()
}

func Stop(c chan<- os.Signal) {
	vf.Lock()
	var l []*reg
	for _, r := range regs {
		if r.c != c {
			l = append(l, r)
		}
	}
	regs = l
	vf.Unlock()
}

func Ignore(sig ...os.Signal) {}
func Reset(sig ...os.Signal)  { vf.Lock(); regs = nil; vf.Unlock() }

func NotifyContext(parent context.Context, sig ...os.Signal) (context.Context, context.CancelFunc) {
	ctx, cancel := context.WithCancel(parent)
	ch := make(chan os.Signal, 1)
	Notify(ch, sig...)
	go func() {
		select {
		case <-ch:
			cancel()
		case <-ctx.Done():
		}
	}()
	var once sync.Once
	return ctx, func() { once.Do(func() { Stop(ch); cancel() }) }
}

// VFReset forgets what an earlier process asked for.
func VFReset() { Reset() }

// VFDeliver sends the process a signal; it dies if it does not handle it.
func VFDeliver(s os.Signal) {
	vf.Lock()
	taken := false
	var to []chan<- os.Signal
	for _, r := range regs {
		if r.wants(s) {
			taken = true
			to = append(to, r.c)
		}
	}
	vf.Unlock()
	if !taken {
		env.ExitCode = 130
		env.Exit()
	}
	for _, c := range to {
		select {
		case c <- s:
		default:
		}
	}
}
