//vf:pkg storage
//vf:note Clients run the real RedisCache against a model of the Redis commands (each command atomic, keys expire by the model clock); at every command boundary the exploration chooses which client goes on or that an arbitrary (symbolic) time passes, so every interleaving within the bounds is covered.
//vf:note Random lock tokens of different attempts are assumed distinct; a client counts as believing it holds the lock from the successful return of the acquisition until it starts the release or the documented lock lifetime has passed since it asked.
package storage

import (
	"time"

	"github.com/go-redis/redis"

	"github.com/mozilla/crlite/go/zzvf/env"
	vf "github.com/mozilla/crlite/go/zzvf/vf"
)

type vfHolder struct {
	rc     *RedisCache
	since  int64
	holds  bool
	got    int
	token  string
	failed int
}

func (h *vfHolder) believes() bool {
	return h.holds && env.NowNs() < h.since+int64(COMMIT_LOCK_EXPIRATION)
}

func vfNewCache() *RedisCache {
	rc, err := NewRedisCache("x", time.Second)
	if err != nil {
		panic(err)
	}
	return rc
}

func (h *vfHolder) attempt(check bool, others ...*vfHolder) {
	since := env.NowNs()
	tok, err := h.rc.AcquireCommitLock()
	if err != nil || tok == nil {
		h.failed++
		return
	}
	h.since, h.holds, h.token = since, true, *tok
	h.got++
	n := 0
	for _, o := range others {
		if o.believes() {
			n++
		}
	}
	// a lock whose lifetime ran out between the request and its return is not believed held
	vf.Assert(!h.believes() || n == 0, "no two clients believe they hold the commit lock")
	if check {
		ok, err := h.rc.HasCommitLock(h.token)
		vf.Assert(err == nil, "the lock check works")
		if h.believes() {
			vf.Assert(ok, "the holder sees its own lock while it is unexpired")
		}
		m := 0
		for _, o := range others {
			if o.believes() && o != h {
				m++
			}
		}
		if m > 0 {
			vf.Assert(!ok, "a client does not see a lock another one holds as its own")
		}
	}
	h.holds = false
	h.rc.ReleaseCommitLock(h.token)
}

func vfLockRun(nclients, rounds, jumps int) {
	redis.VFServer = redis.NewServer()
	env.Reset()
	var hs []*vfHolder
	for i := 0; i < nclients; i++ {
		hs = append(hs, &vfHolder{rc: vfNewCache()})
	}
	var fs []func()
	for i := range hs {
		h := hs[i]
		check := i == 0
		var others []*vfHolder
		for j := range hs {
			if j != i {
				others = append(others, hs[j])
			}
		}
		fs = append(fs, func() {
			for r := 0; r < rounds; r++ {
				h.attempt(check, others...)
			}
		})
	}
	env.Threads(func(alive []int) int {
		n := len(alive)
		if jumps > 0 {
			n++
		}
		k := 0
		if n > 1 {
			k = vf.Choose("next", n)
		}
		if k < len(alive) {
			return alive[k]
		}
		jumps--
		d := vf.U64("time passing (ns)")
		vf.Assume(d <= uint64(2*COMMIT_LOCK_EXPIRATION))
		env.Skew += time.Duration(d)
		return -1
	}, fs...)
	got := 0
	for _, h := range hs {
		got += h.got
	}
	vf.Observe("acquisitions", got)
	vf.Assert(got > 0, "someone gets a free lock")
	// everybody has released or timed out: the lock must be free unless an unreleased one can still run
	_, left := redis.VFServer.VFGet(COMMIT_LOCK_KEY)
	vf.Assert(!left, "a released lock is free again")
}

func VF_C17_interleave() {
	vfLockRun(vf.Bound("clients", 2, 3), vf.Bound("rounds", 1, 1), vf.Bound("expiries", 1, 2))
}

// Two clients with repeated attempts: a late release must not remove the other's new lock.
func VF_C17_repeat() {
	vfLockRun(2, vf.Bound("attempts each", 2, 2), vf.Bound("expiries in repeat", 1, 2))
}

// A third client waiting while one releases late.
func VF_C17_three() {
	vfLockRun(3, 1, vf.Bound("expiries with three", 1, 1))
}

// Every single command failure: a client never believes it holds a lock it does not hold.
func VF_C17_faults() {
	redis.VFServer = redis.NewServer()
	env.Reset()
	a, b := &vfHolder{rc: vfNewCache()}, &vfHolder{rc: vfNewCache()}
	holder := vf.Choose("held by another", 2) == 1
	if holder {
		t, err := b.rc.AcquireCommitLock()
		vf.Assert(err == nil && t != nil, "a free lock is granted")
		b.token, b.since, b.holds = *t, env.NowNs(), true
	}
	env.Run(func() {
		env.FaultAt = vf.Choose("fault", 6) - 1
		a.attempt(false, b)
	})
	if holder {
		ok, err := b.rc.HasCommitLock(b.token)
		vf.Assert(err == nil && ok, "a failing client does not disturb the holder")
	}
}
