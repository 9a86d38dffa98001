//vf:pkg cmd/ct-fetch
//vf:use merkle.go
//vf:use rfclog.go
//vf:note Stored positions, signed tree size and the time since the last update are symbolic (sizes below 2^48); batch sizes enumerated. Domain: the stored range lies inside the signed tree. One job: its work is planned and run up to its first request; the second entry follows jobs on small logs to the end.
package main

import (
	"context"
	"errors"
	"time"

	"github.com/google/certificate-transparency-go"
	"github.com/google/certificate-transparency-go/client"

	"github.com/mozilla/crlite/go"
	"github.com/mozilla/crlite/go/zzvf/env"
	vf "github.com/mozilla/crlite/go/zzvf/vf"
)

// vfPlanLog refuses every proof but records what was asked.
type vfPlanLog struct {
	n, ts  uint64
	fail   bool
	proofs []vfReq
	gets   []vfReq
}

func (l *vfPlanLog) GetSTH() (*ct.SignedTreeHead, error) {
	if l.fail {
		return nil, errors.New("no tree head")
	}
	return &ct.SignedTreeHead{TreeSize: l.n, Timestamp: l.ts}, nil
}

func (l *vfPlanLog) GetSTHConsistency(a, b uint64) ([][]byte, error) {
	l.proofs = append(l.proofs, vfReq{a, b})
	return nil, errors.New("no proof")
}

func (l *vfPlanLog) GetRawEntries(a, b int64) (*ct.GetEntriesResponse, error) {
	l.gets = append(l.gets, vfReq{uint64(a), uint64(b)})
	return nil, errors.New("no entries")
}

func VF_C05_plan() {
	env.Reset()
	job := []uint64{4096, 4, 5, 8, 1024, 1 << 40, 100}[vf.Choose("job", vf.Bound("batch sizes", 4, 7))]
	*ctconfig.BatchSize = job
	*ctconfig.PollingDelay = 1
	l := &vfPlanLog{n: vf.U64("tree size"), ts: 1700000000000, fail: vf.Choose("no sth", 2) == 1}
	vf.Assume(l.n < 1<<48)
	client.VFLogs = map[string]client.VFLog{vfURL: l}
	st := &types.CTLogState{LogID: "x", ShortURL: "log.example"}
	fresh := vf.Choose("fresh", 2) == 1
	if !fresh {
		st.MinEntry, st.MaxEntry = vf.U64("min"), vf.U64("max")
		vf.Assume(vf.And(st.MinEntry <= st.MaxEntry, st.MaxEntry < l.n))
		// Positions that jobs leave behind: see VF_C05_progress.
		vf.Assume(st.MinEntry != 1)
		age := []time.Duration{0, 10*time.Minute - time.Second, 10*time.Minute + time.Second, 1000 * time.Hour}[vf.Choose("age", 4)]
		st.LastUpdateTime = env.Now().Add(-age)
	}
	min, max := st.MinEntry, st.MaxEntry
	w, err := NewLogWorker(context.Background(), st, vfMeta())
	vf.Assert(err == nil, "a job is planned")
	if err != nil {
		return
	}
	ch := make(chan LogSyncMessage, 4)
	vf.Assert(w.Run(context.Background(), ch) == nil, "a refused proof is a temporary failure")
	vf.Assert(len(l.gets) == 0, "nothing is downloaded that cannot be verified")
	vf.Assert(len(l.proofs) <= 1, "one proof is asked for")
	if l.fail || l.n <= 3 {
		vf.Assert(len(l.proofs) == 0, "nothing is requested without a usable tree head")
		return
	}
	if len(l.proofs) == 0 {
		if fresh {
			vf.Assert(false, "a new log is initialised")
			return
		}
		// Nothing to do: no backlog and nothing new, or new entries that are few and can wait.
		vf.Assert(min == 0, "a backlog is downloaded")
		vf.Assert(vf.Or(max == l.n-1, max+job >= l.n), "many new entries are downloaded")
		vf.Assert(vf.Or(max == l.n-1, !w.LogState.LastUpdateTime.Before(env.Now().Add(-11*time.Minute))), "new entries are downloaded in the end")
		return
	}
	a, b := l.proofs[0].first, l.proofs[0].second
	vf.Assert(a < b, "a proof between increasing sizes is asked for")
	vf.Assert(b <= l.n, "the proof is inside the signed tree")
	vf.Assert(a > 0, "a proof from the empty tree proves nothing")
	switch {
	case fresh:
		vf.Assert(vf.Or(a == l.n-job, vf.And(a == 3, l.n <= job+3)), "a new log starts with the newest batch")
		vf.Assert(b == l.n, "a new log starts with the newest entries")
		vf.Assert(b <= a+job, "at most one batch is requested")
	case vf.And(a == max+1, vf.Or(min == 0, b != 4)):
		vf.Assert(vf.Or(max < l.n-1), "an update has entries")
		vf.Assert(b-a <= job, "at most one batch is requested")
	default:
		vf.Assert(min > 0, "a backfill has entries")
		vf.Assert(vf.Or(b == min, vf.And(min < 4, b == 4)), "a backfill is adjacent to what is covered")
		vf.Assert(vf.Or(a < min, a == 3), "a backfill is adjacent to what is covered")
		vf.Assert(vf.Or(min <= a, min-a <= job), "at most one batch is requested")
		vf.Assert(vf.Or(a != 3, min <= job), "at most one batch is requested from the start")
	}
}

// Jobs on a log that stays as it is, some of them interrupted, cover the whole log in the end; then nothing is asked for.
func VF_C05_progress() {
	env.Reset()
	*ctconfig.PollingDelay = 1
	*ctconfig.BatchSize = []uint64{4, 8, 5}[vf.Choose("batch size", 3)]
	job := *ctconfig.BatchSize
	n := 4 + vf.Choose("tree size", vf.Bound("tree size, from 4", 10, 17))
	l := vfNewRfc(n, func(i int) uint64 { return 1690000000000 + uint64(i) })
	st := types.CTLogState{ShortURL: "log.example"}
	early := 0
	if vf.Choose("small log first", 2) == 1 {
		// What the log had when it was first seen.
		l.n = 4 + vf.Choose("first size", n-4+1)
		early = 1
	}
	interrupted := vf.Bound("interrupted jobs", 1, 2) + early
	for j := 0; j < n+4; j++ {
		ctx, cancel := context.WithCancel(context.Background())
		env.Hook = nil
		if j == early {
			l.n = n
		}
		if j >= early && j < interrupted {
			k := int(vf.Below("cancelled at", 16))
			c := 0
			env.Hook = func(op string) {
				if c == k {
					cancel()
				}
				c++
			}
		}
		l.asked, l.got = nil, nil
		fresh := st.LastUpdateTime.IsZero()
		min, max := st.MinEntry, st.MaxEntry
		env.Run(func() {
			ms, _ := vfJob(ctx, st)
			for _, m := range ms {
				if m.LogState != nil {
					st = *m.LogState
				}
			}
		})
		cancel()
		lo, hi := uint64(1<<40), uint64(0)
		for _, g := range l.got {
			vf.Assert(g.first <= g.second && g.second < uint64(l.n), "entries inside the tree are requested")
			if g.first < lo {
				lo = g.first
			}
			if g.second > hi {
				hi = g.second
			}
		}
		if len(l.got) > 0 {
			slack := uint64(0)
			if fresh {
				slack = 3
			} else {
				vf.Assert(hi+1 == min || lo == max+1, "what is requested is adjacent to what is covered")
			}
			vf.Assert(hi-lo < job+slack, "at most one batch is requested")
		}
		env.Skew += time.Hour
		if !st.LastUpdateTime.IsZero() && st.MinEntry == 0 && st.MaxEntry == uint64(n)-1 && fresh == false && min == 0 && max == uint64(n)-1 {
			vf.Assert(len(l.got) == 0 && len(l.asked) == 0, "nothing is requested when everything is covered")
			vf.Reached("covered")
			return
		}
	}
	vf.Assert(false, "the whole log is covered in the end")
}
