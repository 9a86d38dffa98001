//vf:pkg cmd/ct-fetch
//vf:use tiledlog.go
//vf:note Whole jobs of the tiled log worker against a modelled tiled log with tiles of 4 entries: enumerated tree sizes (to 9, thorough 13), stored positions and batch sizes; timestamps of the checkpoint and of one entry symbolic; the position of a failing or cancelled operation symbolic, an unreadable entry, certificate or issuer anywhere. The authentication of tiles against the checkpoint is the sunlight library's and outside.
package main

import (
	"context"
	"time"

	"filippo.io/sunlight"

	"github.com/mozilla/crlite/go"
	"github.com/mozilla/crlite/go/zzvf/env"
	"github.com/mozilla/crlite/go/zzvf/pki"
	vf "github.com/mozilla/crlite/go/zzvf/vf"
)

// vfTSeen checks the messages of a job; stored says how many entries are stored.
func vfTSeen(l *vfTiled, ms []LogSyncMessage, stored *int, last types.CTLogState) types.CTLogState {
	for _, m := range ms {
		if m.Certificate != nil {
			want := string([]byte{1, byte(*stored)})
			vf.Assert(*stored < l.n && types.NewSerialFromCertificate(m.Certificate).BinaryString() == want, "entries are read once, in order")
			if *stored < l.n {
				vf.Assert(vf.And(m.Timestamp == uint64(l.entries[*stored].Timestamp), m.LogId[0] == 1), "an entry is passed on with its own timestamp and log")
			}
			iss := types.NewIssuerFromCertificate(m.Issuer)
			vf.Assert(iss.ID() == vfIssuerID(), "an entry is passed on with its issuer")
			*stored++
		}
		s := m.LogState
		if s == nil {
			continue
		}
		vf.Assert(s.MinEntry == 0, "coverage starts at the first entry")
		vf.Assert(s.MaxEntry < uint64(*stored), "every published entry was read")
		vf.Assert(s.MaxEntry < uint64(l.n), "the published range is inside the checkpoint's tree")
		ok := s.MaxTimestamp <= last.MaxTimestamp
		for i := 0; i < int(s.MaxEntry)+1 && i < l.n; i++ {
			ok = vf.Or(ok, s.MaxTimestamp <= uint64(l.entries[i].Timestamp))
		}
		if s.MaxEntry == uint64(l.n)-1 {
			ok = vf.Or(ok, s.MaxTimestamp <= uint64(l.sthTS))
		}
		vf.Assert(ok, "the newest timestamp is that of a covered entry or of a whole tree")
		vf.Assert(s.MaxEntry >= last.MaxEntry && s.MaxTimestamp >= last.MaxTimestamp, "coverage never shrinks")
		vf.Assert(s.LogID == vfTMeta().LogID, "the log's identity is published")
		last = *s
	}
	return last
}

func vfTDisturb(l *vfTiled, cancel func()) {
	switch vf.Choose("behaviour", 7) {
	case 0:
	case 1:
		env.FaultAt = int(vf.Below("fails at", 32))
		env.FaultForever = vf.Choose("for ever", 2) == 1
	case 2:
		if l.n > 0 {
			l.bad = vf.Choose("unreadable", l.n)
		}
	case 3:
		if l.n > 0 {
			at := vf.Choose("bad certificate", l.n)
			c := pki.Add(&pki.Cert{DER: []byte("CERT:bad"), CT: pki.Fatal, ZC: pki.Fatal})
			e := *l.entries[at]
			e.Certificate = c.DER
			l.entries[at] = &e
		}
	case 4:
		if l.n > 0 {
			at := vf.Choose("unknown issuer", l.n)
			e := *l.entries[at]
			e.ChainFingerprints = [][32]byte{{99}}
			l.entries[at] = &e
		}
	case 6:
		// Issued through a precertificate signing certificate, and one of the two is not available.
		if l.n > 0 {
			at := vf.Choose("unknown issuer behind preissuer", l.n)
			pre := pki.Add(&pki.Cert{DER: []byte("CERT:pre"), TBS: pki.TBS([]byte{8}), SPKI: []byte("pre key"), NotAfter: time.Unix(2000000000, 0), PreIssuer: true})
			f := l.vfIssuer(2, pre.DER)
			e := *l.entries[at]
			e.IsPrecert, e.PreCertificate, e.Certificate = true, e.Certificate, []byte("TBS")
			e.ChainFingerprints = [][32]byte{f, {99}}
			if vf.Choose("chain ends", 2) == 1 {
				e.ChainFingerprints = [][32]byte{f}
			}
			l.entries[at] = &e
		}
	case 5:
		k := int(vf.Below("cancelled at", 32))
		n := 0
		env.Hook = func(op string) {
			if n == k {
				cancel()
			}
			n++
		}
	}
}

// One job from any stored position.
func VF_C04_job() {
	env.Reset()
	*ctconfig.PollingDelay = 1
	*ctconfig.LogExpiredEntries = false
	*ctconfig.BatchSize = []uint64{2, 4, 3}[vf.Choose("batch size", vf.Bound("batch sizes", 2, 3))]
	odd := vf.U64("odd timestamp")
	vf.Assume(odd < 1<<50)
	max := vf.Bound("tree size", 9, 13)
	n := vf.Choose("tree size", max+1)
	at := 0
	if n > 0 {
		at = n - 1 - vf.Choose("odd entry", 2)*(n-1)
	}
	l := vfNewTiled(max, func(i int) int64 {
		if i == at {
			return int64(odd)
		}
		return 1690000000000 + int64(i)
	})
	l.n = n
	l.sthTS = int64(vf.Below("checkpoint timestamp", 1<<50))
	st := types.CTLogState{ShortURL: "tiled.example"}
	stored := 0
	if n > 0 && vf.Choose("stored state", 2) == 1 {
		st.MaxEntry = uint64(vf.Choose("max", n))
		st.MaxTimestamp = 1690000000000
		st.LastUpdateTime = env.Now().Add(-time.Hour)
		if vf.Choose("just updated", 2) == 1 {
			st.LastUpdateTime = env.Now()
		}
		stored = int(st.MaxEntry) + 1
	}
	ctx, cancel := context.WithCancel(context.Background())
	vfTDisturb(l, cancel)
	im := map[string]*types.Certificate{}
	how := env.Run(func() {
		ms, _ := vfTJob(ctx, st, &im)
		vfTSeen(l, ms, &stored, st)
	})
	vf.Assert(how == "done", "the job ends")
	cancel()
}

// Several jobs in a row on a growing log, each saved position being the start of the next job; one job is disturbed.
func VF_C04_history() {
	env.Reset()
	*ctconfig.PollingDelay = 1
	*ctconfig.BatchSize = []uint64{2, 4}[vf.Choose("batch size", 2)]
	max := vf.Bound("tree size", 9, 13)
	l := vfNewTiled(max, func(i int) int64 { return 1690000000000 + int64(i^1) })
	l.n = vf.Choose("first size", 6)
	st := types.CTLogState{ShortURL: "tiled.example"}
	jobs := vf.Bound("jobs", 3, 4)
	disturbed := vf.Choose("disturbed job", jobs)
	im := map[string]*types.Certificate{}
	for j := 0; j < jobs; j++ {
		if j > 0 {
			l.n += []int{0, 1, 4}[vf.Choose("growth", 3)]
			if vf.Choose("later", 2) == 1 {
				env.Skew += time.Hour
			}
			if l.n > max {
				vf.Exit()
			}
		}
		ctx, cancel := context.WithCancel(context.Background())
		env.Hook, env.FaultAt, env.FaultForever, l.bad = nil, -1, false, -1
		keep := append([]*sunlight.LogEntry{}, l.entries...)
		if j == disturbed {
			vfTDisturb(l, cancel)
		}
		stored := 0
		if !st.LastUpdateTime.IsZero() {
			stored = int(st.MaxEntry) + 1
		}
		how := env.Run(func() {
			ms, _ := vfTJob(ctx, st, &im)
			st = vfTSeen(l, ms, &stored, st)
		})
		vf.Assert(how == "done", "the job ends")
		l.entries = keep
		cancel()
	}
}

// Undisturbed jobs read the whole log in the end.
func VF_C04_progress() {
	env.Reset()
	*ctconfig.PollingDelay = 1
	*ctconfig.BatchSize = []uint64{2, 4, 8}[vf.Choose("batch size", 3)]
	max := vf.Bound("tree size", 13, 21)
	l := vfNewTiled(max, func(i int) int64 { return 1690000000000 + int64(i) })
	l.n = vf.Choose("tree size", max+1)
	st := types.CTLogState{ShortURL: "tiled.example"}
	im := map[string]*types.Certificate{}
	for j := 0; j < 3; j++ {
		stored := 0
		if !st.LastUpdateTime.IsZero() {
			stored = int(st.MaxEntry) + 1
		}
		env.Run(func() {
			ms, err := vfTJob(context.Background(), st, &im)
			vf.Assert(err == nil, "an undisturbed job succeeds")
			st = vfTSeen(l, ms, &stored, st)
		})
		env.Skew += time.Hour
	}
	if l.n == 0 {
		vf.Assert(st.LastUpdateTime.IsZero(), "an empty log is not covered")
		return
	}
	vf.Assert(!st.LastUpdateTime.IsZero() && st.MaxEntry == uint64(l.n)-1, "the whole log is covered in the end")
	vf.Assert(st.MaxTimestamp == uint64(l.sthTS), "a log without new entries is covered up to its checkpoint")
}
