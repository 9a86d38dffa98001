//vf:pkg cmd/ct-fetch
//vf:use merkle.go
//vf:use rfclog.go
//vf:note Whole download jobs (planning, proof, entries, verification, publication) against a modelled RFC 6962 log of up to 9 entries (16 thorough): enumerated stored ranges, tree sizes, batch sizes, answer sizes and misbehaviours; the altered timestamp, the altered proof hash and the position of a failing or cancelled operation are symbolic. SHA-256 on symbolic data is an uninterpreted collision-free function, checked against the real one on every counterexample.
package main

import (
	"context"
	"time"

	"github.com/google/certificate-transparency-go"

	"github.com/mozilla/crlite/go"
	"github.com/mozilla/crlite/go/zzvf/env"
	"github.com/mozilla/crlite/go/zzvf/pki"
	vf "github.com/mozilla/crlite/go/zzvf/vf"
)

// vfSeen checks the messages of a job: stored says which entries are known to be stored; the last published state is
// returned.
func vfSeen(l *vfRfc, ms []LogSyncMessage, stored map[int]bool, last types.CTLogState) types.CTLogState {
	for _, m := range ms {
		if m.Certificate != nil {
			for i := range l.leaves {
				if string(types.NewSerialFromCertificate(m.Certificate).BinaryString()) == string([]byte{1, byte(i)}) {
					if vf.And(m.Timestamp == l.ts[i], m.LogId[0] == 1) {
						stored[i] = true
					}
				}
			}
		}
		s := m.LogState
		if s == nil {
			continue
		}
		vf.Assert(vf.And(s.MinEntry <= s.MaxEntry, s.MaxEntry < uint64(l.n)), "the published range is inside the signed tree")
		ok, newest := true, uint64(0)
		for i := int(s.MinEntry); i <= int(s.MaxEntry) && i < l.n; i++ {
			ok = ok && stored[i]
			if l.ts[i] > newest {
				newest = l.ts[i]
			}
		}
		vf.Assert(ok, "every published entry was downloaded as the log has it")
		if !last.LastUpdateTime.IsZero() {
			vf.Assert(s.MinEntry <= last.MinEntry && s.MaxEntry >= last.MaxEntry, "coverage never shrinks")
		}
		whole := s.MinEntry == 0 && s.MaxEntry == uint64(l.n)-1
		vf.Assert(s.MaxTimestamp <= newest || s.MaxTimestamp <= last.MaxTimestamp || whole && s.MaxTimestamp <= l.sthTS, "the newest timestamp is that of a covered entry or of a whole tree")
		vf.Assert(s.LogID == vfMeta().LogID, "the log's identity is published")
		last = *s
	}
	return last
}

func vfTS(i int) uint64 { return 1690000000000 + uint64(i^1)*1000 }

// vfState is a stored state, entries min..max covered.
func vfState(l *vfRfc, min, max int, age time.Duration) types.CTLogState {
	st := types.CTLogState{ShortURL: "log.example", MinEntry: uint64(min), MaxEntry: uint64(max), LastUpdateTime: env.Now().Add(-age)}
	for i := min; i <= max; i++ {
		if i == min || l.ts[i] < st.MinTimestamp {
			st.MinTimestamp = l.ts[i]
		}
		if l.ts[i] > st.MaxTimestamp {
			st.MaxTimestamp = l.ts[i]
		}
	}
	return st
}

// vfStart is a tree and a stored state for it.
func vfStart(max int) (*vfRfc, types.CTLogState, map[int]bool) {
	env.Reset()
	*ctconfig.PollingDelay = 1
	*ctconfig.LogExpiredEntries = false
	*ctconfig.BatchSize = []uint64{4, 8}[vf.Choose("batch size", vf.Bound("batch sizes", 1, 2))]
	l := vfNewRfc(max, vfTS)
	l.n = 1 + vf.Choose("tree size", max)
	stored := map[int]bool{}
	st := types.CTLogState{ShortURL: "log.example"}
	if l.n > 3 && vf.Choose("stored state", 2) == 1 {
		lo := vf.Choose("min", l.n)
		hi := lo + vf.Choose("covered", l.n-lo)
		if lo == 1 {
			vf.Exit()
		}
		st = vfState(l, lo, hi, time.Hour)
		for i := lo; i <= hi; i++ {
			stored[i] = true
		}
	}
	return l, st, stored
}

// vfBend makes the log misbehave; fatal says that a proof or entry is not the log's own.
func vfBend(l *vfRfc, cancel func()) {
	at := vf.Choose("at", l.n)
	other := func(f func() []ct.LeafEntry) {
		l.serve = func(i int) []ct.LeafEntry {
			if i == at {
				return f()
			}
			return []ct.LeafEntry{l.leaves[i]}
		}
	}
	switch vf.Choose("misbehaviour", 10) {
	case 0: // another timestamp
		t := vf.U64("altered timestamp")
		vf.Assume(t != l.ts[at])
		other(func() []ct.LeafEntry {
			return []ct.LeafEntry{ct.VFLeaf(t, false, []byte(vfCertName(at)), vfIssuerDER)}
		})
	case 1: // another certificate
		pki.New("other", []byte{9, 9}, "key", time.Unix(2000000000, 0))
		other(func() []ct.LeafEntry {
			return []ct.LeafEntry{ct.VFLeaf(l.ts[at], false, []byte("CERT:other"), vfIssuerDER)}
		})
	case 2: // another entry of the log
		with := vf.Choose("served instead", l.n)
		if with == at {
			vf.Exit()
		}
		other(func() []ct.LeafEntry { return []ct.LeafEntry{l.leaves[with]} })
	case 3: // unreadable
		other(func() []ct.LeafEntry { return []ct.LeafEntry{{LeafInput: []byte{1, 2, 3}, ExtraData: []byte{}}} })
	case 4: // left out, while later entries are served
		first := true // an empty answer is asked again
		other(func() []ct.LeafEntry {
			if first {
				first = false
				return nil
			}
			return []ct.LeafEntry{l.leaves[at]}
		})
	case 5: // twice
		other(func() []ct.LeafEntry { return []ct.LeafEntry{l.leaves[at], l.leaves[at]} })
	case 6: // an entry more than asked for
		l.extra = true
	case 7: // a wrong hash in the proof
		h := vf.Bytes("proof hash", 32)
		k := at
		l.proof = func(p [][]byte) [][]byte {
			if k < len(p) {
				same := true
				for i := range h {
					same = vf.And(same, h[i] == p[k][i])
				}
				vf.Assume(!same)
				p[k] = h
			}
			return p
		}
	case 8: // a proof of the wrong length
		k := at
		l.proof = func(p [][]byte) [][]byte {
			switch {
			case k == 0:
				return append(p, p...)
			case k == 1:
				return nil
			case k == 2 && len(p) > 0:
				return p[1:]
			case k == 3 && len(p) > 0:
				return p[:len(p)-1]
			}
			return append(p, make([]byte, 32))
		}
	case 9: // cancelled
		k := int(vf.Below("cancelled at", 64))
		n := 0
		env.Hook = func(op string) {
			if n == k {
				cancel()
			}
			n++
		}
	}
}

// vfOdd makes an entry of the log itself unusable: it cannot be stored, so it must not be covered.
func vfOdd(l *vfRfc) {
	at := vf.Choose("odd entry", l.n)
	far := time.Unix(2000000000, 0)
	switch vf.Choose("oddity", 6) {
	case 0:
		l.leaves[at].LeafInput = []byte{0, 0, 1, 2, 3}
	case 1:
		l.leaves[at].ExtraData = []byte{1}
	case 2:
		pki.Add(&pki.Cert{DER: []byte("CERT:bad"), CT: pki.Fatal, ZC: pki.Fatal})
		l.leaves[at] = ct.VFLeaf(l.ts[at], false, []byte("CERT:bad"), vfIssuerDER)
	case 3:
		pki.Add(&pki.Cert{DER: []byte("CERT:bad"), CT: pki.Fatal, ZC: pki.Fatal})
		l.leaves[at] = ct.VFLeaf(l.ts[at], false, []byte(vfCertName(at)), []byte("CERT:bad"))
	case 4:
		pki.Add(&pki.Cert{DER: []byte("CERT:pre"), TBS: pki.TBS([]byte{8}), SPKI: []byte("pre key"), NotAfter: far, PreIssuer: true})
		l.leaves[at] = ct.VFLeaf(l.ts[at], true, []byte(vfCertName(at)), []byte("CERT:pre"))
	case 5:
		pki.Add(&pki.Cert{DER: []byte("CERT:pre"), TBS: pki.TBS([]byte{8}), SPKI: []byte("pre key"), NotAfter: far, PreIssuer: true})
		pki.Add(&pki.Cert{DER: []byte("CERT:bad"), CT: pki.Fatal, ZC: pki.Fatal})
		l.leaves[at] = ct.VFLeaf(l.ts[at], true, []byte(vfCertName(at)), []byte("CERT:pre"), []byte("CERT:bad"))
	}
}

// One job from any stored state against an honest, failing or dishonest log.
func VF_C03_job() {
	l, st, stored := vfStart(vf.Bound("tree size", 6, 9))
	l.chunk = []int{99, 2}[vf.Choose("entries per answer", 2)]
	ctx, cancel := context.WithCancel(context.Background())
	switch vf.Choose("behaviour", 5) {
	case 0:
		if st.MaxEntry > 0 && vf.Choose("just updated", 2) == 1 {
			st.LastUpdateTime = env.Now()
		}
	case 1:
		env.FaultAt = int(vf.Below("fails at", 64))
		env.FaultForever = vf.Choose("for ever", 2) == 1
	case 2:
		l.busy = 2
	case 3:
		vfBend(l, cancel)
	case 4:
		vfOdd(l)
	}
	how := env.Run(func() {
		ms, _ := vfJob(ctx, st)
		vfSeen(l, ms, stored, st)
	})
	vf.Assert(how == "done", "the job ends")
	cancel()
}

// Several jobs in a row on a growing log, one of them disturbed.
func VF_C03_history() {
	env.Reset()
	*ctconfig.PollingDelay = 1
	*ctconfig.BatchSize = 4
	max := vf.Bound("tree size", 9, 12)
	l := vfNewRfc(max, vfTS)
	l.n = 1 + vf.Choose("first size", 6)
	l.chunk = 3
	st := types.CTLogState{ShortURL: "log.example"}
	stored := map[int]bool{}
	jobs := vf.Bound("jobs", 3, 4)
	disturbed := vf.Choose("disturbed job", jobs)
	ctx, cancel := context.WithCancel(context.Background())
	for j := 0; j < jobs; j++ {
		if j > 0 {
			l.n += vf.Choose("growth", 3)
			if vf.Choose("later", 2) == 1 {
				env.Skew += time.Hour
			}
			if l.n > max {
				vf.Exit()
			}
		}
		l.serve, l.proof, env.Hook = nil, nil, nil
		env.FaultAt = -1
		if j == disturbed {
			if vf.Choose("dishonest", 2) == 1 {
				at := vf.Choose("at", l.n)
				t := vf.U64("altered timestamp")
				vf.Assume(t != l.ts[at])
				l.serve = func(i int) []ct.LeafEntry {
					if i == at {
						return []ct.LeafEntry{ct.VFLeaf(t, false, []byte(vfCertName(at)), vfIssuerDER)}
					}
					return []ct.LeafEntry{l.leaves[i]}
				}
			} else {
				env.FaultAt = int(vf.Below("fails at", 64))
			}
		}
		how := env.Run(func() {
			ms, _ := vfJob(ctx, st)
			st = vfSeen(l, ms, stored, st)
		})
		vf.Assert(how == "done", "the job ends")
	}
	cancel()
}
