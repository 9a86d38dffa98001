//vf:pkg .
package types

import (
	"encoding/base64"

	vf "github.com/mozilla/crlite/go/zzvf/vf"
)

// The cutoff in exact arithmetic, for every state.
func VF_C06_cutoff() {
	s := CTLogState{MMD: vf.U64("mmd"), MaxTimestamp: vf.U64("max")}
	got := s.CoverageCutoff()
	if s.MaxTimestamp/1000 < s.MMD {
		vf.Assert(got == 0, "no cutoff when the delay exceeds the newest timestamp")
	} else {
		vf.Assert(got == s.MaxTimestamp-s.MMD*1000, "the cutoff is the newest timestamp minus the merge delay")
	}
}

// The map over several states: known log identities only, each with its own cutoff.
func VF_C06_map() {
	n := vf.Choose("logs", vf.Bound("logs", 2, 3)+1)
	var st []CTLogState
	var ids [][32]byte
	for i := 0; i < n; i++ {
		var id [32]byte
		copy(id[:], vf.Bytes("id", 32))
		text := base64.StdEncoding.EncodeToString(id[:])
		if vf.Choose("short", 2) == 1 {
			text = base64.StdEncoding.EncodeToString(id[:31])
			id = [32]byte{}
			st = append(st, CTLogState{LogID: text, MMD: uint64(vf.U16("mmd")), MaxTimestamp: uint64(vf.U32("max"))})
			continue
		}
		for _, o := range ids {
			vf.Assume(o != id)
		}
		ids = append(ids, id)
		st = append(st, CTLogState{LogID: text, MMD: uint64(vf.U16("mmd")), MaxTimestamp: uint64(vf.U32("max")), MinEntry: vf.U64("min entry"), MaxEntry: vf.U64("max entry"), MinTimestamp: vf.U64("min ts")})
	}
	m := NewCoverageCutoffMap(st)
	vf.Assert(len(m) == len(ids), "one cutoff per log with an identity")
	k := 0
	for i := range st {
		id, err := st[i].KeyID()
		if err != nil {
			continue
		}
		vf.Assert(id == ids[k], "the identity is the decoded log ID")
		k++
		c, ok := m[id]
		want := uint64(0)
		if st[i].MaxTimestamp >= st[i].MMD*1000 {
			want = st[i].MaxTimestamp - st[i].MMD*1000
		}
		vf.Assert(ok && c == want, "each log has its own cutoff")
	}
	var q [32]byte
	copy(q[:], vf.Bytes("query", 32))
	_, ok := m[q]
	known := false
	for _, o := range ids {
		known = vf.Or(known, o == q)
	}
	vf.Assert(ok == known, "unknown logs have no cutoff")
}
