//vf:pkg storage
package storage

import (
	"encoding/binary"

	"github.com/mozilla/crlite/go"
	vf "github.com/mozilla/crlite/go/zzvf/vf"
)

// Which cached entries count as covered, from the states of the logs.
func VF_C06_covered() {
	ts := vf.U64("ts")
	max, mmd := vf.U64("max"), vf.U64("mmd")
	var id, other [32]byte
	copy(id[:], vf.Bytes("log", 32))
	copy(other[:], vf.Bytes("other", 32))
	n := vf.Choose("serial length", vf.Bound("serial length", 3, 22))
	e := make([]byte, 40+n)
	binary.LittleEndian.PutUint64(e, ts)
	copy(e[8:], id[:])
	copy(e[40:], vf.Bytes("serial", n))
	st := types.CTLogState{MaxTimestamp: max, MMD: mmd}
	m := types.CoverageCutoffMap{id: st.CoverageCutoff()}
	want := vf.And(max/1000 >= mmd, ts <= max-mmd*1000)
	want = vf.Or(want, vf.And(max/1000 < mmd, ts == 0))
	if vf.Choose("unknown log", 2) == 1 {
		vf.Assume(other != id)
		m = types.CoverageCutoffMap{other: vf.U64("cutoff")}
		want = false
	}
	vf.Assert(SerialCacheEntry(e).IsCovered(&m) == want, "an entry is covered exactly up to its log's cutoff")
}

func VF_C06_legacy() {
	m := types.CoverageCutoffMap{}
	if vf.Choose("known log", 2) == 1 {
		m[[32]byte{1}] = vf.U64("cutoff")
	}
	l := vf.Choose("legacy length", 40)
	vf.Assert(SerialCacheEntry(vf.Str("legacy", l)).IsCovered(&m), "a legacy entry is covered")
}
