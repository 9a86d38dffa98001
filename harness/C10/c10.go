//vf:pkg storage
//vf:use store.go
package storage

import (
	"encoding/binary"

	"github.com/mozilla/crlite/go"
	vf "github.com/mozilla/crlite/go/zzvf/vf"
)

func vfC10(tag string, n int) (v string, ts uint64, id [32]byte, ser []byte) {
	ts = vf.U64("ts" + tag)
	copy(id[:], vf.Bytes("log"+tag, 32))
	ser = vf.Bytes("serial"+tag, n)
	k := NewSerialCacheKey(vfExp("2030-01-01-05"), types.NewIssuerFromString("I"))
	m := k.NewMember(ts, id, types.NewSerialFromBytes(ser))
	return m.Value, ts, id, ser
}

// Every entry of a log decodes to what it was made from.
func VF_C10_roundtrip() {
	n := vf.Choose("len", vf.Bound("serial length", 24, 70))
	v, ts, id, ser := vfC10("", n)
	e := SerialCacheEntry(v)
	s, err := e.AsSerial()
	vf.Assert(err == nil, "an entry decodes")
	vf.Assert(s.BinaryString() == string(ser), "the serial is the recorded one")
	cut := vf.U64("cutoff")
	m := types.CoverageCutoffMap{id: cut}
	vf.Assert(e.IsCovered(&m) == (ts <= cut), "the timestamp and log are the recorded ones")
	var oid [32]byte
	copy(oid[:], vf.Bytes("otherlog", 32))
	vf.Assume(oid != id)
	o := types.CoverageCutoffMap{oid: vf.U64("cutoff2")}
	vf.Assert(!e.IsCovered(&o), "an entry belongs to no other log")
}

// Different facts are never recorded as the same entry.
func VF_C10_injective() {
	a, b := vf.Choose("lena", vf.Bound("serial length", 6, 24)), vf.Choose("lenb", vf.Bound("serial length", 6, 24))
	v, ts, id, ser := vfC10("1", a)
	w, ts2, id2, ser2 := vfC10("2", b)
	if v == w {
		vf.Assert(ts == ts2 && id == id2 && string(ser) == string(ser2), "equal entries record equal facts")
	}
}

// A bare serial (legacy format) decodes to itself, is covered, and is no log entry.
func VF_C10_legacy() {
	n := vf.Choose("len", 40)
	ser := vf.Bytes("serial", n)
	e := SerialCacheEntry(string(ser))
	s, err := e.AsSerial()
	vf.Assert(err == nil && s.BinaryString() == string(ser), "a legacy entry decodes to its serial")
	m := types.CoverageCutoffMap{}
	vf.Assert(e.IsCovered(&m), "a legacy entry counts as covered")
	v, _, _, _ := vfC10("", vf.Choose("len2", 3)*10)
	vf.Assert(v != string(ser), "a legacy entry is not a log entry")
}

// The stored form, byte by byte (other tools read it).
func VF_C10_format() {
	n := vf.Choose("len", vf.Bound("serial length", 21, 40))
	v, ts, id, ser := vfC10("", n)
	vf.Assert(len(v) == 40+n, "an entry has a timestamp, a log and a serial")
	if len(v) == 40+n {
		vf.Assert(binary.LittleEndian.Uint64([]byte(v[:8])) == ts, "the entry starts with the timestamp")
		vf.Assert(v[8:40] == string(id[:]), "the log identity follows the timestamp")
		vf.Assert(v[40:] == string(ser), "the serial ends the entry")
	}
}
