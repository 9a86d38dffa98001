//vf:pkg .
package types

import (
	vf "github.com/mozilla/crlite/go/zzvf/vf"
)

// Deduplication of serials of full length, differing anywhere.
func VF_C14_dedup() {
	n := 2 + vf.Choose("serials", vf.Bound("serials, from 2", 2, 3))
	lens := []int{20, 15, 9, 8, 16, 4, 21, 5, 1, 2, 3, 12, 19}
	ln := lens[vf.Choose("length", vf.Bound("serial lengths", 7, 13))]
	var l SerialList
	var in []string
	for i := 0; i < n; i++ {
		m := ln
		if i == 1 {
			m += vf.Choose("longer", 2)
		}
		b := vf.Bytes("serial", m)
		in = append(in, string(b))
		l = append(l, Serial{b})
	}
	out := l.Dedup()
	vf.Assert(len(out) <= n, "deduplication adds nothing")
	for _, s := range in {
		c := 0
		for _, o := range out {
			c += vf.IteInt(o.BinaryString() == s, 1, 0)
		}
		vf.Assert(c == 1, "each serial is left exactly once")
	}
	for _, o := range out {
		c := false
		for _, s := range in {
			c = vf.Or(c, o.BinaryString() == s)
		}
		vf.Assert(c, "nothing else is left")
	}
}
