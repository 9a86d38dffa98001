//vf:pkg cmd/ct-fetch
//vf:use merkle.go
package main

import (
	"bytes"

	vf "github.com/mozilla/crlite/go/zzvf/vf"
)

type vfRange struct{ lo, hi int }

// vfSubproof is SUBPROOF of RFC 6962 section 2.1.2, yielding the leaf range of every hash.
func vfSubproof(m, lo, n int, b bool) []vfRange {
	if m == n {
		if b {
			return nil
		}
		return []vfRange{{lo, lo + n - 1}}
	}
	k := vfSplit(n)
	if m <= k {
		return append(vfSubproof(m, lo, k, b), vfRange{lo + k, lo + n - 1})
	}
	return append(vfSubproof(m-k, lo+k, n-k, false), vfRange{lo, lo + k - 1})
}

// Every pair of sizes up to the bound: the subtrees are exactly those of the RFC's PROOF(m, D[n]).
func VF_C02_rfc() {
	max := vf.Bound("tree size", 24, 70)
	n := 1 + vf.Choose("new", max)
	if n == 1 {
		return
	}
	m := 1 + vf.Choose("old", n-1)
	want := vfSubproof(m, 0, n, true)
	extra := vf.Choose("proof length delta", 4) - 2
	plen := len(want) + extra
	if plen < 0 {
		return
	}
	var proof [][]byte
	for i := 0; i < plen; i++ {
		proof = append(proof, vf.Bytes("hash", 2))
	}
	got, err := consistencyProofToSubtrees(proof, uint64(m), uint64(n))
	vf.Observe("err", err != nil)
	vf.Observe("terms", len(got))
	vf.Assert((err == nil) == (plen == len(want)), "accepted iff the proof has the RFC's length")
	if err != nil {
		return
	}
	ok := len(got) == len(want)
	for i := range want {
		if ok && (got[i].First != uint64(want[i].lo) || got[i].Last != uint64(want[i].hi) || !bytes.Equal(got[i].Root, proof[i])) {
			ok = false
		}
	}
	vf.Assert(ok, "subtrees are those of RFC 6962 PROOF, in order")
	vfC02tiles(got, m, n)
}

// vfC02tiles: every index from m to n-1 is in exactly one subtree; no index is in two.
func vfC02tiles(got []CtLogSubtree, m, n int) {
	ok := true
	for i := 0; i < n; i++ {
		c := 0
		for _, t := range got {
			if t.First <= uint64(i) && uint64(i) <= t.Last {
				c++
			}
		}
		if c > 1 || i >= m && c != 1 {
			ok = false
		}
	}
	vf.Assert(ok, "every new entry is covered by exactly one proof hash")
}

// Large trees, around every power of two; the old size is symbolic near its own boundaries.
func VF_C02_large() {
	m := vf.U64("old")
	w := vf.Bound("window around the power of two", 3, 8)
	sh := uint(5 + vf.Choose("log2", vf.Bound("log2 of the size, from 5", 37, 57)))
	base := uint64(1) << sh
	n := base - uint64(w) + uint64(vf.Choose("offset", 2*w))
	vf.Assume(vf.And(m >= 1, m < n))
	uw := uint64(w)
	vf.Assume(vf.Or(m < uw, vf.Or(m+uw > n, vf.And(m+uw > base/2, m < base/2+uw))))
	want := vfSubproof64(m, 0, n, true)
	proof := make([][]byte, len(want))
	for i := range proof {
		proof[i] = vf.Bytes("hash", 1)
	}
	got, err := consistencyProofToSubtrees(proof, m, n)
	vf.Observe("terms", len(got))
	vf.Assert(err == nil && len(got) == len(want), "a proof of the RFC's length is accepted")
	ok := true
	for i := range want {
		ok = vf.And(ok, vf.And(got[i].First == want[i].lo, got[i].Last == want[i].hi))
		ok = vf.And(ok, len(got[i].Root) == 1 && &got[i].Root[0] == &proof[i][0])
	}
	vf.Assert(ok, "subtrees are those of RFC 6962 PROOF, in order")
	short, err := consistencyProofToSubtrees(proof[:len(proof)-1], m, n)
	vf.Assert(err != nil && short == nil, "a proof one hash short is rejected")
	_, err = consistencyProofToSubtrees(append(append([][]byte{}, proof...), []byte{1}), m, n)
	vf.Assert(err != nil, "a proof one hash long is rejected")
}

type vfRange64 struct{ lo, hi uint64 }

func vfSubproof64(m, lo, n uint64, b bool) []vfRange64 {
	if m == n {
		if b {
			return nil
		}
		return []vfRange64{{lo, lo + n - 1}}
	}
	k := uint64(1)
	for k*2 < n {
		k *= 2
	}
	if m <= k {
		return append(vfSubproof64(m, lo, k, b), vfRange64{lo + k, lo + n - 1})
	}
	return append(vfSubproof64(m-k, lo+k, n-k, false), vfRange64{lo, lo + k - 1})
}

// An empty or shrinking range is refused.
func VF_C02_order() {
	n, m := vf.U64("new"), vf.U64("old")
	vf.Assume(n <= m)
	p := vf.Choose("hashes", 3)
	_, err := consistencyProofToSubtrees(make([][]byte, p), m, n)
	vf.Assert(err != nil, "new size must exceed the old size")
}
