//vf:pkg cmd/ct-fetch
//vf:use merkle.go
package main

import (
	"bytes"

	vf "github.com/mozilla/crlite/go/zzvf/vf"
)

func vfC01leaves(n int) [][]byte {
	var ls [][]byte
	par := vf.Choose("parity", 2)
	for i := 0; i < n; i++ {
		ls = append(ls, vf.Bytes("leaf", 1+(i+par)%2))
	}
	return ls
}

func vfC01run(st CtLogSubtree, ls [][]byte) error {
	v := CtLogSubtreeVerifier{Subtree: st}
	for _, l := range ls {
		v.Consume(l)
	}
	return v.CheckClaim()
}

// An arbitrary claimed hash over an arbitrary sequence: accepted exactly when count and hash agree.
func VF_C01_claim() {
	max := vf.Bound("subtree size", 9, 17)
	first := vf.U64("first")
	vf.Assume(first <= 1<<40)
	size := 1 + vf.Choose("size", max)
	given := vf.Choose("given", max+2)
	var ls [][]byte
	for i := 0; i < given; i++ {
		ls = append(ls, vf.Bytes("leaf", 1))
	}
	root := vf.Bytes("root", 32)
	st := CtLogSubtree{Root: root, First: first, Last: first + uint64(size) - 1}
	vf.Assert(st.Size() == uint64(size), "subtree size")
	if given == 0 {
		vf.Assert(vfC01run(st, ls) != nil, "empty sequence rejected")
		return
	}
	err := vfC01run(st, ls)
	vf.Observe("accepted", err == nil)
	if given != size {
		vf.Assert(err != nil, "wrong number of leaves rejected")
		return
	}
	want := vfMTH(ls)
	vf.Assert((err == nil) == bytes.Equal(want, root), "accepted iff root is the RFC 6962 tree hash")
}

// The honest sequence is accepted; any other sequence of leaves against the honest root is rejected.
func VF_C01_tamper() {
	max := vf.Bound("subtree size", 8, 12)
	size := 1 + vf.Choose("size", max)
	honest := vfC01leaves(size)
	root := vfMTH(honest)
	first := vf.U64("first")
	vf.Assume(first <= 1<<40)
	st := CtLogSubtree{Root: root, First: first, Last: first + uint64(size) - 1}
	other := [][]byte{}
	same := true
	kind := vf.Choose("tamper", 6)
	at := vf.Choose("at", size)
	switch kind {
	case 0: // honest
		other = honest
	case 1: // one leaf altered
		for i, l := range honest {
			if i == at {
				l = vf.Bytes("altered", 1+vf.Choose("alteredlen", 2))
				same = bytes.Equal(l, honest[i])
			}
			other = append(other, l)
		}
	case 2: // missing
		other = append(append(other, honest[:at]...), honest[at+1:]...)
		same = false
	case 3: // duplicated
		other = append(append(append(other, honest[:at+1]...), honest[at]), honest[at+1:]...)
		same = false
	case 4: // swapped with the next one
		if at+1 >= size {
			return
		}
		other = append(other, honest...)
		other[at], other[at+1] = other[at+1], other[at]
		same = bytes.Equal(honest[at], honest[at+1])
	case 5: // an extra leaf at the end
		other = append(append(other, honest...), vf.Bytes("extra", 1))
		same = false
	}
	err := vfC01run(st, other)
	vf.Observe("accepted", err == nil)
	vf.Assert((err == nil) == same, "accepted iff the leaves are the honest ones")
}

// A claimed hash of the wrong length is rejected.
func VF_C01_rootlen() {
	n := vf.Choose("rootlen", 40)
	l := vf.Bytes("leaf", 1)
	h := vfLeafHash(l)
	root := append(vfClone(h), vf.Bytes("pad", 8)...)[:n]
	st := CtLogSubtree{Root: root}
	err := vfC01run(st, [][]byte{l})
	vf.Assert((err == nil) == (n == 32), "root of another length rejected")
}

// Midpoint is the RFC's split point for every range.
func VF_C01_midpoint() {
	first, last := vf.U64("first"), vf.U64("last")
	vf.Assume(first <= last)
	vf.Assume(last < 1<<62)
	st := CtLogSubtree{First: first, Last: last}
	n := last - first + 1
	k := st.Midpoint() - first
	vf.Assert(st.Size() == n, "size")
	if n == 1 {
		vf.Assert(k == 0, "single leaf has no split")
		return
	}
	vf.Assert(vf.And(k&(k-1) == 0, vf.And(k < n, n <= 2*k)), "split is the largest power of two below n")
}
