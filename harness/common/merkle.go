//vf:pkg cmd/ct-fetch
package main

import "crypto/sha256"

// The Merkle tree hash of RFC 6962, section 2.1, written from the RFC.

func vfLeafHash(d []byte) []byte {
	h := sha256.Sum256(append([]byte{0}, d...))
	return h[:]
}

func vfNodeHash(l, r []byte) []byte {
	b := append([]byte{1}, l...)
	h := sha256.Sum256(append(b, r...))
	return h[:]
}

// vfSplit is the largest power of two smaller than n.
func vfSplit(n int) int {
	k := 1
	for k*2 < n {
		k *= 2
	}
	return k
}

func vfMTH(d [][]byte) []byte {
	if len(d) == 0 {
		h := sha256.Sum256(nil)
		return h[:]
	}
	if len(d) == 1 {
		return vfLeafHash(d[0])
	}
	k := vfSplit(len(d))
	return vfNodeHash(vfMTH(d[:k]), vfMTH(d[k:]))
}

func vfClone(b []byte) []byte { return append([]byte{}, b...) }
