//vf:pkg cmd/ct-fetch
package main

import (
	"context"
	"errors"
	"fmt"
	"time"

	"github.com/google/certificate-transparency-go"
	"github.com/google/certificate-transparency-go/client"

	"github.com/mozilla/crlite/go"
	"github.com/mozilla/crlite/go/zzvf/env"
	"github.com/mozilla/crlite/go/zzvf/pki"
)

const vfURL = "https://log.example/"

func vfMeta() *types.CTLogMetadata {
	return &types.CTLogMetadata{CRLiteEnrolled: true, Description: "log", LogID: "AQIDBAUGBwgJCgsMDQ4PEBESExQVFhcYGRobHB0eHyA=", MMD: 86400, URL: vfURL}
}

// vfRfc is an RFC 6962 log holding certificates 0..len(leaves)-1 of one issuer; the answers can be bent.
type vfRfc struct {
	leaves []ct.LeafEntry
	ts     []uint64
	n      int    // signed tree size
	sthTS  uint64 // signed tree timestamp
	chunk  int    // entries per answer
	extra  bool   // serve an entry more than asked for
	busy   int    // answers of "too many requests" left
	serve  func(i int) []ct.LeafEntry
	proof  func(p [][]byte) [][]byte
	asked  []vfReq
	got    []vfReq
}

type vfReq struct{ first, second uint64 }

func vfProofOf(d [][]byte, m int, b bool) [][]byte {
	n := len(d)
	if m == n {
		if b {
			return nil
		}
		return [][]byte{vfMTH(d)}
	}
	k := vfSplit(n)
	if m <= k {
		return append(vfProofOf(d[:k], m, b), vfMTH(d[k:]))
	}
	return append(vfProofOf(d[k:], m-k, false), vfMTH(d[:k]))
}

func (l *vfRfc) GetSTH() (*ct.SignedTreeHead, error) {
	return &ct.SignedTreeHead{TreeSize: uint64(l.n), Timestamp: l.sthTS}, nil
}

func (l *vfRfc) GetSTHConsistency(a, b uint64) ([][]byte, error) {
	l.asked = append(l.asked, vfReq{a, b})
	if a == 0 || a >= b || b > uint64(l.n) {
		return nil, errors.New("bad request")
	}
	var d [][]byte
	for _, e := range l.leaves[:b] {
		d = append(d, e.LeafInput)
	}
	p := vfProofOf(d, int(a), true)
	if l.proof != nil {
		p = l.proof(p)
	}
	return p, nil
}

func (l *vfRfc) GetRawEntries(a, b int64) (*ct.GetEntriesResponse, error) {
	l.got = append(l.got, vfReq{uint64(a), uint64(b)})
	if l.busy > 0 {
		l.busy--
		return nil, errors.New("got HTTP Status \"429 Too Many Requests\"")
	}
	if int(a) >= l.n {
		return nil, errors.New("bad request")
	}
	r := &ct.GetEntriesResponse{}
	for i := int(a); i <= int(b) && i < l.n && i < int(a)+l.chunk; i++ {
		if l.serve != nil {
			r.Entries = append(r.Entries, l.serve(i)...)
		} else {
			r.Entries = append(r.Entries, l.leaves[i])
		}
	}
	if l.extra {
		r.Entries = append(r.Entries, l.leaves[0])
	}
	return r, nil
}

var vfIssuerDER = []byte("CERT:issuer")

func vfCertName(i int) string { return fmt.Sprintf("CERT:leaf%d", i) }

// vfNewRfc is an honest log of max entries. The timestamps are given by ts.
func vfNewRfc(max int, ts func(i int) uint64) *vfRfc {
	pki.Reset()
	far := time.Unix(2000000000, 0)
	pki.New("issuer", []byte{7}, "issuer key", far)
	l := &vfRfc{n: max, chunk: max, sthTS: 1699999990000}
	for i := 0; i < max; i++ {
		c := pki.New(fmt.Sprintf("leaf%d", i), []byte{1, byte(i)}, "key", far)
		t := ts(i)
		l.ts = append(l.ts, t)
		l.leaves = append(l.leaves, ct.VFLeaf(t, false, c.DER, vfIssuerDER))
	}
	client.VFLogs = map[string]client.VFLog{vfURL: l}
	return l
}

// vfJob plans and runs one job and returns what it passed on.
func vfJob(ctx context.Context, st types.CTLogState) ([]LogSyncMessage, error) {
	w, err := NewLogWorker(ctx, &st, vfMeta())
	if err != nil {
		return nil, err
	}
	ch := make(chan LogSyncMessage, 256)
	err = w.Run(ctx, ch)
	close(ch)
	var ms []LogSyncMessage
	for m := range ch {
		ms = append(ms, m)
	}
	return ms, err
}

var _ = env.Now
