//vf:pkg cmd/ct-fetch
package main

import (
	"context"
	"encoding/hex"
	"errors"
	"fmt"
	"time"

	"filippo.io/sunlight"

	"github.com/mozilla/crlite/go"
	"github.com/mozilla/crlite/go/zzvf/env"
	"github.com/mozilla/crlite/go/zzvf/pki"
)

const vfTURL = "https://tiled.example/"

func vfTMeta() *types.CTLogMetadata {
	return &types.CTLogMetadata{CRLiteEnrolled: true, Description: "tiled", Key: "a2V5", LogID: "AQIDBAUGBwgJCgsMDQ4PEBESExQVFhcYGRobHB0eHyA=", MMD: 60, URL: vfTURL, Tiled: true}
}

// vfTiled is a tiled log holding certificates 0..len(entries)-1.
type vfTiled struct {
	entries []*sunlight.LogEntry
	n       int
	sthTS   int64
	bad     int // index of an entry that cannot be read; -1: none
	issuers map[string][]byte
}

func (l *vfTiled) Checkpoint() (int64, int64, error) { return int64(l.n), l.sthTS, nil }

func (l *vfTiled) Entry(i int64) (*sunlight.LogEntry, error) {
	if int(i) == l.bad {
		return nil, errors.New("tile data do not match the tree")
	}
	return l.entries[i], nil
}

func (l *vfTiled) Endpoint(path string) ([]byte, error) {
	if d, ok := l.issuers[path]; ok {
		return d, nil
	}
	return nil, errors.New("404")
}

// vfIssuer makes a certificate available under its fingerprint.
func (l *vfTiled) vfIssuer(fp byte, der []byte) [32]byte {
	var f [32]byte
	for i := range f {
		f[i] = 0xa5
	}
	f[16] = fp // fingerprints may begin and end alike
	l.issuers["issuer/"+hex.EncodeToString(f[:])] = der
	return f
}

func vfNewTiled(max int, ts func(i int) int64) *vfTiled {
	pki.Reset()
	sunlight.VFTile = 4
	far := time.Unix(2000000000, 0)
	l := &vfTiled{n: max, sthTS: 1699999990000, bad: -1, issuers: map[string][]byte{}}
	f := l.vfIssuer(1, pki.New("issuer", []byte{7}, "issuer key", far).DER)
	for i := 0; i < max; i++ {
		c := pki.New(fmt.Sprintf("leaf%d", i), []byte{1, byte(i)}, "key", far)
		l.entries = append(l.entries, &sunlight.LogEntry{Certificate: c.DER, ChainFingerprints: [][32]byte{f}, LeafIndex: int64(i), Timestamp: ts(i)})
	}
	sunlight.VFLogs = map[string]sunlight.VFLog{vfTURL: l}
	return l
}

// vfTJob plans and runs one job and returns what it passed on.
func vfTJob(ctx context.Context, st types.CTLogState, issuers *map[string]*types.Certificate) ([]LogSyncMessage, error) {
	w, err := NewTiledLogWorker(ctx, &st, vfTMeta(), issuers)
	if err != nil {
		return nil, err
	}
	ch := make(chan LogSyncMessage, 256)
	err = w.Run(ctx, ch)
	close(ch)
	var ms []LogSyncMessage
	for m := range ch {
		ms = append(ms, m)
	}
	return ms, err
}

func vfIssuerID() string {
	i := types.NewIssuerFromSPKI([]byte("issuer key"))
	return i.ID()
}

var _ = env.Now
