//vf:pkg cmd/ct-fetch
//vf:use merkle.go
//vf:use rfclog.go
//vf:use tiledlog.go
//vf:note Whole download jobs of both workers followed by the database writer, on a log of four entries two of which are of every kind (certificate or precertificate; issued directly, through a signing certificate of either issuer, or by nobody named; longer chains; expiring before, at and after the present), with and without the storing of expired entries; the timestamp and the serial number of one entry are symbolic, and every outcome of the two certificate parsers for the entry, its first and its second issuer is enumerated. What bytes a certificate parses to, and that a tiled log serves the certificate a fingerprint names, is assumed.
package main

import (
	"context"
	"crypto/sha256"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"time"

	"filippo.io/sunlight"
	"github.com/go-redis/redis"
	"github.com/google/certificate-transparency-go"
	"github.com/google/certificate-transparency-go/client"

	"github.com/mozilla/crlite/go"
	"github.com/mozilla/crlite/go/storage"
	"github.com/mozilla/crlite/go/zzvf/env"
	"github.com/mozilla/crlite/go/zzvf/pki"
	vf "github.com/mozilla/crlite/go/zzvf/vf"
)

// vfKind is a kind of log entry. Chains name the certificates A, B (issuers), R (root), P, Q (precertificate signing
// certificates of A and B).
type vfKind struct {
	precert bool
	chain   string
	expiry  time.Duration // from now
	issuer  string        // who issued it; empty: not to be stored
	bad     bool          // cannot be attributed
}

const vfFar = 1000 * time.Hour

var vfKinds = []vfKind{
	{false, "A", vfFar, "A", false},
	{true, "BR", vfFar, "B", false},
	{true, "PAR", vfFar, "A", false},
	{true, "QB", vfFar, "B", false},
	{false, "", vfFar, "", false},
	{true, "A", -time.Second, "", false},
	{true, "PB", vfFar, "B", false}, // the chain decides, not the signing certificate's name
	{false, "QBA", vfFar, "B", false},
	{true, "", vfFar, "", false},
	{false, "B", time.Second, "B", false},
	{true, "A", time.Hour, "A", false},
	{true, "P", vfFar, "", true},
	{false, "PA", -time.Hour, "", false},
}

// vfKeyOf is the key of a certificate authority; the hashes of the keys of A and B begin alike, as those of any two
// may.
func vfKeyOf(n string) string {
	switch n {
	case "A":
		return "key 13729460"
	case "B":
		return "key 2806666"
	}
	return "key " + n
}

const vfN = 4

// vfWorld is a log of four entries, in both forms.
type vfWorld struct {
	kinds  [vfN]vfKind
	serial [vfN][]byte
	ts     [vfN]uint64
	cert   [vfN]*pki.Cert
	ca     map[byte]*pki.Cert
}

func (w *vfWorld) vfExpiry(i int) time.Time { return env.Base.Add(w.kinds[i].expiry) }

func vfWorldOf(kinds [vfN]vfKind, serial []byte, ts uint64) *vfWorld {
	pki.Reset()
	w := &vfWorld{kinds: kinds, ca: map[byte]*pki.Cert{}}
	for _, n := range []byte("ABRPQ") {
		c := pki.New("ca"+string(n), []byte{n}, vfKeyOf(string(n)), time.Unix(2000000000, 0))
		c.PreIssuer = n == 'P' || n == 'Q'
		w.ca[n] = c
	}
	for i := range kinds {
		w.serial[i] = []byte{0x40, byte(i)}
		w.ts[i] = 1690000000000 + uint64(i^1)
		if i == 1 {
			w.serial[i], w.ts[i] = serial, ts
		}
		w.cert[i] = pki.New(fmt.Sprintf("leaf%d", i), w.serial[i], "key", w.vfExpiry(i))
	}
	return w
}

func (w *vfWorld) vfRfcLog() {
	l := &vfRfc{n: vfN, chunk: vfN, sthTS: 1699999990000}
	for i, k := range w.kinds {
		var ch [][]byte
		for _, n := range []byte(k.chain) {
			ch = append(ch, w.ca[n].DER)
		}
		l.ts = append(l.ts, w.ts[i])
		l.leaves = append(l.leaves, ct.VFLeaf(w.ts[i], k.precert, w.cert[i].DER, ch...))
	}
	client.VFLogs = map[string]client.VFLog{vfURL: l}
}

func (w *vfWorld) vfTiledLog() {
	sunlight.VFTile = 4
	l := &vfTiled{n: vfN, sthTS: 1699999990000, bad: -1, issuers: map[string][]byte{}}
	for i, k := range w.kinds {
		e := &sunlight.LogEntry{LeafIndex: int64(i), Timestamp: int64(w.ts[i]), IsPrecert: k.precert}
		if k.precert {
			e.PreCertificate = w.cert[i].DER
			e.Certificate = []byte("TBS")
		} else {
			e.Certificate = w.cert[i].DER
		}
		for _, n := range []byte(k.chain) {
			e.ChainFingerprints = append(e.ChainFingerprints, l.vfIssuer(n, w.ca[n].DER))
		}
		l.entries = append(l.entries, e)
	}
	sunlight.VFLogs = map[string]sunlight.VFLog{vfTURL: l}
}

func vfID(key string) string {
	h := sha256.Sum256([]byte(key))
	return base64.URLEncoding.EncodeToString(h[:])
}

var vfLogKey = func() (k [32]byte) {
	b, _ := base64.StdEncoding.DecodeString("AQIDBAUGBwgJCgsMDQ4PEBESExQVFhcYGRobHB0eHyA=")
	copy(k[:], b)
	return
}()

// vfSame says that a cache entry records the serial, timestamp and log, in the format of the documentation.
func vfSame(m string, ts uint64, serial []byte) bool {
	if len(m) != 40+len(serial) {
		return false
	}
	ok := true
	for i := 0; i < 8; i++ {
		ok = vf.And(ok, m[i] == byte(ts>>uint(8*i)))
	}
	for i := 0; i < 32; i++ {
		ok = vf.And(ok, m[8+i] == vfLogKey[i])
	}
	for i := range serial {
		ok = vf.And(ok, m[40+i] == serial[i])
	}
	return ok
}

// vfFetch runs one job and the writer, and checks what gets stored; upto is the number of entries that can be.
func (w *vfWorld) vfFetch(tiled bool) {
	redis.VFServer = redis.NewServer()
	rc, _ := storage.NewRedisCache("x", time.Second)
	db, err := storage.NewCertDatabase(rc, "", false)
	if err != nil {
		panic(err)
	}
	ld := NewLogSyncEngine(db)
	*ctconfig.PollingDelay = 1
	*ctconfig.BatchSize = 4
	var ms []LogSyncMessage
	ctx := context.Background()
	if tiled {
		w.vfTiledLog()
		issuers := map[string]*types.Certificate{}
		ms, _ = vfTJob(ctx, types.CTLogState{ShortURL: "tiled.example"}, &issuers)
	} else {
		w.vfRfcLog()
		ms, _ = vfJob(ctx, types.CTLogState{ShortURL: "log.example"})
	}
	for _, m := range ms {
		ld.entryChan <- m
	}
	close(ld.entryChan)
	ld.StartDatabaseThread(ctx)
	ld.ThreadWaitGroup.Wait()

	total, covered := 0, 0
	for _, m := range ms {
		if m.LogState != nil {
			covered = int(m.LogState.MaxEntry) + 1
		}
	}
	bad := vfN
	for i, k := range w.kinds {
		if k.bad && i < bad {
			bad = i
		}
	}
	vf.Assert(covered <= bad, "an entry without a known issuer is not covered")
	if bad == vfN {
		vf.Assert(covered == vfN, "everything is covered")
	}
	for i, k := range w.kinds {
		if k.issuer == "" {
			continue
		}
		date := w.vfExpiry(i).UTC().Format("2006-01-02-15")
		key := "serials::" + date + "::" + vfID(vfKeyOf(k.issuer))
		n := 0
		for _, m := range redis.VFServer.VFMembers(key) {
			if vfSame(m, w.ts[i], w.serial[i]) {
				n++
			}
		}
		// What expires within this hour may be gone at once.
		if i < covered && w.vfExpiry(i).Truncate(time.Hour).After(env.Now()) {
			vf.Assert(n == 1, "an entry is stored under its issuer, expiry, serial, timestamp and log")
		}
		total += n
	}
	all := 0
	for _, k := range redis.VFServer.VFKeys() {
		if len(k) > 9 && k[:9] == "serials::" {
			all += len(redis.VFServer.VFMembers(k))
		}
	}
	vf.Assert(all == total, "nothing else is stored")
	vf.Reached("fetched")
}

// Two entries of every kind among ordinary ones.
func VF_C09_kinds() {
	env.Reset()
	*ctconfig.LogExpiredEntries = false
	var kinds [vfN]vfKind
	kinds[0] = vfKinds[vf.Choose("kind 0", vf.Bound("kinds", 8, len(vfKinds)))]
	kinds[1] = vfKinds[vf.Choose("kind 1", len(vfKinds))]
	kinds[2], kinds[3] = vfKinds[1], vfKinds[2]
	serial := []byte{0x11, vf.U8("serial")}
	if vf.Choose("long serial", 2) == 1 {
		serial = append([]byte{0}, vf.Bytes("serial bytes", 19)...)
	}
	ts := vf.U64("timestamp")
	vf.Assume(ts < 1<<62)
	w := vfWorldOf(kinds, serial, ts)
	tiled := vf.Choose("tiled", 2) == 1
	how := env.Run(func() { w.vfFetch(tiled) })
	vf.Assert(how == "done", "the job ends")
}

// Every outcome of the parsers.
func VF_C09_parsers() {
	env.Reset()
	*ctconfig.LogExpiredEntries = false
	var kinds [vfN]vfKind
	for i := range kinds {
		kinds[i] = vfKinds[0]
	}
	k := vfKind{true, "PAR", vfFar, "A", false}
	if vf.Choose("direct", 2) == 1 {
		k = vfKind{false, "BR", vfFar, "B", false}
	}
	w := vfWorldOf(kinds, []byte{5}, 1690000000000)
	out := func(c *pki.Cert, name string) {
		c.CT = vf.Choose(name+" in the first parser", 3)
		c.ZC = vf.Choose(name+" in the second parser", 3)
		if c.CT == pki.Fatal && c.ZC == pki.Fatal {
			k.bad, k.issuer = true, ""
		}
	}
	out(w.cert[1], "entry")
	if k.chain[0] == 'B' {
		out(w.ca['B'], "issuer")
	} else {
		out(w.ca['P'], "signing certificate")
		w.kinds[0], w.kinds[2], w.kinds[3] = vfKinds[1], vfKinds[1], vfKinds[1]
		out(w.ca['A'], "issuer")
	}
	w.kinds[1] = k
	if k.chain[0] == 'P' {
		w.kinds[0].chain, w.kinds[0].issuer = "B", "B"
	} else {
		w.kinds[0] = vfKinds[0]
	}
	tiled := vf.Choose("tiled", 2) == 1
	how := env.Run(func() { w.vfFetch(tiled) })
	vf.Assert(how == "done", "the job ends")
}

// Expired entries are passed on when that is asked for.
func VF_C09_expired() {
	env.Reset()
	*ctconfig.LogExpiredEntries = true
	*ctconfig.PollingDelay = 1
	*ctconfig.BatchSize = 4
	var kinds [vfN]vfKind
	for i := range kinds {
		kinds[i] = vfKinds[0]
	}
	kinds[1] = vfKind{true, "PA", -time.Hour, "A", false}
	ts := vf.U64("timestamp")
	vf.Assume(ts < 1<<62)
	w := vfWorldOf(kinds, []byte{5}, ts)
	env.Run(func() {
		var ms []LogSyncMessage
		ctx := context.Background()
		if vf.Choose("tiled", 2) == 1 {
			w.vfTiledLog()
			issuers := map[string]*types.Certificate{}
			ms, _ = vfTJob(ctx, types.CTLogState{ShortURL: "tiled.example"}, &issuers)
		} else {
			w.vfRfcLog()
			ms, _ = vfJob(ctx, types.CTLogState{ShortURL: "log.example"})
		}
		n := 0
		for _, m := range ms {
			if m.Certificate == nil {
				continue
			}
			if types.NewSerialFromCertificate(m.Certificate).BinaryString() == string(w.serial[n]) {
				iss := types.NewIssuerFromCertificate(m.Issuer)
				vf.Assert(vf.And(m.Timestamp == w.ts[n], iss.ID() == vfID(vfKeyOf("A")), m.LogId == vfLogKey), "an expired entry is passed on with its own facts")
				n++
			}
		}
		vf.Assert(n == vfN, "every entry is passed on")
	})
}

var _ = hex.EncodeToString
