//vf:pkg cmd/aggregate-known
//vf:note The whole program run (flags and configuration to exported files) on a modelled Redis and file system; serials symbolic, issuers and dates enumerated, the time of the run symbolic. Faults: every single operation, once or from then on.
package main

import (
	"encoding/hex"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"os"
	"strings"
	"time"

	"github.com/go-redis/redis"

	"github.com/mozilla/crlite/go"
	"github.com/mozilla/crlite/go/rootprogram"
	"github.com/mozilla/crlite/go/storage"
	"github.com/mozilla/crlite/go/zzvf/env"
	"github.com/mozilla/crlite/go/zzvf/pki"
	vf "github.com/mozilla/crlite/go/zzvf/vf"
)

const vfDB = "/work/db"

var vfIDs []string // issuers A, B (enrolled), C (not)

func vfUnix(date string) int64 {
	var y, m, d, h int
	if n, _ := fmt.Sscanf(date, "%d-%d-%d-%d", &y, &m, &d, &h); n < 3 {
		panic(date)
	}
	return time.Date(y, time.Month(m), d, h, 0, 0, 0, time.UTC).Unix()
}

// vfGone is when a list expires (Unix s).
func vfGone(date string) int64 {
	if strings.Count(date, "-") == 3 {
		return vfUnix(date) + 3600
	}
	return vfUnix(date) + 86400
}

func vfFile(issuer, date string) string {
	return vfDB + "/serials/issuer::" + issuer + "/serials::" + date + "::" + issuer
}

func vfPut(issuer, date string, serials ...[]byte) {
	e, err := types.NewExpDate(date)
	if err != nil {
		panic(err)
	}
	s := fmt.Sprintf("@%016x\n", e.Unix())
	for _, x := range serials {
		s += hex.EncodeToString(x) + "\n"
	}
	os.VFWrite(vfFile(issuer, date), []byte(s))
}

func vfWorld(threads int, enrolled ...int) {
	redis.VFServer = redis.NewServer()
	env.Reset()
	pki.Reset()
	os.VFMkdir(vfDB)
	os.VFMkdir(vfDB + "/serials")
	os.Setenv("redisHost", "x")
	os.Setenv("certPath", vfDB)
	os.Setenv("numThreads", fmt.Sprintf("%d", threads))
	*enrolledpath = "/work/enrolled.json"
	*knownpath = "/work/known"
	*ctlogspath = "/work/ct.json"
	var list []rootprogram.EnrolledIssuer
	vfIDs = nil
	// The identities of A and B begin alike.
	for i, n := range []string{"A", "B", "C"} {
		c := pki.New(n, []byte{byte(i)}, []string{"key 13729460", "key 2806666", "key C"}[i], time.Unix(2000000000, 0))
		vfIDs = append(vfIDs, "")
		b := pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: c.DER})
		x, err := rootprogram.PEMToCertificate(string(b))
		if err != nil {
			panic(err)
		}
		iss := types.NewIssuer(x)
		vfIDs[i] = iss.ID()
		for _, e := range enrolled {
			if e == i {
				list = append(list, rootprogram.EnrolledIssuer{PubKeyHash: iss.ID(), Subject: n, Pem: string(b)})
			}
		}
	}
	b, _ := json.Marshal(list)
	os.VFWrite("/work/enrolled.json", b)
	os.VFMkdir("/work/known")
}

// vfBlocks are the lines below each expiry line; ok is false when it is malformed.
func vfBlocks(b []byte) (heads []string, bodies [][]string, ok bool) {
	ls := strings.Split(string(b), "\n")
	if ls[len(ls)-1] != "" {
		return nil, nil, false
	}
	for _, l := range ls[:len(ls)-1] {
		if strings.HasPrefix(l, "@") {
			heads = append(heads, l)
			bodies = append(bodies, nil)
			continue
		}
		if len(heads) == 0 {
			return nil, nil, false
		}
		bodies[len(bodies)-1] = append(bodies[len(bodies)-1], l)
	}
	return heads, bodies, true
}

func vfSameLines(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for _, x := range a {
		n, m := 0, 0
		for _, y := range a {
			n += vf.IteInt(x == y, 1, 0)
		}
		for _, y := range b {
			m += vf.IteInt(x == y, 1, 0)
		}
		r = vf.And(r, n == m)
	}
	return r
}

// vfCheck compares the export with what storage holds now.
func vfCheck(dates []string, enrolled ...int) {
	now := env.NowNs()
	for i, id := range vfIDs {
		in := false
		for _, e := range enrolled {
			in = in || e == i
		}
		b, have := os.VFRead("/work/known/" + id)
		if !in {
			vf.Assert(!have, "an issuer that is not enrolled is not exported")
			continue
		}
		if !have {
			for _, d := range dates {
				if _, st := os.VFRead(vfFile(id, d)); st {
					vf.Assert(now >= vfGone(d)*1000000000-1000000, "an issuer with stored unexpired serials is exported")
				}
			}
			continue
		}
		heads, bodies, ok := vfBlocks(b)
		vf.Assert(ok, "an export is a sequence of complete lists")
		if !ok {
			continue
		}
		n := 0
		for _, d := range dates {
			sb, st := os.VFRead(vfFile(id, d))
			line := fmt.Sprintf("@%016x", vfUnix(d))
			k := -1
			for j, h := range heads {
				if h == line {
					vf.Assert(k < 0, "a date is exported once")
					k = j
				}
			}
			if k >= 0 {
				n++
				vf.Assert(now <= vfGone(d)*1000000000, "no expired date is exported")
			}
			if !st {
				vf.Assert(k < 0 || len(bodies[k]) == 0, "nothing is exported that is not stored")
				continue
			}
			_, want, ok := vfBlocks(sb)
			if !ok || len(want) != 1 {
				panic("storage")
			}
			if k < 0 {
				vf.Assert(now >= vfGone(d)*1000000000-1000000, "a stored unexpired date is exported")
				continue
			}
			vf.Assert(vfSameLines(bodies[k], want[0]), "the exported serials are the stored ones")
		}
		vf.Assert(n == len(heads), "no other date is exported")
	}
	for _, f := range os.VFFiles("/work/known") {
		found := false
		for _, id := range vfIDs {
			found = found || f == "/work/known/"+id
		}
		vf.Assert(found, "no other file is exported")
	}
}

var vfDates = []string{"2023-11-14-21", "2023-11-14-22", "2023-11-15", "2030-01-01-05", "2031-06-30"}

// vfStock stores serials under symbolic bytes; which lists exist is enumerated.
func vfStock(per int, dates []string) {
	for i := range vfIDs {
		for j, d := range dates {
			n := 0
			if per > 2 {
				n = vf.Choose(fmt.Sprintf("lists %d %d", i, j), per+1)
			} else {
				n = vf.Choose(fmt.Sprintf("lists %d %d", i, j), 2) * (3 - (i+j)%3)
			}
			if n == 0 {
				continue
			}
			var s [][]byte
			for k := 0; k < n-1; k++ {
				s = append(s, append(vf.Bytes(fmt.Sprintf("serial %d %d %d", i, j, k), 2), byte(k)))
			}
			vfPut(vfIDs[i], d, s...)
		}
	}
}

func vfCoverage() string {
	b, _ := os.VFRead("/work/ct.json")
	return string(b)
}

// Every combination of stored lists, at a symbolic time.
func VF_C32_exact() {
	vfWorld(vf.Choose("threads", 2)+1, 0, 1)
	a := vf.Choose("date", len(vfDates))
	ds := []string{vfDates[a], "2030-01-01-06"}
	vfStock(vf.Bound("serials per list", 2, 3), ds)
	if vf.Choose("stale export", 2) == 1 {
		os.VFWrite("/work/known/"+vfIDs[0], []byte("@0000000000000001\n0102030405060708091011121314151617181920\n0102030405060708091011121314151617181920\n"))
		ex := false
		for _, d := range ds {
			_, st := os.VFRead(vfFile(vfIDs[0], d))
			ex = ex || st && d == "2030-01-01-06"
		}
		vf.Assume(ex)
	}
	env.Skew = time.Duration(vf.Below("s", 1<<27)*1000000000 + vf.Below("ns", 1000000000))
	vf.Assert(work() == nil, "an export without faults succeeds")
	vfCheck(ds, 0, 1)
}

// The lists of a date whose expiry is close: exported exactly until then.
func VF_C32_expiry() {
	vfWorld(1, 0)
	d := vfDates[vf.Choose("date", len(vfDates))]
	vfPut(vfIDs[0], d, vf.Bytes("serial", 3))
	vfPut(vfIDs[0], "2035-01-01", []byte{7})
	env.Skew = time.Duration(vf.Below("s", 1<<28)*1000000000 + vf.Below("ns", 1000000000))
	vf.Assert(work() == nil, "an export without faults succeeds")
	vfCheck([]string{d, "2035-01-01"}, 0)
	heads, _, _ := vfBlocks([]byte(func() string { b, _ := os.VFRead("/work/known/" + vfIDs[0]); return string(b) }()))
	now := env.NowNs()
	if now < vfGone(d)*1000000000-1000000 {
		vf.Assert(len(heads) == 2, "an unexpired date is exported")
	}
	if now > vfGone(d)*1000000000 {
		vf.Assert(len(heads) == 1, "an expired date is not exported")
	}
}

func vfCache(st ...types.CTLogState) storage.CertDatabase {
	rc, err := storage.NewRedisCache("x", time.Second)
	if err != nil {
		panic(err)
	}
	for i := range st {
		if rc.StoreLogState(&st[i]) != nil {
			panic("store")
		}
	}
	db, err := storage.NewCertDatabase(rc, vfDB, false)
	if err != nil {
		panic(err)
	}
	return db
}

func vfStore(db storage.CertDatabase, issuer, date string, ts uint64, serial []byte) {
	e, err := types.NewExpDate(date)
	if err != nil {
		panic(err)
	}
	m := storage.NewSerialCacheKey(e, types.NewIssuerFromString(issuer)).NewMember(ts, [32]byte{1}, types.NewSerialFromBytes(serial))
	if db.Store([]storage.SetMemberWithExpiry{m}) != nil {
		panic("store")
	}
}

// Cached serials are committed first: covered ones are exported, too; the coverage of that commit is what is published.
func vfCommit(fault int) {
	vfWorld(vf.Choose("threads", 2)+1, 0, 1)
	st := types.CTLogState{LogID: "AQAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA=", MMD: 1, ShortURL: "log.example", MaxEntry: 9, MaxTimestamp: 6000}
	db := vfCache(st)
	ds := []string{"2030-01-01-05", "2031-06-30"}
	x, y, z := append(vf.Bytes("x", 2), 1), append(vf.Bytes("y", 2), 2), append(vf.Bytes("z", 2), 3)
	vfPut(vfIDs[0], ds[0], x)
	vfPut(vfIDs[2], ds[0], x)
	vfStore(db, vfIDs[0], ds[0], 5000, y)
	vfStore(db, vfIDs[1], ds[1], 4000, z)
	vfStore(db, vfIDs[1], ds[1], 5001, []byte{9, 9}) // not covered
	switch fault {
	case 1:
		env.FaultAt = int(vf.Below("fault", 4096))
	case 2:
		env.FaultAt, env.FaultForever = int(vf.Below("fault", 4096)), true
	case 3:
		env.CrashAt = int(vf.Below("crash", 4096))
	}
	var err error
	how := env.Run(func() { err = work() })
	vf.Observe("how", how)
	ok := how == "done" && err == nil
	faulted := env.Faulted
	env.Reset()
	if fault == 0 {
		vf.Assert(ok, "an export without faults succeeds")
	}
	if !ok {
		return
	}
	vfCheck(ds, 0, 1)
	b, _ := os.VFRead(vfFile(vfIDs[0], ds[0]))
	vf.Assert(strings.Contains(string(b), hex.EncodeToString(y)), "a covered serial is exported")
	b, _ = os.VFRead(vfFile(vfIDs[1], ds[1]))
	_, bs, _ := vfBlocks(b)
	vf.Assert(len(bs) == 1 && len(bs[0]) == 1, "a serial that is not covered is not exported")
	var got []types.CTLogState
	vf.Assert(json.Unmarshal([]byte(vfCoverage()), &got) == nil && len(got) == 1, "the coverage is exported")
	if len(got) == 1 {
		vf.Assert(got[0] == st, "the exported coverage is the committed one")
	}
	if !faulted {
		_, held := redis.VFServer.VFGet("lock::commit")
		vf.Assert(!held, "the commit lock is released")
	}
}

func VF_C32_commit() { vfCommit(0) }
func VF_C32_fault()  { vfCommit(vf.Choose("kind", 2) + 1) }

// vfScheduled interleaves what runs once the commit is done.
func vfScheduled() (err error) {
	n := vf.Bound("preemptions", 2, 3)
	started := false
	env.Hook = func(op string) {
		if !started && os.VFExists("/work/ct.json") {
			started = true
			vf.SchedIO(n)
		}
	}
	how := env.Run(func() { err = work() })
	vf.SchedIO(-1)
	vf.Assert(how == "done", "the program ends by itself")
	env.Reset()
	return err
}

// Any interleaving of the workers gives the same export.
func VF_C32_workers() {
	vfWorld(vf.Choose("threads", vf.Bound("threads", 1, 2))+2, 0, 1, 2)
	ds := []string{"2030-01-01-05", "2031-06-30"}
	for i := range vfIDs {
		for j, d := range ds {
			if i != 1 || j != 1 {
				vfPut(vfIDs[i], d, []byte{byte(i), byte(j), 1}, []byte{byte(i), byte(j), 2})
			}
		}
	}
	if vf.Choose("corrupt", 2) == 1 {
		// the list of one issuer is unreadable: the export fails
		os.VFWrite(vfFile(vfIDs[1], ds[0]), []byte("@0000000000000007\n0a\n"))
		err := vfScheduled()
		vf.Assert(err != nil, "a list that cannot be read makes the export fail")
		return
	}
	err := vfScheduled()
	vf.Assert(err == nil, "an export without faults succeeds")
	vfCheck(ds, 0, 1, 2)
}
