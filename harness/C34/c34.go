//vf:pkg storage
//vf:use store.go
//vf:opt const:kMoveSerialsBatchSize=2
//vf:note A whole Commit; its workers are interleaved at every operation on Redis and the file system, every lock, channel operation and wait group, within the stated number of preemptions. The batch size, 1000 in the source, is set to 2 so that the bins fill none, one, or several batches.
package storage

import (
	"fmt"
	"os"
	"strings"
	"time"

	"github.com/mozilla/crlite/go/zzvf/env"
	vf "github.com/mozilla/crlite/go/zzvf/vf"
)

var vfIssuers = []string{"Iss=", "Jss="}

func vfBin(i int) (string, string) {
	n := len(vfIssuers)
	return fmt.Sprintf("2030-01-01-%02d", i/n), vfIssuers[i%n]
}

func vfLock34(rc *RedisCache) string {
	tok, err := rc.AcquireCommitLock()
	if err != nil || tok == nil {
		panic("no lock")
	}
	return *tok
}

func vfHas(date, issuer, serial string) bool {
	l, ok := vfList(date, issuer)
	r := false
	if ok {
		for _, x := range l {
			r = vf.Or(r, x == serial)
		}
	}
	return r
}

func vfCached(date, issuer, entry string) bool {
	r := false
	for _, x := range vfSrv().VFMembers(vfKey(date, issuer)) {
		r = vf.Or(r, x == entry)
	}
	return r
}

// Any number of bins; one (or none) of them fails.
func vfBins(n, bad, preempt int) {
	db, rc, srv := vfDB()
	st := vfLog("log.example", vfLogID, 5000)
	if rc.StoreLogState(&st) != nil {
		panic("store")
	}
	ser := make([]string, n)
	for i := 0; i < n; i++ {
		d, iss := vfBin(i)
		ser[i] = fmt.Sprintf("s%d", i)
		if i == 0 && preempt < 0 {
			ser[i] = vf.Str("serial", 2)
		}
		srv.VFAdd(vfKey(d, iss), vfEntry(uint64(i), vfLogID, ser[i]))
		if i%3 == 1 {
			vfStored(d, iss, "old")
		}
		if i == bad {
			os.VFWrite(vfPath(d, iss), []byte("@00\n"))
		}
	}
	tok := vfLock34(rc)
	vf.SchedIO(preempt)
	err := db.Commit(tok)
	vf.SchedIO(-1)
	for i := 0; i < n; i++ {
		d, iss := vfBin(i)
		st := vfHas(d, iss, ser[i])
		if err == nil {
			vf.Assert(st, "every bin is stored by a successful commit")
			vf.Assert(!vfCached(d, iss, vfEntry(uint64(i), vfLogID, ser[i])), "stored entries leave the cache")
		} else {
			vf.Assert(vf.Or(st, vfCached(d, iss, vfEntry(uint64(i), vfLogID, ser[i]))), "no serial is lost when a bin fails")
		}
		if i%3 == 1 && i != bad {
			vf.Assert(vfHas(d, iss, "old"), "stored serials stay")
		}
	}
	if bad >= 0 && bad < n {
		vf.Assert(err != nil, "a failing bin is reported")
		logs, _ := db.GetCTLogsFromStorage()
		vf.Assert(len(logs) == 0, "no coverage is published when a bin fails")
	} else {
		vf.Assert(err == nil, "a commit without a failing bin succeeds")
	}
}

func VF_C34_number() {
	n := vf.Choose("bins", vf.Bound("bins", 12, 22))
	vfBins(n, vf.Choose("failing", n+1)-1, -1)
}

func VF_C34_schedule() {
	vfIssuers = vfIssuers[:1]
	n := vf.Bound("least number of interleaved bins", 2, 2) + vf.Choose("bins", vf.Bound("more interleaved bins", 2, 3))
	vfBins(n, vf.Choose("failing", n+1)-1, vf.Bound("preemptions", 1, 2))
}

// A fault in any single operation, with all interleavings.
func VF_C34_fault() {
	db, rc, srv := vfDB()
	st := vfLog("log.example", vfLogID, 5000)
	if rc.StoreLogState(&st) != nil {
		panic("store")
	}
	for i := 0; i < 3; i++ {
		srv.VFAdd(vfKey(fmt.Sprintf("2030-01-01-%02d", i), "Iss="), vfEntry(1, vfLogID, "s"))
	}
	tok := vfLock34(rc)
	env.FaultAt = int(vf.Below("fault", 4096))
	vf.SchedIO(vf.Bound("preemptions under faults", 0, 1))
	var err error
	how := env.Run(func() { err = db.Commit(tok) })
	vf.SchedIO(-1)
	env.Reset()
	logs, lerr := db.GetCTLogsFromStorage()
	published := lerr == nil && len(logs) > 0
	for i := 0; i < 3; i++ {
		d := fmt.Sprintf("2030-01-01-%02d", i)
		st := vfHas(d, "Iss=", "s")
		vf.Assert(st || vfCached(d, "Iss=", vfEntry(1, vfLogID, "s")), "no serial is lost by a fault in any bin")
		if how == "done" && err == nil || published {
			vf.Assert(st, "a bin that failed is reported")
		}
	}
}

// Entries are recorded while a commit runs, and the cache lists its keys more than once (as Redis may).
func VF_C34_duplicates() { vfConcurrent(true) }
func VF_C34_concurrent() { vfConcurrent(false) }

func vfConcurrent(dup bool) {
	db, rc, srv := vfDB()
	st := vfLog("log.example", vfLogID, 5000)
	if rc.StoreLogState(&st) != nil {
		panic("store")
	}
	srv.VFAdd(vfKey("2030-01-01-05", "Iss="), vfEntry(1, vfLogID, "s1"))
	srv.Dup = dup
	if !dup {
		srv.VFAdd(vfKey("2030-01-01-06", "Iss="), vfEntry(1, vfLogID, "s2"))
	}
	tok := vfLock34(rc)
	at := int(vf.Below("record", 4096))
	x := vfEntry(2, vfLogID, "s3")
	n := 0
	done := false
	rec := func() {
		if !done {
			done = true
			if db.Store([]SetMemberWithExpiry{{Key: vfKey("2030-01-01-05", "Iss="), Value: x, Expiry: time.Unix(1900000000, 0)}}) != nil {
				panic("record")
			}
		}
	}
	env.Hook = func(op string) {
		// recording is independent of operations on the file system
		if strings.HasPrefix(op, "redis.") {
			if n == at {
				rec()
			}
			n++
		}
	}
	vf.SchedIO(vf.Bound("preemptions with recording", 1, 2))
	var err error
	env.Run(func() { err = db.Commit(tok) })
	vf.SchedIO(-1)
	env.Hook = nil
	rec()
	vf.Assert(err == nil, "a commit without faults succeeds")
	vf.Assert(vfHas("2030-01-01-05", "Iss=", "s1") && (dup || vfHas("2030-01-01-06", "Iss=", "s2")), "every bin is stored by a successful commit")
	vf.Assert(vfHas("2030-01-01-05", "Iss=", "s3") || vfCached("2030-01-01-05", "Iss=", x), "an entry recorded while a commit runs is not lost")
}
