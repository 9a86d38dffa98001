//vf:pkg storage
//vf:use store.go
//vf:note The epochs are symbolic decimal numbers in the cache and in the epoch file; the whole real Commit runs over models of Redis and the file system, also with every single operation failing.
package storage

import (
	"fmt"
	"os"
	"strconv"
	"time"

	"github.com/go-redis/redis"

	"github.com/mozilla/crlite/go/zzvf/env"
	vf "github.com/mozilla/crlite/go/zzvf/vf"
)

// vfState has a stored list, cached entries and a log.
func vfState() (*CertDatabase, *RedisCache) {
	db, rc, srv := vfDB()
	vfStored("2030-01-01-05", "Iss=", "ab")
	vfStored("2021-01-01", "Iss=", "expired")
	os.VFWrite(vfDir+"/ct-logs.json", []byte("[]\n"))
	st := vfLog("log.example", vfLogID, 5000)
	if rc.StoreLogState(&st) != nil {
		panic("store")
	}
	srv.VFAdd(vfKey("2030-01-01-05", "Iss="), vfEntry(9, vfLogID, "cd"))
	srv.VFAdd(vfKey("2030-01-01-06", "Jss="), "legacy")
	return db, rc
}

func vfRefused(db *CertDatabase, token string, why string) {
	k, v := vfSnap()
	var err error
	how := env.Run(func() { err = db.Commit(token) })
	vf.Assert(how == "done" && err != nil, "a commit is refused "+why)
	k2, v2 := vfSnap()
	vf.Assert(vfSameSnap(k, v, k2, v2), "a refused commit changes nothing "+why)
}

// Read-only storage.
func VF_C12_readonly() {
	_, rc := vfState()
	vfEpochs("4", "5")
	ro, err := NewCertDatabase(rc, vfDir, true)
	if err != nil {
		panic(err)
	}
	tok, err := rc.AcquireCommitLock()
	if err != nil || tok == nil {
		panic("lock")
	}
	vfRefused(&ro, *tok, "on a read-only database")
}

// The token presented is not the one that holds the lock.
func VF_C12_lock() {
	db, rc := vfState()
	vfEpochs("4", "5")
	tok := vf.Str("token", vf.Choose("len", vf.Bound("token length", 3, 25)))
	switch vf.Choose("lock", 3) {
	case 0: // nobody
	case 1:
		t, err := rc.AcquireCommitLock()
		if err != nil || t == nil {
			panic("lock")
		}
		vf.Assume(*t != tok)
	case 2: // some other holder
		other := vf.Str("holder", vf.Choose("hlen", vf.Bound("holder length", 3, 25)))
		vf.Assume(other != tok)
		redis.VFServer.VFSet(COMMIT_LOCK_KEY, other)
	}
	vfRefused(db, tok, "without the commit lock")
}

// A lock that was held but has expired.
func VF_C12_expired() {
	db, rc := vfState()
	vfEpochs("4", "5")
	t, err := rc.AcquireCommitLock()
	if err != nil || t == nil {
		panic("lock")
	}
	wait := int64(vf.Below("wait", 1<<40)) * 1000000
	vf.Assume(wait >= int64(COMMIT_LOCK_EXPIRATION))
	env.Skew = time.Duration(wait)
	vfRefused(db, *t, "with an expired lock")
}

func vfEpochPair() (s, c uint64, storage, cache string) {
	s, c = uint64(vf.U32("storage epoch")), uint64(vf.U32("cache epoch"))
	storage, cache = fmt.Sprintf("%d", s), fmt.Sprintf("%d", c)
	if vf.Choose("no epoch file", 2) == 1 {
		vf.Assume(s == 0)
		storage = ""
	}
	if vf.Choose("no cache epoch", 2) == 1 {
		vf.Assume(c == 0)
		cache = ""
	}
	return
}

func vfParse(s string) uint64 {
	if s == "none" {
		return 0
	}
	for len(s) > 0 && s[len(s)-1] == '\n' {
		s = s[:len(s)-1]
	}
	n, err := strconv.ParseUint(s, 10, 64)
	vf.Assert(err == nil, "an epoch is a number")
	return n
}

func VF_C12_epochs() {
	db, rc := vfState()
	s, c, storage, cache := vfEpochPair()
	vfEpochs(storage, cache)
	t, err := rc.AcquireCommitLock()
	if err != nil || t == nil {
		panic("lock")
	}
	ok := vf.Or(c == s+1, vf.And(c == 0, s == 0))
	k, v := vfSnap()
	var cerr error
	how := env.Run(func() { cerr = db.Commit(*t) })
	vf.Assert(how == "done", "a commit ends")
	if cerr != nil {
		vf.Assert(!ok, "a commit with all its preconditions succeeds")
		k2, v2 := vfSnap()
		vf.Assert(vfSameSnap(k, v, k2, v2), "a refused commit changes nothing with inconsistent epochs")
		return
	}
	vf.Assert(ok, "a commit is refused with inconsistent epochs")
	vf.Assert(vfParse(vfEpochFile()) == c, "a commit records the cache's epoch in storage")
	vf.Assert(vfParse(vfCacheEpoch()) == c+1, "a commit advances the cache's epoch by one")
	l, lok := vfList("2030-01-01-05", "Iss=")
	vf.Assert(lok && len(l) == 2, "a commit moves the serials")
}

// A token of another holder, epochs and failing operations at once: no success without the preconditions, and a
// success leaves the epochs consistent.
func VF_C12_fault() {
	db, rc := vfState()
	pairs := [][2]string{{"", ""}, {"11", "12"}, {"9", "10"}, {"11", "11"}, {"11", "13"}, {"", "3"}, {"5", ""}, {"99", "100"}}
	p := pairs[vf.Choose("epochs", len(pairs))]
	vfEpochs(p[0], p[1])
	s, c := vfParse(vfEpochFile()), vfParse(vfCacheEpoch())
	t, err := rc.AcquireCommitLock()
	if err != nil || t == nil {
		panic("lock")
	}
	env.FaultAt = int(vf.Below("fault", 4096))
	env.FaultForever = vf.Choose("persistent", 2) == 1
	k, v := vfSnap()
	var cerr error
	how := env.Run(func() { cerr = db.Commit(*t) })
	fault := env.Faulted
	env.Reset()
	ok := c == s+1 || s == 0 && c == 0
	s2, c2 := vfParse(vfEpochFile()), vfParse(vfCacheEpoch())
	if !ok {
		vf.Assert(how != "done" || cerr != nil, "a commit is refused with inconsistent epochs")
		k2, v2 := vfSnap()
		vf.Assert(vfSameSnap(k, v, k2, v2), "a refused commit changes nothing with inconsistent epochs")
		return
	}
	if how == "done" && cerr == nil {
		vf.Assert(c2 == s2+1 || s2 == 0 && c2 == 0, "a commit that reports success leaves the epochs consistent")
		vf.Assert(c2 == c && s2 == s || c2 == c+1 && s2 == c, "a commit advances each epoch by at most one")
		if !fault {
			vf.Assert(c2 == c+1 && s2 == c, "a commit without faults advances the epochs")
		}
	}
}
