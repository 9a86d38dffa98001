//vf:pkg storage
//vf:use store.go
//vf:note Epochs are symbolic decimal numbers; the logs in the cache and in storage are enumerated, their positions symbolic (in the crash and fault entries: concrete); every single operation fails or is the last one before a crash.
package storage

import (
	"encoding/json"
	"fmt"
	"os"
	"strings"

	"github.com/go-redis/redis"

	"github.com/mozilla/crlite/go"
	"github.com/mozilla/crlite/go/zzvf/env"
	vf "github.com/mozilla/crlite/go/zzvf/vf"
)

func vfPos(name string, sym bool, n uint64) types.CTLogState {
	st := vfLog(name, vfLogID, 5000+n)
	st.MaxEntry = 100 + n
	if sym {
		st.MinEntry = vf.U64("min " + name)
		st.MaxEntry = vf.U64("max " + name)
		st.MaxTimestamp = vf.U64("ts " + name)
		st.MMD = vf.U64("mmd " + name)
	}
	return st
}

func vfJSON(x interface{}) string {
	b, err := json.Marshal(x)
	if err != nil {
		panic(err)
	}
	return string(b)
}

func vfLogKeys() (r []string) {
	for _, k := range redis.VFServer.VFKeys() {
		if strings.HasPrefix(k, "log::") {
			r = append(r, k)
		}
	}
	return
}

func vfSameLog(a, b types.CTLogState) bool {
	return vf.And(a.LogID == b.LogID, a.MMD == b.MMD, a.ShortURL == b.ShortURL, a.MinEntry == b.MinEntry,
		a.MaxEntry == b.MaxEntry, a.MinTimestamp == b.MinTimestamp, a.MaxTimestamp == b.MaxTimestamp, a.LastUpdateTime.Equal(b.LastUpdateTime))
}

type vfC13 struct {
	db      *CertDatabase
	rc      *RedisCache
	cache   []types.CTLogState
	storage []types.CTLogState
	s, c    uint64
}

func vfC13setup(sym bool, s, c uint64, file, key string) *vfC13 {
	db, rc, srv := vfDB()
	w := &vfC13{db: db, rc: rc, s: s, c: c}
	names := []string{"a.example", "b.example/x", "d.example"}
	nc, ns := vf.Choose("logs in the cache", 4), vf.Choose("logs in storage", 3)
	for i := 0; i < nc; i++ {
		w.cache = append(w.cache, vfPos(names[i], sym, uint64(10+i)))
		srv.VFSet("log::"+names[i], vfJSON(w.cache[i]))
	}
	names = []string{"b.example/x", "c.example"}
	for i := 0; i < ns; i++ {
		w.storage = append(w.storage, vfPos(names[i], sym, uint64(i)))
	}
	vfEpochs(file, key)
	if len(w.storage) > 0 || vf.Choose("no coverage file", 2) == 0 {
		js := vfJSON(w.storage)
		if len(w.storage) == 0 {
			js = "[]"
		}
		os.VFWrite(vfDir+"/ct-logs.json", []byte(js+"\n"))
	}
	srv.VFAdd(vfKey("2030-01-01-05", "Iss="), vfEntry(9, vfLogID, "cd"))
	vfStored("2030-01-01-05", "Iss=", "ab")
	return w
}

// vfRestored tells whether the cache has exactly the storage's log positions.
func (w *vfC13) vfRestored() bool {
	if len(vfLogKeys()) != len(w.storage) {
		return false
	}
	r := true
	for _, l := range w.storage {
		g, err := w.rc.LoadLogState(l.ShortURL)
		if err != nil || g == nil {
			return false
		}
		r = vf.And(r, vfSameLog(*g, l))
	}
	return r
}

func (w *vfC13) vfSerials(when string) {
	m := redis.VFServer.VFMembers(vfKey("2030-01-01-05", "Iss="))
	vf.Assert(len(m) == 1 && m[0] == vfEntry(9, vfLogID, "cd"), "cached entries are kept "+when)
	l, ok := vfList("2030-01-01-05", "Iss=")
	vf.Assert(ok && len(l) == 1 && l[0] == "ab", "stored serials are kept "+when)
}

func VF_C13_open() {
	s, c := uint64(vf.U32("storage epoch")), uint64(vf.U32("cache epoch"))
	file, key := fmt.Sprintf("%d", s), fmt.Sprintf("%d", c)
	if vf.Choose("no epoch file", 2) == 1 {
		vf.Assume(s == 0)
		file = ""
	}
	if vf.Choose("no cache epoch", 2) == 1 {
		vf.Assume(c == 0)
		key = ""
	}
	w := vfC13setup(true, s, c, file, key)
	k, v := vfSnap()
	err := w.db.EnsureCacheIsConsistent()
	good := vf.Or(c == s+1, vf.And(c == 0, s == 0))
	k2, v2 := vfSnap()
	if good {
		vf.Assert(err == nil, "a consistent database opens")
		vf.Assert(vfSameSnap(k, v, k2, v2), "opening a consistent database changes nothing")
		return
	}
	if !os.VFExists(vfDir + "/ct-logs.json") {
		vf.Assert(err != nil, "a database that cannot be resynchronised does not open")
		vf.Assert(vfSameSnap(k, v, k2, v2), "a failed opening without coverage data changes nothing")
		return
	}
	vf.Assert(err == nil, "an inconsistent database is resynchronised")
	vf.Assert(w.vfRestored(), "the cache's log positions are those of storage")
	e, _ := redis.VFServer.VFGet("epoch")
	vf.Assert(e == fmt.Sprintf("%d", s+1), "the cache's epoch follows storage")
	ep, gerr := w.rc.GetEpoch()
	vf.Assert(gerr == nil && ep == s+1, "the cache's epoch reads back")
	_, locked := redis.VFServer.VFGet(COMMIT_LOCK_KEY)
	vf.Assert(!locked, "no lock remains")
	w.vfSerials("by resynchronising")
}

// While somebody holds the commit lock nothing is touched.
func VF_C13_locked() {
	w := vfC13setup(true, 3, 9, "3", "9")
	tok, err := w.rc.AcquireCommitLock()
	if err != nil || tok == nil {
		panic("lock")
	}
	k, v := vfSnap()
	err = w.db.EnsureCacheIsConsistent()
	vf.Assert(err != nil, "resynchronising needs the commit lock")
	k2, v2 := vfSnap()
	vf.Assert(vfSameSnap(k, v, k2, v2), "without the commit lock nothing changes")
}

// vfAfter is what must hold after an opening that ended in any way, and opening again must succeed.
func (w *vfC13) vfAfter(how string, err error) {
	env.Reset()
	w.vfSerials("by a failed opening")
	consistent := w.c == w.s+1 || w.c == 0 && w.s == 0
	c2, gerr := w.rc.GetEpoch()
	vf.Assert(gerr == nil, "the cache's epoch stays readable")
	if consistent {
		vf.Assert(c2 == w.c, "the epoch of a consistent database is kept")
		return
	}
	if c2 == w.s+1 {
		vf.Assert(w.vfRestored(), "the cache's epoch follows storage only once every log position is restored")
	} else {
		vf.Assert(c2 == w.c, "the cache's epoch is the old one or follows storage")
		vf.Assert(how != "done" || err != nil, "an opening that did not resynchronise reports it")
	}
	redis.VFServer.VFDel(COMMIT_LOCK_KEY) // expires
	db, rc := vfOpen()
	w.db, w.rc = db, rc
	err = db.EnsureCacheIsConsistent()
	if !os.VFExists(vfDir + "/ct-logs.json") {
		return
	}
	vf.Assert(err == nil, "the database opens after a failed opening")
	vf.Assert(w.vfRestored(), "opening again resynchronises the log positions")
	c3, _ := rc.GetEpoch()
	vf.Assert(c3 == w.s+1, "opening again resynchronises the epoch")
}

func vfPairs() (uint64, uint64, string, string) {
	switch vf.Choose("epochs", 5) {
	case 0:
		return 3, 9, "3", "9"
	case 1:
		return 7, 0, "7", ""
	case 2:
		return 0, 1, "", "1"
	case 3:
		return 0, 5, "", "5"
	}
	return 6, 6, "6", "6"
}

func VF_C13_crash() {
	s, c, f, k := vfPairs()
	w := vfC13setup(false, s, c, f, k)
	env.CrashAt = int(vf.Below("crash", 4096))
	var err error
	how := env.Run(func() { err = w.db.EnsureCacheIsConsistent() })
	w.vfAfter(how, err)
}

func VF_C13_fault() {
	s, c, f, k := vfPairs()
	w := vfC13setup(false, s, c, f, k)
	env.FaultAt = int(vf.Below("fault", 4096))
	env.FaultForever = vf.Choose("persistent", 2) == 1
	var err error
	how := env.Run(func() { err = w.db.EnsureCacheIsConsistent() })
	w.vfAfter(how, err)
}
