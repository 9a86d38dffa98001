//vf:pkg storage
//vf:use store.go
//vf:note A whole Commit of the real code over models of Redis and the file system, ended at every operation that changes either (process crash), and with every single operation (or all from some point on, or all of one kind) failing; a failing write may have stored a part. Then the database is opened anew as by the next run and committed again.
//vf:note Crash means that the process dies between two operations; loss of data already written to the operating system is outside.
package storage

import (
	"os"
	"time"

	"github.com/go-redis/redis"

	"github.com/mozilla/crlite/go/zzvf/env"
	vf "github.com/mozilla/crlite/go/zzvf/vf"
)

const vfD1, vfD2, vfI1, vfI2 = "2030-01-01-05", "2030-01-01-07", "Iss=", "Jss="

type vfFact struct{ date, issuer, entry, serial string }

type vfWorld struct {
	stored, covered, uncovered []vfFact
}

// vfSetup is the state after an earlier commit, with more entries recorded since.
var vfConcrete bool

func vfSetup(bins int) (*CertDatabase, *RedisCache, *vfWorld) {
	db, rc, srv := vfDB()
	vfEpochs("1", "2")
	w := &vfWorld{}
	old := vfLog("log.example", vfLogID, 100)
	if rc.StoreLogState(&old) != nil {
		panic("store")
	}
	js, _ := srv.VFGet("log::log.example")
	os.VFWrite(vfDir+"/ct-logs.json", []byte("["+js+"]\n"))
	st := vfLog("log.example", vfLogID, 5000)
	if rc.StoreLogState(&st) != nil {
		panic("store")
	}
	add := func(date, issuer, entry, serial string, covered bool) {
		srv.VFAdd(vfKey(date, issuer), entry)
		f := vfFact{date, issuer, entry, serial}
		if covered {
			w.covered = append(w.covered, f)
		} else {
			w.uncovered = append(w.uncovered, f)
		}
	}
	s0, s1, s2 := "s0", "s1", "s2"
	if !vfConcrete {
		s0, s1, s2 = vf.Str("s0", 2), vf.Str("s1", 2), vf.Str("s2", 2)
	}
	vfStored(vfD1, vfI1, s0)
	w.stored = append(w.stored, vfFact{vfD1, vfI1, "", s0})
	add(vfD1, vfI1, vfEntry(7, vfLogID, s1), s1, true)
	add(vfD1, vfI1, vfEntry(4500, vfLogID, "un"), "un", false)
	if bins > 1 {
		add(vfD2, vfI2, s2, s2, true)
	}
	if bins > 2 {
		add(vfD2, vfI1, vfEntry(4000, vfLogID, "late"), "late", true)
	}
	return db, rc, w
}

func vfIn(l []string, s string) bool {
	r := false
	for _, x := range l {
		r = vf.Or(r, x == s)
	}
	return r
}

func vfInStorage(f vfFact) bool {
	l, ok := vfList(f.date, f.issuer)
	return ok && vfIn(l, f.serial)
}

func vfInCache(f vfFact) bool {
	return vfIn(redis.VFServer.VFMembers(vfKey(f.date, f.issuer)), f.entry)
}

// vfSafe is what must hold whenever a commit has ended in any way.
func vfSafe(db *CertDatabase, w *vfWorld) {
	for _, f := range w.stored {
		vf.Assert(vfInStorage(f), "a stored unexpired serial stays stored")
	}
	logs, err := db.GetCTLogsFromStorage()
	vf.Assert(err == nil && len(logs) == 1, "the published coverage file stays readable")
	published := len(logs) == 1 && logs[0].MaxTimestamp == 5000
	vf.Assert(published || len(logs) == 1 && logs[0].MaxTimestamp == 100, "the coverage file is the old or the new one")
	for _, f := range w.covered {
		st := vfInStorage(f)
		vf.Assert(vf.Or(st, vfInCache(f)), "a covered serial is in the cache or in storage")
		if published {
			vf.Assert(st, "published coverage has its serials in storage")
		}
	}
	for _, f := range w.uncovered {
		vf.Assert(vfInCache(f), "an uncovered entry stays in the cache")
	}
}

// vfRecover opens the database as the next run would and commits again.
func vfRecover(w *vfWorld) {
	env.Reset()
	redis.VFServer.VFDel(COMMIT_LOCK_KEY) // the lock of the dead run expires
	db, rc := vfOpen()
	vf.Assert(db.EnsureCacheIsConsistent() == nil, "the database opens after a failed commit")
	vfSafe(db, w)
	tok, err := rc.AcquireCommitLock()
	if err != nil || tok == nil {
		panic("no lock")
	}
	vf.Assert(db.Commit(*tok) == nil, "a commit after a failed one succeeds")
	vfSafe(db, w)
	for _, f := range w.covered {
		vf.Assert(vfInStorage(f), "running the commit again completes the job")
	}
}

func vfLock(rc *RedisCache) string {
	tok, err := rc.AcquireCommitLock()
	if err != nil || tok == nil {
		panic("no lock")
	}
	return *tok
}

func VF_C11_crash() {
	os.VFTmpOtherDevice = vf.Choose("tmp on another device", 2) == 1
	db, rc, w := vfSetup(vf.Bound("bins", 2, 3))
	tok := vfLock(rc)
	env.CrashAt = int(vf.Below("crash", 4096))
	var err error
	how := env.Run(func() { err = db.Commit(tok) })
	if how == "done" {
		vf.Assert(err == nil, "a commit without faults succeeds")
	}
	vfSafe(db, w)
	vfRecover(w)
}

func vfFaulty(db *CertDatabase, tok string, w *vfWorld) {
	var err error
	how := env.Run(func() { err = db.Commit(tok) })
	vfSafe(db, w)
	if how == "done" && err == nil {
		for _, f := range w.covered {
			vf.Assert(vfInStorage(f), "a commit that reports success has stored every covered serial")
		}
	}
	vfRecover(w)
}

func VF_C11_fault() {
	os.VFTmpOtherDevice = vf.Choose("tmp on another device", 2) == 1
	db, rc, w := vfSetup(vf.Bound("bins", 2, 3))
	tok := vfLock(rc)
	env.FaultAt = int(vf.Below("fault", 4096))
	env.FaultForever = vf.Choose("persistent", 2) == 1
	vfFaulty(db, tok, w)
}

// All operations of one kind fail, as on a full disk or with a cache out of memory.
func VF_C11_kind() {
	kinds := []string{"write ", "rename ", "sync ", "open ", "mkdirall ", "redis.srem", "redis.sscan", "redis.scan", "redis.get", "redis.incr", "remove ", "readdir "}
	os.VFTmpOtherDevice = vf.Choose("tmp on another device", 2) == 1
	db, rc, w := vfSetup(2)
	tok := vfLock(rc)
	env.FaultOnly = kinds[vf.Choose("kind", len(kinds))]
	env.FaultForever = true
	env.FaultAt = int(vf.Below("fault", 64))
	vfFaulty(db, tok, w)
}

// A fault and a crash later on.
func VF_C11_both() {
	db, rc, w := vfSetup(1)
	tok := vfLock(rc)
	env.FaultAt = int(vf.Below("fault", 4096))
	env.CrashAt = int(vf.Below("crash", 4096))
	vfFaulty(db, tok, w)
}

// Entries are recorded (and their log's progress saved after them) at any moment of the commit.
func VF_C11_concurrent() {
	vfConcrete = vf.Bound("symbolic serials of the stored entries", 0, 1) == 0
	db, rc, w := vfSetup(vf.Bound("bins", 2, 3))
	tok := vfLock(rc)
	rec, save := int(vf.Below("record", 4096)), int(vf.Below("save", 4096))
	vf.Assume(rec <= save)
	if vf.Bound("operations between recording and saving", 2, 4096) == 2 {
		vf.Assume(vf.Or(save <= rec+2, save == 4095))
	}
	date := []string{vfD1, vfD2}[vf.Choose("bin", 2)]
	x := vf.Str("x", 2)
	f := vfFact{date, vfI1, vfEntry(6000, vfLogID, x), x}
	n, done := 0, 0
	step := func(force bool) {
		if done == 0 && (force || n == rec) {
			if db.Store([]SetMemberWithExpiry{{Key: vfKey(f.date, f.issuer), Value: f.entry, Expiry: time.Unix(1893500000, 0)}}) != nil {
				panic("store")
			}
			done = 1
		}
		if done == 1 && (force || n == save) {
			st := vfLog("log.example", vfLogID, 8000)
			if rc.StoreLogState(&st) != nil {
				panic("save")
			}
			done = 2
		}
		n++
	}
	env.Hook = func(string) { step(false) }
	var err error
	env.Run(func() { err = db.Commit(tok) })
	env.Hook = nil
	vf.Assert(err == nil, "a commit without faults succeeds")
	step(true)
	check := func(what string) bool {
		st := vfInStorage(f)
		vf.Assert(vf.Or(st, vfInCache(f)), "an entry recorded "+what+" is in the cache or in storage")
		logs, err := db.GetCTLogsFromStorage()
		vf.Assert(err == nil && len(logs) == 1 && (logs[0].MaxTimestamp == 5000 || logs[0].MaxTimestamp == 8000), "the published coverage is one that was saved")
		if len(logs) == 1 && logs[0].MaxTimestamp == 8000 {
			vf.Assert(st, "coverage published "+what+" has its serials in storage")
		}
		return st
	}
	check("during a commit")
	for _, g := range append(append([]vfFact{}, w.stored...), w.covered...) {
		vf.Assert(vfInStorage(g), "a commit stores every covered serial")
	}
	vf.Assert(db.Commit(tok) == nil, "the next commit succeeds")
	vf.Assert(check("before a commit"), "the next commit stores what was recorded before")
	for _, g := range append(append([]vfFact{}, w.stored...), w.covered...) {
		vf.Assert(vfInStorage(g), "the next commit keeps every stored serial")
	}
}

// A listing of the cache breaks off, and the process that is to be told goes on for a while.
func VF_C11_listing() {
	vfConcrete = true
	db, rc, w := vfSetup(2)
	redis.VFServer.PageSize = 1
	tok := vfLock(rc)
	env.FaultOnly = []string{"redis.scan", "redis.sscan"}[vf.Choose("command", 2)]
	env.FaultAt = int(vf.Below("fault", 64))
	vf.SchedIO(vf.Bound("preemptions", 1, 2))
	var err error
	how := env.Run(func() { err = db.Commit(tok) })
	vf.Sched(-1)
	vfSafe(db, w)
	if how == "done" && err == nil {
		for _, f := range w.covered {
			vf.Assert(vfInStorage(f), "a commit that reports success has stored every covered serial")
		}
	}
	logs, err := db.GetCTLogsFromStorage()
	vf.Assert(err == nil && len(logs) == 1, "no incomplete coverage is published")
}
