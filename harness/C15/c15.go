//vf:pkg storage
//vf:use store.go
//vf:note A whole Commit runs at a symbolic time (ns) against stored lists whose expiry labels are enumerated; the hour or day a label names is computed by the harness from its text.
package storage

import (
	"os"
	"strings"
	"time"

	"github.com/mozilla/crlite/go"
	"github.com/mozilla/crlite/go/zzvf/env"
	vf "github.com/mozilla/crlite/go/zzvf/vf"
)

// vfEnd is when the hour or day named by a label ends (Unix ns).
func vfEnd(label string) int64 {
	num := func(s string) (n int) {
		for _, c := range s {
			n = n*10 + int(c-'0')
		}
		return
	}
	p := strings.Split(label, "-")
	t := time.Date(num(p[0]), time.Month(num(p[1])), num(p[2]), 0, 0, 0, 0, time.UTC)
	if len(p) == 4 {
		return t.Unix()*1000000000 + int64(num(p[3])+1)*3600*1000000000
	}
	return t.Unix()*1000000000 + 24*3600*1000000000
}

var vfLabels = []string{"2024-02-28-23", "2024-02-29", "2024-12-31-23", "2024-02-29-00", "2025-01-01", "2023-11-14-22", "2023-11-14", "2023-11-15-00", "2030-06-30-12"}

// The time of the commit is anywhere within about nine years of the model's start.
func vfWhen() {
	env.Skew = time.Duration(vf.Below("s", 1<<28)*1000000000 + vf.Below("ns", 1000000000))
}

func VF_C15_exact() {
	db, rc, _ := vfDB()
	labels := vfLabels[:vf.Bound("labels", 6, len(vfLabels))]
	i := vf.Choose("first", len(labels))
	j := vf.Choose("second", len(labels))
	vfStored(labels[i], "Iss=", "ab")
	vfStored(labels[j], "Jss=", "cd")
	vfStored("2040-01-01", "Jss=", "ef")
	tok, err := rc.AcquireCommitLock()
	if err != nil || tok == nil {
		panic("lock")
	}
	if vf.Choose("cached", 2) == 1 {
		// recorded for the same list: it is merged first
		if db.Store([]SetMemberWithExpiry{{Key: vfKey(labels[i], "Iss="), Value: "zz", Expiry: time.Unix(2300000000, 0)}}) != nil {
			panic("store")
		}
	}
	vfWhen()
	now := env.NowNs()
	redisKeep(rc, *tok)
	err = db.Commit(*tok)
	vf.Assert(err == nil, "the commit succeeds")
	for k, l := range []string{labels[i], labels[j]} {
		iss := []string{"Iss=", "Jss="}[k]
		if _, ok := os.VFRead(vfPath(l, iss)); ok {
			vf.Assert(now < vfEnd(l), "an expired list is deleted")
		} else {
			vf.Assert(now >= vfEnd(l)-1000000, "a list is deleted only when its date has passed")
		}
	}
	o, ok := vfList("2040-01-01", "Jss=")
	vf.Assert(ok && len(o) == 1 && o[0] == "ef", "unexpired lists are untouched")
}

// redisKeep puts the commit lock in place whatever time has passed.
func redisKeep(rc *RedisCache, tok string) {
	vfSrv().VFSet(COMMIT_LOCK_KEY, tok)
}

// A certificate is never treated as expired before its own notAfter has passed, from its record to the deletion.
func VF_C15_cert() {
	db, rc, _ := vfDB()
	st := vfLog("log.example", vfLogID, 5000)
	if rc.StoreLogState(&st) != nil {
		panic("store")
	}
	na := time.Unix(1700000000+int64(vf.Below("notAfter", uint64(vf.Bound("seconds until notAfter", 90000, 2000000)))), 0).UTC()
	e := types.NewExpDateFromTime(na)
	vfStored(e.ID(), "Iss=", "ab")
	tok, err := rc.AcquireCommitLock()
	if err != nil || tok == nil {
		panic("lock")
	}
	env.Skew = time.Duration(vf.Below("now", 2000000)) * time.Second
	now := env.NowNs()
	redisKeep(rc, *tok)
	vf.Assert(db.Commit(*tok) == nil, "the commit succeeds")
	if !os.VFExists(vfPath(e.ID(), "Iss=")) {
		vf.Assert(now > na.Unix()*1000000000, "a certificate's list is kept until its notAfter has passed")
	} else {
		vf.Assert(now < (na.Unix()+3600)*1000000000, "a certificate's list is deleted once the hour of its notAfter is over")
	}
}

// Files and directories that are not serial lists, and empty issuer directories.
func VF_C15_others() {
	db, rc, _ := vfDB()
	other := []string{"issuer::Iss=/README", "issuer::Iss=/serials::notadate::Iss=", "plainfile", "otherdir/serials::2021-01-01::X", "issuer::Iss=/serials::2021-01-01-03", "issuer::Iss=/serials::2021-13-01::Iss="}
	x := vfDir + "/serials/" + other[vf.Choose("other", len(other))]
	os.VFWrite(x, []byte("x"))
	vfStored("2021-01-01", "Iss=", "ab")
	vfStored("2021-01-02-03", "Jss=", "ab")
	vfStored("2031-01-02-03", "Jss=", "ab")
	vfStored("2021-01-02-03", "Kss=", "ab")
	tok, err := rc.AcquireCommitLock()
	if err != nil || tok == nil {
		panic("lock")
	}
	vf.Assert(db.Commit(*tok) == nil, "the commit succeeds")
	vf.Assert(os.VFExists(x), "other files are untouched")
	for _, l := range [][2]string{{"2021-01-01", "Iss="}, {"2021-01-02-03", "Jss="}, {"2021-01-02-03", "Kss="}} {
		vf.Assert(!os.VFExists(vfPath(l[0], l[1])), "every expired list is deleted")
	}
	o, ok := vfList("2031-01-02-03", "Jss=")
	vf.Assert(ok && len(o) == 1 && o[0] == "ab", "unexpired lists are untouched")
}
