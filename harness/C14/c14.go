//vf:pkg storage
//vf:use store.go
//vf:note A whole Commit is run (real RedisCache and CertDatabase over models of Redis and the file system); serials symbolic, list sizes and serial lengths enumerated.
package storage

import (
	"os"

	"github.com/mozilla/crlite/go"
	vf "github.com/mozilla/crlite/go/zzvf/vf"
)

const vfDate, vfIss = "2030-01-01-05", "Iss="

func vfCommit(db *CertDatabase, rc *RedisCache) error {
	tok, err := rc.AcquireCommitLock()
	if err != nil || tok == nil {
		panic("no lock")
	}
	defer rc.ReleaseCommitLock(*tok)
	return db.Commit(*tok)
}

func vfCount(l []string, s string) int {
	n := 0
	for _, x := range l {
		n += vf.IteInt(x == s, 1, 0)
	}
	return n
}

// Merging a stored list with covered, uncovered and legacy cache entries.
func VF_C14_merge() {
	db, rc, srv := vfDB()
	st := vfLog("log.example", vfLogID, 5000)
	if rc.StoreLogState(&st) != nil {
		panic("store")
	}
	lens := []int{2, 1, 3, 0}
	var stored, covered []string
	ns := vf.Choose("stored", vf.Bound("stored serials", 2, 3)+1)
	nn := vf.Choose("new", vf.Bound("new serials", 2, 3)+1)
	for i := 0; i < ns; i++ {
		s := vf.Str("stored", lens[vf.Choose("slen", vf.Bound("serial lengths", 2, 3))])
		for _, o := range stored {
			vf.Assume(o != s)
		}
		stored = append(stored, s)
	}
	hadFile := ns > 0 || vf.Choose("emptyfile", 2) == 1
	if hadFile {
		vfStored(vfDate, vfIss, stored...)
	}
	kinds := 0
	for i := 0; i < nn; i++ {
		s := vf.Str("new", lens[vf.Choose("nlen", vf.Bound("serial lengths", 2, 4))])
		covered = append(covered, s)
		switch vf.Choose("kind", 2) {
		case 0:
			srv.VFAdd(vfKey(vfDate, vfIss), vfEntry(uint64(i), vfLogID, s))
		case 1:
			kinds++
			srv.VFAdd(vfKey(vfDate, vfIss), s) // legacy
		}
	}
	late := vf.Choose("uncovered", 2) == 1
	un := vf.Str("un", 2)
	unEntry := vfEntry(4001, vfLogID, un)
	if late {
		srv.VFAdd(vfKey(vfDate, vfIss), unEntry)
	}
	err := vfCommit(db, rc)
	vf.Assert(err == nil, "moving serials succeeds")
	got, ok := vfList(vfDate, vfIss)
	if !ok {
		vf.Assert(len(stored)+len(covered) == 0 && !late && !hadFile, "the list is written in the documented format")
		return
	}
	for _, s := range stored {
		vf.Assert(vfCount(got, s) == 1, "each stored serial is there exactly once")
	}
	for _, s := range covered {
		vf.Assert(vfCount(got, s) == 1, "each new serial is there exactly once")
	}
	for _, g := range got {
		vf.Assert(vfCount(stored, g)+vfCount(covered, g) > 0, "nothing else is stored")
	}
	list, err := db.ReadSerialsFromStorage(vfExp(vfDate), types.NewIssuerFromString(vfIss))
	vf.Assert(err == nil && len(list) == len(got), "the list reads back")
	for i := range list {
		if i < len(got) {
			vf.Assert(list[i].BinaryString() == got[i], "the serials read back are the stored ones")
		}
	}
	mem := srv.VFMembers(vfKey(vfDate, vfIss))
	if late {
		vf.Assert(len(mem) == 1 && mem[0] == unEntry, "an uncovered entry stays in the cache, the others leave it")
	} else {
		vf.Assert(len(mem) == 0, "moved entries leave the cache")
	}
	for _, f := range os.VFFiles(vfDir) {
		vf.Assert(f == vfPath(vfDate, vfIss) || f == vfDir+"/epoch" || f == vfDir+"/ct-logs.json", "no other file remains")
	}
}

// A list whose expiry line differs in any way is refused and left alone.
func VF_C14_expiryline() {
	db, rc, srv := vfDB()
	vfStored(vfDate, vfIss, "ab", "cd")
	p := vfPath(vfDate, vfIss)
	good, _ := os.VFRead(p)
	bad := append([]byte{}, good...)
	at := vf.Choose("at", 17)
	c := vf.U8("byte")
	vf.Assume(c != good[at] && c != '\n' && c != '\r')
	bad[at] = c
	os.VFWrite(p, bad)
	_, err := db.ReadSerialsFromStorage(vfExp(vfDate), types.NewIssuerFromString(vfIss))
	vf.Assert(err != nil, "a wrong expiry line is reported")
	srv.VFAdd(vfKey(vfDate, vfIss), "xy")
	err = vfCommit(db, rc)
	vf.Assert(err != nil, "a commit over a wrong expiry line fails")
	now, _ := os.VFRead(p)
	vf.Assert(string(now) == string(bad), "the refused list is left alone")
	mem := srv.VFMembers(vfKey(vfDate, vfIss))
	vf.Assert(len(mem) == 1, "the entry stays in the cache")
}

// Long serials and another issuer and date next to it.
func VF_C14_long() {
	db, rc, srv := vfDB()
	st := vfLog("log.example", vfLogID, 5000)
	if rc.StoreLogState(&st) != nil {
		panic("store")
	}
	n := []int{20, 21, 39, 1, 19}[vf.Choose("len", vf.Bound("serial lengths", 3, 5))]
	s := vf.Str("serial", n)
	vfStored(vfDate, "Other=", "o1")
	vfStored("2030-01-01-06", vfIss, "o2")
	if vf.Choose("legacy", 2) == 1 {
		srv.VFAdd(vfKey(vfDate, vfIss), s)
	} else {
		srv.VFAdd(vfKey(vfDate, vfIss), vfEntry(vf.U64("ts")&1023, vfLogID, s))
	}
	vf.Assert(vfCommit(db, rc) == nil, "moving serials succeeds")
	got, ok := vfList(vfDate, vfIss)
	vf.Assert(ok && len(got) == 1 && got[0] == s, "a serial of any length is stored as it is")
	list, err := db.ReadSerialsFromStorage(vfExp(vfDate), types.NewIssuerFromString(vfIss))
	vf.Assert(err == nil && len(list) == 1 && list[0].BinaryString() == s, "a serial of any length reads back")
	srv.VFAdd(vfKey(vfDate, vfIss), "\x7f")
	vf.Assert(vfCommit(db, rc) == nil, "moving more serials succeeds")
	got, ok = vfList(vfDate, vfIss)
	vf.Assert(ok && vfCount(got, s) == 1 && vfCount(got, "\x7f") == 1, "a stored serial of any length is kept")
	o, ok := vfList(vfDate, "Other=")
	vf.Assert(ok && len(o) == 1 && o[0] == "o1", "other issuers' lists are untouched")
	o, ok = vfList("2030-01-01-06", vfIss)
	vf.Assert(ok && len(o) == 1 && o[0] == "o2", "other dates' lists are untouched")
}
