//vf:pkg storage
//vf:use store.go
//vf:note The log's path is a few symbolic characters of [a-z0-9-./_]; scheme, host, surrounding slashes enumerated; positions symbolic (64 bits each). Crash and fault at every operation of a migration.
package storage

import (
	"encoding/json"
	"net/url"
	"strings"
	"time"

	"github.com/go-redis/redis"

	"github.com/mozilla/crlite/go"
	"github.com/mozilla/crlite/go/zzvf/env"
	vf "github.com/mozilla/crlite/go/zzvf/vf"
)

// vfSegs is a path of symbolic segments; no segment is empty.
func vfSegs(name string, n int) string {
	if n == 0 {
		return ""
	}
	b := vf.Bytes(name, n)
	for i, c := range b {
		ok := vf.Or(vf.And(c >= 'a', c <= 'z'), vf.And(c >= '0', c <= '9'), c == '-', c == '.', c == '_', c == '~')
		if i > 0 && i < n-1 {
			ok = vf.Or(ok, c == '/')
		}
		vf.Assume(ok)
	}
	return string(b)
}

// vfSpell is one of the spellings of a log's URL.
func vfSpell(which int, host, path string) string {
	s := host
	if path != "" {
		s += "/" + path
	}
	return []string{"https://" + s, "https://" + s + "/", "http://" + s, "https://" + s + "//", "https://" + s + "///"}[which]
}

func vfURL(s string) *url.URL {
	u, err := url.Parse(s)
	if err != nil {
		panic(err)
	}
	return u
}

func vfPosition(st *types.CTLogState) {
	st.LogID = "TG9nSUQ="
	st.MMD = vf.U64("mmd")
	st.MinEntry = vf.U64("min")
	st.MaxEntry = vf.U64("max")
	st.MinTimestamp = vf.U64("mints")
	st.MaxTimestamp = vf.U64("maxts")
	st.LastUpdateTime = time.Unix(1699999999, 0).UTC()
}

func vfSamePos(a, b *types.CTLogState) bool {
	return vf.And(a.LogID == b.LogID, a.MMD == b.MMD, a.MinEntry == b.MinEntry,
		a.MaxEntry == b.MaxEntry, a.MinTimestamp == b.MinTimestamp, a.MaxTimestamp == b.MaxTimestamp, a.LastUpdateTime.Equal(b.LastUpdateTime))
}

func vfIsZero(a *types.CTLogState) bool {
	return vf.And(a.MinEntry == 0, a.MaxEntry == 0, a.MinTimestamp == 0, a.MaxTimestamp == 0, a.LastUpdateTime.IsZero())
}

var vfHosts = []string{"log.example", "log.example:8443"}

// A saved position is found under every spelling; other logs have their own.
func VF_C19_roundtrip() {
	db, _, _ := vfDB()
	host := vfHosts[vf.Choose("host", len(vfHosts))]
	path := vfSegs("path", vf.Choose("path length", vf.Bound("path length", 2, 5)+1))
	a := vfURL(vfSpell(vf.Choose("spelling saved", 5), host, path))
	b := vfURL(vfSpell(vf.Choose("spelling loaded", 5), host, path))
	short := host
	if path != "" {
		short += "/" + path
	}
	st, err := db.GetLogState(a)
	vf.Assert(err == nil && st != nil && vfIsZero(st), "a log never stored starts at the zero position")
	if st == nil {
		return
	}
	vf.Assert(strings.TrimRight(st.ShortURL, "/") == short, "a log never stored has its own URL")
	vfPosition(st)
	vf.Assert(db.SaveLogState(st) == nil, "a position is saved")
	if vf.Choose("again", 2) == 1 {
		// a later position replaces it
		st.MaxEntry = vf.U64("max2")
		st.MaxTimestamp = vf.U64("maxts2")
		vf.Assert(db.SaveLogState(st) == nil, "a position is saved")
	}
	db2, _ := vfOpen()
	got, err := db2.GetLogState(b)
	vf.Assert(err == nil && got != nil && vfSamePos(got, st), "the saved position is loaded")
	if got != nil {
		vf.Assert(strings.TrimRight(got.ShortURL, "/") == short, "a loaded position belongs to the log")
	}
	all, err := db2.cache.LoadAllLogStates()
	vf.Assert(err == nil && len(all) == 1, "the log is listed once")
	if len(all) == 1 {
		vf.Assert(vfSamePos(&all[0], st), "the listed position is the saved one")
	}
}

// Another log neither has the position of the first one nor changes it.
func VF_C19_separate() {
	db, _, _ := vfDB()
	n := vf.Bound("path length", 1, 3)
	h1, h2 := vfHosts[vf.Choose("host", 2)], vfHosts[vf.Choose("other host", 2)]
	p1, p2 := vfSegs("path", vf.Choose("path length", n+1)), vfSegs("other path", vf.Choose("other path length", n+1))
	vf.Assume(h1 != h2 || p1 != p2)
	a := vfURL(vfSpell(vf.Choose("spelling", 2), h1, p1))
	b := vfURL(vfSpell(vf.Choose("other spelling", 2), h2, p2))
	st, _ := db.GetLogState(a)
	vfPosition(st)
	vf.Assert(db.SaveLogState(st) == nil, "a position is saved")
	got, err := db.GetLogState(b)
	vf.Assert(err == nil && got != nil && vfIsZero(got), "another log starts at the zero position")
	if got == nil {
		return
	}
	got.MaxEntry = vf.U64("other max")
	got.LastUpdateTime = time.Unix(1600000000, 0).UTC()
	vf.Assert(db.SaveLogState(got) == nil, "the other log's position is saved")
	st2, err := db.GetLogState(a)
	vf.Assert(err == nil && st2 != nil && vfSamePos(st, st2), "a position is not changed by another log's")
	all, err := db.cache.LoadAllLogStates()
	vf.Assert(err == nil && len(all) == 2, "both logs are listed")
}

// vfOldKey stores a position as the previous format did (key and URL end in a slash).
func vfOldKey(short string, st types.CTLogState) {
	st.ShortURL = short + "/"
	b, err := json.Marshal(st)
	if err != nil {
		panic(err)
	}
	redis.VFServer.VFSet("log::"+short+"/", string(b))
}

// Positions under the previous key format are still found after the migration, also when it is interrupted or an operation fails.
func VF_C19_migrate() {
	db, _, srv := vfDB()
	host := vfHosts[0]
	path := vfSegs("path", vf.Choose("path length", vf.Bound("path length", 2, 4)+1))
	short := host
	if path != "" {
		short += "/" + path
	}
	var old, cur types.CTLogState
	vfPosition(&old)
	vfPosition(&cur)
	have := vf.Choose("stored", 4)
	if have&1 != 0 {
		vfOldKey(short, old)
	}
	if have&2 != 0 {
		cur.ShortURL = short
		vf.Assert(db.SaveLogState(&cur) == nil, "a position is saved")
	}
	// another log in the previous format stays as it is
	var other types.CTLogState
	other.MaxEntry = 77
	vfOldKey(host+"/zz/zz/zz", other)
	before, _ := srv.VFGet("log::" + host + "/zz/zz/zz/")

	u := vfSpell(vf.Choose("spelling migrated", 3), host, path)
	mode := vf.Choose("mode", 3)
	var err error
	how := "done"
	switch mode {
	case 1:
		env.CrashAt = int(vf.Below("crash", 4096))
	case 2:
		env.FaultAt = int(vf.Below("fault", 4096))
	}
	how = env.Run(func() { err = db.Migrate(&types.CTLogMetadata{URL: u}) })
	failed := how != "done" || err != nil
	env.Reset()
	db, _ = vfOpen()
	if failed {
		vf.Assert(mode != 0, "a migration without a fault succeeds")
		vf.Assert(db.Migrate(&types.CTLogMetadata{URL: u}) == nil, "a migration can be repeated")
	}
	got, err := db.GetLogState(vfURL(vfSpell(vf.Choose("spelling loaded", 3), host, path)))
	vf.Assert(err == nil && got != nil, "a position is loaded")
	if got == nil {
		return
	}
	switch have {
	case 0:
		vf.Assert(vfIsZero(got), "a log never stored starts at the zero position")
	case 1:
		vf.Assert(vfSamePos(got, &old), "a position of the previous format is found")
	default:
		vf.Assert(vfSamePos(got, &cur), "a current position wins over one of the previous format")
	}
	all, err := db.cache.LoadAllLogStates()
	want := 1
	if have != 0 {
		want = 2
	}
	vf.Assert(err == nil, "all logs are listed")
	if mode == 0 {
		vf.Assert(len(all) == want, "a migrated log is listed once")
	}
	after, ok := srv.VFGet("log::" + host + "/zz/zz/zz/")
	vf.Assert(ok && before == after, "another log is not touched by the migration")
}
