//vf:pkg storage
//vf:use ../C34/c34.go
//vf:opt race=1
package storage

import (
	"github.com/mozilla/crlite/go/zzvf/env"
	vf "github.com/mozilla/crlite/go/zzvf/vf"
)

// A commit that moves several bins at once, one of which may be unreadable.
func VF_C37_commit() {
	db, rc, srv := vfDB()
	st := vfLog("log.example", vfLogID, 5000)
	if rc.StoreLogState(&st) != nil {
		panic("store")
	}
	for _, d := range []string{"2030-01-01-05", "2030-01-01-06", "2031-01-01"} {
		for _, i := range []string{"Iss=", "Oth="} {
			srv.VFAdd(vfKey(d, i), vfEntry(1, vfLogID, "s"+d))
		}
	}
	tok := vfLock34(rc)
	env.FaultAt = int(vf.Below("fault", 4096))
	env.FaultForever = vf.Choose("forever", 2) == 1
	vf.Delays(vf.Bound("departures from the default schedule", 1, 1))
	var err error
	how := env.Run(func() { err = db.Commit(tok) })
	vf.Delays(-1)
	vf.Assert(env.Faulted || how == "done" && err == nil, "a commit without faults succeeds")
}
