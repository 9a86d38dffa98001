//vf:pkg cmd/aggregate-known
//vf:use ../C32/c32.go
package main

import (
	"encoding/json"
	"flag"
	"os"
	"os/signal"
	"syscall"

	"github.com/go-redis/redis"

	"github.com/mozilla/crlite/go"
	"github.com/mozilla/crlite/go/zzvf/env"
	vf "github.com/mozilla/crlite/go/zzvf/vf"
)

func vfKnownWorld(threads int) (ds []string, y []byte) {
	vfWorld(threads, 0, 1)
	signal.VFReset()
	flag.VFArgs = []string{"-enrolledpath", "/work/enrolled.json", "-knownpath", "/work/known", "-ctlogspath", "/work/ct.json"}
	st := types.CTLogState{LogID: "AQAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA=", MMD: 1, ShortURL: "log.example", MaxEntry: 9, MaxTimestamp: 6000}
	db := vfCache(st)
	ds = []string{"2030-01-01-05", "2031-06-30"}
	vfPut(vfIDs[0], ds[0], []byte{1, 2})
	vfPut(vfIDs[0], ds[1], []byte{1, 3})
	vfPut(vfIDs[1], ds[0], []byte{2, 3})
	vfPut(vfIDs[2], ds[0], []byte{3, 3})
	y = []byte{7, 7}
	vfStore(db, vfIDs[1], ds[1], 5000, y)
	return ds, y
}

func vfKnownDone(ds []string) {
	vfCheck(ds, 0, 1)
	_, _, ok := func() (a, b int, ok bool) { _, ok = os.VFRead(vfFile(vfIDs[1], ds[1])); return }()
	vf.Assert(ok, "the covered serial is committed")
	var got []types.CTLogState
	vf.Assert(json.Unmarshal([]byte(vfCoverage()), &got) == nil && len(got) == 1, "the coverage is exported")
	_, held := redis.VFServer.VFGet("lock::commit")
	vf.Assert(!held, "the commit lock is released")
}

// A signal at any operation.
func VF_C38_known_signal() {
	ds, _ := vfKnownWorld(vf.Choose("threads", 2) + 1)
	at, n := int(vf.Below("signal at", 4096)), 0
	sig := []os.Signal{syscall.SIGINT, syscall.SIGTERM}[vf.Choose("signal", 2)]
	sent := false
	env.Hook = func(op string) {
		if n == at {
			sent = true
			signal.VFDeliver(sig)
			vf.SleepNs(1)
		}
		n++
	}
	how := env.Run(main)
	env.Hook = nil
	vf.Observe("how", how)
	code := env.ExitCode
	env.Reset()
	if how == "done" {
		vfKnownDone(ds)
		return
	}
	vf.Assert(sent && code != 0, "a run without a signal succeeds")
}

// The exit status of the program tells whether the export is whole.
func VF_C38_known_fault() {
	ds, _ := vfKnownWorld(1)
	env.FaultAt = int(vf.Below("fault", 4096))
	env.FaultForever = vf.Choose("forever", 2) == 1
	how := env.Run(main)
	code, faulted := env.ExitCode, env.Faulted
	vf.Observe("how", how)
	env.Reset()
	if how == "done" {
		vfCheck(ds, 0, 1)
		return
	}
	vf.Assert(faulted && code != 0, "a run without faults succeeds")
}
