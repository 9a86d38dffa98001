//vf:pkg cmd/commit
package main

import (
	"encoding/hex"
	"flag"
	"fmt"
	"os"
	"os/signal"
	"strings"
	"syscall"
	"time"

	"github.com/go-redis/redis"

	"github.com/mozilla/crlite/go"
	"github.com/mozilla/crlite/go/storage"
	"github.com/mozilla/crlite/go/zzvf/env"
	vf "github.com/mozilla/crlite/go/zzvf/vf"
)

const vfDir = "/work/db"

// vfWorld has a covered serial (a), one that is too young (b) and a stored one (c) of one issuer.
func vfWorld() *storage.RedisCache {
	env.Reset()
	signal.VFReset()
	redis.VFServer = redis.NewServer()
	os.VFMkdir(vfDir)
	os.VFMkdir(vfDir + "/serials")
	os.Setenv("redisHost", "x")
	os.Setenv("certPath", vfDir)
	rc, err := storage.NewRedisCache("x", time.Second)
	if err != nil {
		panic(err)
	}
	st := types.CTLogState{LogID: "AQAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA=", MMD: 1, ShortURL: "log.example", MaxEntry: 9, MaxTimestamp: 6000}
	if rc.StoreLogState(&st) != nil {
		panic("store")
	}
	db, err := storage.NewCertDatabase(rc, vfDir, false)
	if err != nil {
		panic(err)
	}
	e, _ := types.NewExpDate("2030-01-01-05")
	os.VFWrite(vfFile(), []byte(fmt.Sprintf("@%016x\n%x\n", e.Unix(), "c")))
	for i, ts := range []uint64{5000, 6000} {
		m := storage.NewSerialCacheKey(e, types.NewIssuerFromString("issuer")).NewMember(ts, [32]byte{1}, types.NewSerialFromBytes([]byte{byte('a' + i)}))
		if db.Store([]storage.SetMemberWithExpiry{m}) != nil {
			panic("store")
		}
	}
	return rc
}

func vfFile() string { return vfDir + "/serials/issuer::issuer/serials::2030-01-01-05::issuer" }

func vfStored(serial string) bool {
	b, _ := os.VFRead(vfFile())
	for _, l := range strings.Split(string(b), "\n") {
		if l == hex.EncodeToString([]byte(serial)) {
			return true
		}
	}
	return false
}

func vfCached(serial string) bool {
	for _, k := range redis.VFServer.VFKeys() {
		if strings.HasPrefix(k, "serials::") {
			for _, m := range redis.VFServer.VFMembers(k) {
				if strings.HasSuffix(m, serial) {
					return true
				}
			}
		}
	}
	return false
}

func vfCheck(how string, faulted bool) {
	vf.Assert(vfStored("c"), "what was stored stays")
	vf.Assert(vfStored("a") || vfCached("a"), "no serial is lost")
	vf.Assert(vfCached("b") && !vfStored("b"), "a serial that is not covered waits")
	if how == "done" {
		vf.Assert(vfStored("a"), "a commit that succeeds has stored the covered serials")
		_, held := redis.VFServer.VFGet("lock::commit")
		vf.Assert(!held || faulted, "the commit lock is released")
	}
}

func vfAgain() {
	env.Reset()
	signal.VFReset()
	flag.VFReset()
	redis.VFServer.VFDel("lock::commit")
	how := env.Run(main)
	vf.Assert(how == "done", "a commit without faults succeeds")
	vfCheck(how, false)
}

func VF_C38_commit_fault() {
	vfWorld()
	env.FaultAt = int(vf.Below("fault", 4096))
	env.FaultForever = vf.Choose("forever", 2) == 1
	how := env.Run(main)
	faulted := env.Faulted
	vf.Observe("how", how)
	vf.Assert(how == "done" || faulted, "a commit without faults succeeds")
	env.Reset()
	vfCheck(how, faulted)
	vfAgain()
}

func VF_C38_commit_signal() {
	vfWorld()
	at, n := int(vf.Below("signal at", 4096)), 0
	again := vf.Choose("twice", 2) == 1
	sig := []os.Signal{syscall.SIGINT, syscall.SIGTERM}[vf.Choose("signal", 2)]
	env.Hook = func(op string) {
		if n == at || again && n == at+2 {
			signal.VFDeliver(sig)
			vf.SleepNs(1)
		}
		n++
	}
	how := env.Run(main)
	env.Hook = nil
	vf.Observe("how", how)
	vf.Assert(how == "done" || how == "exited" && env.ExitCode != 0, "an interrupted commit reports it")
	vfCheck(how, false)
	vfAgain()
}

// Another process holds the lock.
func VF_C38_commit_locked() {
	rc := vfWorld()
	tok, err := rc.AcquireCommitLock()
	if err != nil || tok == nil {
		panic("lock")
	}
	how := env.Run(main)
	vf.Assert(how == "exited" && env.ExitCode != 0, "a commit that cannot have the lock fails")
	vf.Assert(!vfStored("a"), "a commit that cannot have the lock does nothing")
	held, err := rc.HasCommitLock(*tok)
	vf.Assert(err == nil && held, "the lock stays with its owner")
	vfCheck(how, false)
}
