//vf:pkg storage
package storage

import (
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"strings"
	"time"

	"github.com/go-redis/redis"
	"os"

	"github.com/mozilla/crlite/go"
	"github.com/mozilla/crlite/go/zzvf/env"
	vf "github.com/mozilla/crlite/go/zzvf/vf"
)

const vfDir = "/work/db"

var vfLogID = [32]byte{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32}
var vfOtherLog = [32]byte{0xff, 9}

// vfDB is a fresh cache with an empty database.
func vfDB() (*CertDatabase, *RedisCache, *redis.Server) {
	redis.VFServer = redis.NewServer()
	env.Reset()
	os.RemoveAll(vfDir)
	os.VFMkdir(vfDir)
	rc, err := NewRedisCache("x", time.Second)
	if err != nil {
		panic(err)
	}
	db, err := NewCertDatabase(rc, vfDir, false)
	if err != nil {
		panic(err)
	}
	return &db, rc, redis.VFServer
}

// vfOpen opens the database anew, as another process would.
func vfOpen() (*CertDatabase, *RedisCache) {
	rc, err := NewRedisCache("x", time.Second)
	if err != nil {
		panic(err)
	}
	db, err := NewCertDatabase(rc, vfDir, false)
	if err != nil {
		panic(err)
	}
	return &db, rc
}

func vfLog(name string, id [32]byte, max uint64) types.CTLogState {
	return types.CTLogState{LogID: base64.StdEncoding.EncodeToString(id[:]), MMD: 1, ShortURL: name,
		MinEntry: 0, MaxEntry: 7, MinTimestamp: 1, MaxTimestamp: max, LastUpdateTime: time.Unix(1699999999, 0).UTC()}
}

// vfEntry is a cache entry as recorded from a log.
func vfEntry(ts uint64, id [32]byte, serial string) string {
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], ts)
	return string(b[:]) + string(id[:]) + serial
}

func vfExp(s string) types.ExpDate {
	e, err := types.NewExpDate(s)
	if err != nil {
		panic(err)
	}
	return e
}

func vfKey(date, issuer string) string { return "serials::" + date + "::" + issuer }

func vfPath(date, issuer string) string {
	return vfDir + "/serials/issuer::" + issuer + "/serials::" + date + "::" + issuer
}

// vfStored writes a serial list the way the format is documented.
func vfStored(date, issuer string, serials ...string) {
	s := fmt.Sprintf("@%016x\n", vfExp(date).Unix())
	for _, x := range serials {
		s += hex.EncodeToString([]byte(x)) + "\n"
	}
	os.VFWrite(vfPath(date, issuer), []byte(s))
}

// vfList reads a stored serial list by itself; ok is false if there is none or it is malformed.
func vfList(date, issuer string) (serials []string, ok bool) {
	b, ex := os.VFRead(vfPath(date, issuer))
	if !ex {
		return nil, false
	}
	lines := strings.Split(string(b), "\n")
	if lines[0] != fmt.Sprintf("@%016x", vfExp(date).Unix()) || lines[len(lines)-1] != "" {
		return nil, false
	}
	for _, l := range lines[1 : len(lines)-1] {
		x, err := hex.DecodeString(l)
		if err != nil {
			return nil, false
		}
		serials = append(serials, string(x))
	}
	return serials, true
}

func vfEpochs(storage, cache string) {
	if storage != "" {
		os.VFWrite(vfDir+"/epoch", []byte(storage+"\n"))
	}
	if cache != "" {
		redis.VFServer.VFSet("epoch", cache)
	}
}

func vfEpochFile() string {
	b, ok := os.VFRead(vfDir + "/epoch")
	if !ok {
		return "none"
	}
	return string(b)
}

func vfCacheEpoch() string {
	s, ok := redis.VFServer.VFGet("epoch")
	if !ok {
		return "none"
	}
	return s
}

// vfSnap is everything in the cache (but expiry times) and in the storage directory.
func vfSnap() (keys []string, vals []string) {
	s := redis.VFServer
	for _, k := range s.VFKeys() {
		keys = append(keys, "cache "+k)
		if v, ok := s.VFGet(k); ok {
			vals = append(vals, v)
			continue
		}
		m := s.VFMembers(k)
		v := ""
		for _, x := range m {
			v += x + "\x00"
		}
		vals = append(vals, v)
	}
	for _, f := range os.VFFiles(vfDir) {
		b, _ := os.VFRead(f)
		keys = append(keys, f)
		vals = append(vals, string(b))
	}
	return
}

func vfSameSnap(k1, v1, k2, v2 []string) bool {
	if len(k1) != len(k2) {
		return false
	}
	r := true
	for i := range k1 {
		r = vf.And(r, k1[i] == k2[i], v1[i] == v2[i])
	}
	return r
}

func vfSrv() *redis.Server { return redis.VFServer }
