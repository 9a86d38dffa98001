//vf:pkg cmd/ct-fetch
//vf:note The writer (insertCTWorker, tryUpdate, Store, SaveLogState) on every sequence of 3 queued messages (4 thorough) of two logs, certificate, state or both, and every batch size up to that, and on queues of 8 (20) with a state in the middle and at the end; the first failing Redis command, the length of the outage, the command at which memory runs out and the point of cancellation are symbolic. What is saved is checked before every Redis command, so a crash at any point is covered. The ticker that paces retries fires a bounded number of times.
package main

import (
	"context"
	"encoding/json"
	"strings"
	"time"

	"github.com/go-redis/redis"

	"github.com/mozilla/crlite/go"
	"github.com/mozilla/crlite/go/storage"
	"github.com/mozilla/crlite/go/zzvf/env"
	"github.com/mozilla/crlite/go/zzvf/pki"
	vf "github.com/mozilla/crlite/go/zzvf/vf"
)

const vfIss = "CERT:issuer"

// vfQueue is a queue of messages; certs[i] is the serial of message i or empty.
type vfQueue struct {
	ms    []LogSyncMessage
	certs []string
	seen  map[string]uint64
	last  map[string]uint64
}

var vfNames = []string{"log.a", "log.b"}

func vfParse(der string) *types.Certificate {
	c, err := types.ParseCertificate([]byte(der))
	if err != nil {
		panic(err)
	}
	return c
}

func vfQ(n int, pick func(i int) int) *vfQueue {
	q := &vfQueue{seen: map[string]uint64{}, last: map[string]uint64{}}
	pki.New("issuer", []byte{1}, "issuer key", time.Unix(2000000000, 0))
	iss := vfParse(vfIss)
	for i := 0; i < n; i++ {
		m := LogSyncMessage{Timestamp: 1690000000000 + uint64(i)}
		name := "c" + string(rune('0'+i))
		sn := ""
		kind := pick(i) // certificate, state, or both; the state of one log or the other
		log := kind / 3
		m.LogId[0] = byte(log)
		if kind != 1 {
			sn = "serial" + string(rune('0'+i))
			exp := time.Unix(1900000000, 0)
			if i%2 == 1 {
				exp = time.Unix(1950000000, 0)
			}
			pki.New(name, []byte(sn), "key", exp)
			m.Certificate, m.Issuer = vfParse("CERT:"+name), iss
		}
		if kind%3 != 0 {
			m.LogState = &types.CTLogState{ShortURL: vfNames[log], MaxEntry: uint64(i) + 1, MaxTimestamp: m.Timestamp, LastUpdateTime: env.Base}
			q.last[vfNames[log]] = uint64(i) + 1
		}
		q.ms = append(q.ms, m)
		q.certs = append(q.certs, sn)
	}
	return q
}

// vfHas says whether a certificate with the serial is in the cache.
func vfHas(sn string) bool {
	for _, k := range redis.VFServer.VFKeys() {
		if strings.HasPrefix(k, "serials::") {
			for _, m := range redis.VFServer.VFMembers(k) {
				if strings.HasSuffix(m, sn) {
					return true
				}
			}
		}
	}
	return false
}

func vfPos(log string) uint64 {
	v, ok := redis.VFServer.VFGet("log::" + log)
	if !ok {
		return 0
	}
	var s types.CTLogState
	err := json.Unmarshal([]byte(v), &s)
	vf.Assert(err == nil, "the saved log state is readable")
	return s.MaxEntry
}

// vfCheck compares what is saved with what is stored.
func (q *vfQueue) vfCheck() {
	for _, log := range vfNames {
		p := vfPos(log)
		vf.Assert(p >= q.seen[log], "a saved position never moves back")
		q.seen[log] = p
		for i := 0; i < int(p); i++ {
			if q.certs[i] != "" {
				vf.Assert(vfHas(q.certs[i]), "every certificate queued before a saved position is stored")
			}
		}
	}
}

func (q *vfQueue) vfAll() {
	for _, log := range vfNames {
		vf.Assert(vfPos(log) == q.last[log], "the last position is saved")
	}
}

func vfEngine() *LogSyncEngine {
	redis.VFServer = redis.NewServer()
	rc, err := storage.NewRedisCache("x", time.Second)
	if err != nil {
		panic(err)
	}
	db, err := storage.NewCertDatabase(rc, "", false)
	if err != nil {
		panic(err)
	}
	return NewLogSyncEngine(db)
}

// vfWrite runs the writer on a queue, with an outage of the cache and a cancellation.
func vfWrite(ld *LogSyncEngine, q *vfQueue, forever int) {
	for _, m := range q.ms {
		ld.entryChan <- m
	}
	close(ld.entryChan)
	ctx, cancel := context.WithCancel(context.Background())
	outage, cancelAt, n := 0, -1, 0
	switch vf.Choose("disturbance", 3) {
	case 0:
		env.FaultAt = int(vf.Below("fails from", 64))
		outage = 1 + vf.Choose("failures", 2)
	case 1:
		env.FaultAt = int(vf.Below("fails from", 64))
		outage = []int{1000, 1}[vf.Choose("outage ends", 2)]
		cancelAt = int(vf.Below("cancelled at", 64))
	case 2:
		redis.VFServer.OOMAt = int(vf.Below("memory full at", 64))
	}
	env.FaultForever = true
	faults := 0
	env.Hook = func(op string) {
		if env.Faulted {
			env.Faulted = false
			faults++
			if faults >= outage {
				env.FaultAt = -1
			}
			if outage == 1000 && faults == forever {
				cancel()
			}
		}
		if n == cancelAt {
			cancel()
		}
		n++
		q.vfCheck()
	}
	how := env.Run(func() {
		ld.StartDatabaseThread(ctx)
		ld.ThreadWaitGroup.Wait()
	})
	vf.Assert(how == "done", "the writer ends")
	q.vfCheck()
	if outage < 1000 && cancelAt < 0 {
		q.vfAll()
	}
	cancel()
}

// Every short queue.
func VF_C07_writer() {
	env.Reset()
	ld := vfEngine()
	n := vf.Bound("messages", 3, 4)
	*ctconfig.BatchSize = uint64(1 + vf.Choose("batch size", n))
	vfWrite(ld, vfQ(n, func(int) int { return []int{0, 2, 1, 5}[vf.Choose("message", 4)] }), 2)
}

// A long queue with a state in the middle and one at the end.
func VF_C07_long() {
	env.Reset()
	ld := vfEngine()
	n := vf.Bound("messages", 8, 20)
	*ctconfig.BatchSize = uint64(1 + vf.Choose("batch size", n+2))
	mid := []int{2, 5, 0, 6}[vf.Choose("first state", vf.Bound("first states", 2, 4))]
	vfWrite(ld, vfQ(n, func(i int) int {
		switch i {
		case mid:
			return 1
		case n - 1:
			return 2
		}
		return 0
	}), 2)
}
