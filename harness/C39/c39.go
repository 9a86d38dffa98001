//vf:pkg cmd/ct-fetch
//vf:use merkle.go
//vf:use rfclog.go
//vf:use tiledlog.go
//vf:use ../C08/c08.go
//vf:opt solver_ms=3000
//vf:note Whole runs of ct-fetch with a log that answers for some rounds and then stops, asked for its health at every time after the last round and with every polling delay (symbolic), also by a client that is gone; a log that never answers or whose answers are refused; and the writer by itself with entries at several rates and a storage that fails from and until symbolic points. The HTTP library's server is a model: exact and subtree patterns, one request at a time. The sleep of a polling delay is taken without its random part.
package main

import (
	"context"
	"errors"
	"net/http"
	"os"
	"os/signal"
	"time"

	"github.com/google/certificate-transparency-go"
	"github.com/google/certificate-transparency-go/client"

	"github.com/mozilla/crlite/go"
	"github.com/mozilla/crlite/go/storage"
	"github.com/mozilla/crlite/go/zzvf/env"
	vf "github.com/mozilla/crlite/go/zzvf/vf"
)

// vfAsked is a log that calls back before it answers.
type vfAsked struct {
	*vfRfc
	before func(round int) error
	round  int
}

func (l *vfAsked) GetSTH() (*ct.SignedTreeHead, error) {
	l.round++
	if err := l.before(l.round - 1); err != nil {
		return nil, err
	}
	return l.vfRfc.GetSTH()
}

func vfHealth(broken bool) int {
	s, h := http.VFAsk(":8080", "GET", "/health", broken)
	vf.Assert((s == 503) == (h.Get("Retry-After") != "") || s == -1, "a client is asked to come back exactly if it is too early to tell")
	return s
}

// The answer at every time after a round, for every polling delay.
func VF_C39_time() {
	a, _, _ := vfLogs()
	signal.VFReset()
	os.Setenv("runForever", "true")
	os.Setenv("ctLogMetadata", vfJSON(vfMetas("a")))
	rounds := vf.Choose("rounds", 3)
	l := &vfAsked{vfRfc: a.vfRfc}
	l.before = func(round int) error {
		vf.SleepNs(1) // the service comes up
		if round < rounds {
			return nil
		}
		wait := vf.U64("time since the last round, s")
		vf.Assume(wait < 1<<32)
		delay := vf.U64("polling delay")
		vf.Assume(delay < 1<<32)
		env.SkewSec = int64(wait)
		*ctconfig.PollingDelay = delay
		http.VFOnStatus = func(s int) { // the text of the answer is left out
			vf.Observe("status", s)
			if round == 0 {
				vf.Assert(s == 503, "before any progress it is too early to tell")
			} else {
				// The round ended a nanosecond ago.
				vf.Assert(vf.Implies(wait < 2*delay, s == 200), "an ingester that made progress lately is healthy")
				vf.Assert(vf.Implies(wait >= 2*delay, s == 500), "an ingester that made no progress for two polling delays is not healthy")
			}
			env.Exit()
		}
		vfHealth(false)
		return nil
	}
	client.VFLogs["https://a.example/"] = l
	how := env.Run(main)
	vf.Assert(how == "exited", "the run was asked")
}

// A log that stops answering, whose answers are refused, or which goes on.
func VF_C39_course() {
	a, _, _ := vfLogs()
	signal.VFReset()
	const delay = 20
	os.Setenv("runForever", "true")
	os.Setenv("pollingDelay", "20")
	os.Setenv("remoteSettingsUpdateInterval", "10000")
	vfServe(func() (*http.Response, error) { return vfAnswer(200, vfRemote("a")), nil })
	stop := vf.Choose("stops after", 4)
	broken := vf.Choose("client", 2) == 1
	how := vf.Choose("how", 4)
	var last int64 = -1
	watch := func() {
		for i := 0; i < 12; i++ {
			vf.SleepNs(7e9)
			s := vfHealth(broken)
			if last < 0 {
				vf.Assert(s == 503, "a log that was never fetched is no progress")
			} else if env.NowNs()-last <= 2*delay*1e9 {
				vf.Assert(s == 200, "an ingester that made progress lately is healthy")
			} else {
				vf.Assert(s == 500, "an ingester whose log hangs is not healthy")
			}
		}
		env.Exit()
	}
	l := &vfAsked{vfRfc: a.vfRfc}
	l.before = func(round int) error {
		vf.SleepNs(1)
		if round > 0 {
			last = env.NowNs() - 1
			vf.Assert(vfHealth(broken) == 200, "an ingester that goes on is healthy")
		} else {
			vf.Assert(vfHealth(broken) == 503, "before any progress it is too early to tell")
		}
		if round == stop {
			switch how {
			case 0: // hangs
				watch()
			case 1: // refused: the new entries are not what was signed
				l.n = 9
				l.serve = func(i int) []ct.LeafEntry { return []ct.LeafEntry{l.leaves[(i+1)%9]} }
				go watch()
			case 2: // errors: the downloader keeps trying
				return errors.New("503 Service Unavailable")
			}
		}
		if round == 6 {
			env.Exit()
		}
		return nil
	}
	client.VFLogs["https://a.example/"] = l
	r := env.Run(main)
	vf.Assert(r == "exited", "the run was watched")
	if how >= 2 {
		vf.Assert(l.round > 4, "the log is polled")
	}
}

// vfCache is a cache that fails for a while.
type vfCache struct {
	storage.RemoteCache
	from, to int // attempts to store that fail
	n        int
	block    bool
	saved    int
	failed   int64 // time of the last failure
}

func (d *vfCache) SetInsertMany(q []storage.SetMemberWithExpiry) error {
	k := d.n
	d.n++
	if d.from <= k && k < d.to {
		if d.block {
			vf.SleepNs(1e15)
		}
		d.failed = env.NowNs()
		return errors.New("OOM")
	}
	return nil
}

func (d *vfCache) StoreLogState(*types.CTLogState) error { d.saved++; return nil }

// The writer: taking entries is progress, failing to store them is not.
func VF_C39_writer() {
	env.Reset()
	time.VFMaxTicks = 40
	*ctconfig.BatchSize = 2
	d := &vfCache{from: int(vf.Below("storage fails from", 6))}
	d.block = vf.Choose("blocks", 2) == 1
	fails := vf.Choose("for", 3)
	d.to = d.from + []int{0, 2, 1 << 20}[fails]
	db, err := storage.NewCertDatabase(d, "", false)
	if err != nil {
		panic(err)
	}
	ld := NewLogSyncEngine(db)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	gap := []int64{1, 7, 40}[vf.Choose("seconds between entries", 3)] * 1e9
	ld.StartDatabaseThread(ctx)
	vf.SleepNs(1)
	vf.Assert(ld.ApproximateMostRecentUpdateTimestamp().IsZero(), "starting is no progress")
	start := env.NowNs()
	ep := LogSyncMessage{LogState: &types.CTLogState{}}
	var failing int64 // since when
	d.failed = start
	n := 0
	for i := 0; env.NowNs()-start < 200e9; i++ {
		ld.entryChan <- ep
		vf.SleepNs(gap)
		n++
		at := ld.ApproximateMostRecentUpdateTimestamp()
		stuck := len(ld.entryChan) > 0
		if !stuck {
			failing = 0
			if env.NowNs()-d.failed > 31e9+gap {
				vf.Assert(!at.IsZero() && env.NowNs()-at.UnixNano() <= 31e9+2*gap, "entries that are taken show as progress")
			}
		} else {
			if failing == 0 {
				failing = env.NowNs()
			}
			vf.Assert(at.IsZero() || at.UnixNano() <= failing, "entries that cannot be stored are no progress")
		}
	}
	if fails == 0 || fails == 1 && !d.block {
		vf.SleepNs(100e9)
		vf.Assert(d.saved == n, "what was taken is stored")
	}
}
