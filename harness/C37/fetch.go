//vf:pkg cmd/ct-fetch
//vf:use ../C08/c08.go
//vf:opt race=1
//vf:note Happens-before tracking of every memory access of the repository's own functions, on the explored schedules: whole runs of ct-fetch (once, and with refreshed lists and several downloaders), aggregate-crls with two workers, aggregate-known with two or three workers, and a commit that moves several bins; and every pair of methods of the enrolled logs, the download engine, the audit report and the issuers from two goroutines. Locks, channels, wait groups, atomics and go statements order accesses; nothing in the environment models does. A race is reported only when Go's race detector reports the same two functions on a native run of the counterexample. Outside: accesses made by libraries on the repository's behalf other than JSON encoding, and schedules beyond the stated departures.
package main

import (
	"net/http"
	"os"

	"github.com/mozilla/crlite/go"
	"github.com/mozilla/crlite/go/storage"
	"github.com/mozilla/crlite/go/zzvf/env"
	vf "github.com/mozilla/crlite/go/zzvf/vf"
)

// The whole downloader, once.
func VF_C37_fetch() {
	vfLogs()
	list := []string{"ab", "abt", "at"}[vf.Choose("list", 3)]
	os.Setenv("ctLogMetadata", vfJSON(vfMetas(list)))
	vf.Delays(vf.Bound("departures from the default schedule", 1, 2))
	how := env.Run(main)
	vf.Delays(-1)
	vf.Assert(how == "exited", "the program ends")
}

// For ever: the list is refreshed while the downloaders run.
func VF_C37_forever() {
	a, _, _ := vfLogs()
	os.Setenv("runForever", "true")
	os.Setenv("pollingDelay", "25")
	os.Setenv("remoteSettingsUpdateInterval", "20")
	os.Setenv("batchSize", "4")
	lists := []string{}
	for i := 0; i < 3; i++ {
		lists = append(lists, []string{"a", "ab", "At"}[vf.Choose("list", 3)])
	}
	n := -1
	vfServe(func() (*http.Response, error) {
		if n < len(lists)-1 {
			n++
		}
		return vfAnswer(200, vfRemote(lists[n])), nil
	})
	a.size = func() int { return 5 }
	sec := func() int { return int((env.NowNs() - env.Base.UnixNano()) / 1e9) }
	env.Hook = func(op string) {
		if op == "redis.get" {
			vf.SleepNs(1e8)
		}
		if sec() > 20*len(lists)+100 {
			env.Exit()
		}
	}
	how := env.Run(main)
	env.Hook = nil
	vf.Assert(how == "exited", "the program goes on")
}

// Two methods of the enrolled logs at once.
func VF_C37_enrolled() {
	env.Reset()
	*ctconfig.RemoteSettingsURL = "https://settings.example/v1/"
	vfServe(func() (*http.Response, error) { return vfAnswer(200, vfRemote("aB")), nil })
	el := NewEnrolledLogs()
	el.NewChan = make(chan types.CTLogMetadata, 8)
	el.Enroll(vfMetaOf('b', true))
	do := func(k int) {
		switch k {
		case 0:
			el.Enroll(vfMetaOf('a', true))
		case 1:
			el.Unenroll(vfMetaOf('b', true))
		case 2:
			el.IsEnrolled(vfMetaOf('b', true).LogID)
		case 3:
			el.IsEnrolledAs(vfMetaOf('b', true))
		case 4:
			el.Count()
		case 5:
			el.updateFromRemoteSettingsOnce()
		}
	}
	k, l := vf.Choose("method", 6), vf.Choose("other method", 6)
	vf.Sched(vf.Bound("preemptions", 1, 2))
	done := make(chan bool, 2)
	go func() { do(k); done <- true }()
	go func() { do(l); done <- true }()
	<-done
	<-done
	vf.Sched(-1)
	want := 1
	if k == 0 || l == 0 || k == 5 || l == 5 {
		want++
	}
	if k == 1 || l == 1 || k == 5 || l == 5 {
		want--
	}
	vf.Assert(el.Count() == want, "the operations of two goroutines all take effect")
}

// The state that the health service and the downloaders share.
func VF_C37_engine() {
	env.Reset()
	e := NewLogSyncEngine(storage.CertDatabase{})
	do := func(k int) {
		switch k {
		case 0:
			e.RegisterUpdate()
		case 1:
			e.ApproximateMostRecentUpdateTimestamp()
		case 2:
			e.downloaderMutex("x")
		}
	}
	k, l := vf.Choose("method", 3), vf.Choose("other method", 3)
	vf.Sched(vf.Bound("preemptions", 1, 2))
	done := make(chan bool, 2)
	go func() { do(k); done <- true }()
	go func() { do(l); done <- true }()
	<-done
	<-done
	vf.Sched(-1)
	vf.Assert(k > 0 && l > 0 || !e.ApproximateMostRecentUpdateTimestamp().IsZero(), "an update is registered")
}
