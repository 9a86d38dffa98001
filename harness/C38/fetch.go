//vf:pkg cmd/ct-fetch
//vf:use merkle.go
//vf:use rfclog.go
//vf:use tiledlog.go
//vf:use ../C08/c08.go
package main

import (
	"flag"
	"net/http"
	"os"
	"os/signal"
	"strings"
	"syscall"

	"github.com/go-redis/redis"

	"github.com/mozilla/crlite/go/zzvf/env"
	vf "github.com/mozilla/crlite/go/zzvf/vf"
)

// vfLeafStored says whether the certificate of an entry of log a is in the cache.
func vfLeafStored(i int) bool {
	for _, k := range redis.VFServer.VFKeys() {
		if strings.HasPrefix(k, "serials::") {
			for _, m := range redis.VFServer.VFMembers(k) {
				if strings.HasSuffix(m, string([]byte{1, byte(i)})) {
					return true
				}
			}
		}
	}
	return false
}

func vfReached() int {
	s := vfState("a.example")
	if s == nil {
		return -1
	}
	vf.Assert(s.MinEntry == 0, "the saved range starts at the first entry")
	for i := 0; i <= int(s.MaxEntry); i++ {
		vf.Assert(vfLeafStored(i), "every entry up to the saved position is stored")
	}
	return int(s.MaxEntry)
}

func VF_C38_fetch_signal() {
	vfLogs()
	signal.VFReset()
	os.Setenv("batchSize", []string{"8", "2"}[vf.Choose("batch size", 2)])
	src := vf.Choose("list", 3)
	if src == 0 {
		os.Setenv("ctLogMetadata", vfJSON(vfMetas("a")))
	} else {
		vfServe(func() (*http.Response, error) { return vfAnswer(200, vfRemote("a")), nil })
	}
	forever := src == 2
	if forever {
		os.Setenv("runForever", "true")
		os.Setenv("remoteSettingsUpdateInterval", "2")
	}
	limit := vf.Bound("operations before the signal when running for ever", 60, 200)
	at, n, sent := int(vf.Below("signal at", 4096)), 0, false
	sig := []os.Signal{syscall.SIGINT, syscall.SIGTERM}[vf.Choose("signal", 2)]
	after := 0
	env.Hook = func(op string) {
		if sent {
			after++
			vf.Assert(after < 200, "the program ends soon after a signal")
		}
		if !sent && (n == at || forever && n == limit) {
			sent = true
			signal.VFDeliver(sig)
			vf.SleepNs(1)
		}
		n++
	}
	how := env.Run(main)
	env.Hook = nil
	vf.Observe("how", how)
	vf.Assert(how == "exited" && env.ExitCode == 0, "the program ends normally")
	p := vfReached()
	vf.Assert(sent || p == vfSize-1, "a run that ends by itself has fetched the log")
	// Further runs, a while later, finish the job: each fetches a batch.
	os.Setenv("runForever", "false")
	q := p
	for i := 0; i < 5 && q < vfSize-1; i++ {
		vf.AdvanceNs(11 * 60 * 1e9)
		env.Reset()
		signal.VFReset()
		flag.VFReset()
		how = env.Run(main)
		vf.Assert(how == "exited" && env.ExitCode == 0, "a run without faults succeeds")
		r := vfReached()
		vf.Assert(r >= q, "the next run does not step back")
		q = r
	}
	vf.Assert(q == vfSize-1, "further runs finish the job")
}
