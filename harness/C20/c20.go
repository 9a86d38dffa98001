//vf:pkg cmd/aggregate-crls
//vf:use aggr.go
//vf:note downloadCRLs, both kinds of workers, DownloadAndVerifyFileSync, processCRL and StoreRevokedCertificateList, over modelled HTTP, file system and signature checks (CRLs are opaque bytes that the model parses and verifies; their revocation lists are real DER, decoded by the real code). Every pair of outcomes of an issuer's two CRLs among 11 (valid, connection error, 404, not a CRL, wrong signer, corrupted signature, malformed entry, interrupted once, expired, empty, foreign distribution point), with nothing, a valid or a damaged file on disk; serials and reasons symbolic; one failing operation or all from a symbolic point on; a cancellation at a symbolic point; two workers with one departure (2 thorough) from the default schedule; lists longer than the write buffer with a failing write. A process that gives up (glog.Fatal) may leave a partial file; a complete run may not.
package main

import (
	"context"
	"os"

	"github.com/mozilla/crlite/go/zzvf/env"
	vf "github.com/mozilla/crlite/go/zzvf/vf"
)

var _ = env.Run

func vfSym(name string, n int) vfRev {
	r := vfRev{serial: vf.Str(name, n), reason: vf.U8(name + " reason")}
	vf.Assume(r.reason < 128)
	return r
}

// Every combination of outcomes of two CRLs of an issuer, next to another issuer.
func VF_C20_outcomes() {
	a := vfNewAgg(1)
	x := a.addIssuer("x", vf.Choose("partitioned", 2) == 1)
	y := a.addIssuer("y", false)
	a.addCRL(y, "http://y.example/y.crl", []int{kOK, kEmpty}[vf.Choose("the only CRL of y", 2)], vfRev{"yy", 4})
	l1 := a.addCRL(x, "http://x.example/1.crl", int(vf.Below("kind", kKinds)), vfSym("s1", 2), vfSym("s2", 1))
	l2 := a.addCRL(x, "http://x.example/2.crl", int(vf.Below("kind", kKinds)), vfSym("s3", 2))
	_ = l1
	a.onDisk(l2, int(vf.Below("on disk", 3)), vfSym("s4", 3))
	a.ready()
	how := env.Run(func() { a.run(context.Background()) })
	vf.Assert(how == "done", "the run ends normally")
	x.checkList()
	y.checkList()
}

// File operations or requests fail, once or from some point on.
func VF_C20_fault() {
	a := vfNewAgg(1)
	x := a.addIssuer("x", false)
	n := 1 + vf.Choose("crls", vf.Bound("CRLs", 2, 3))
	for i := 0; i < n; i++ {
		a.addCRL(x, "http://x.example/"+string(rune('1'+i))+".crl", kOK, vfRev{"s" + string(rune('1'+i)), byte(i)}, vfSym("s", 2))
	}
	a.ready()
	env.FaultAt = int(vf.Below("fault", 4096))
	env.FaultForever = vf.Choose("forever", 2) == 1
	how := env.Run(func() { a.run(context.Background()) })
	if how != "done" {
		return // the process gave up, loudly
	}
	if _, there := x.list(); there {
		x.checkList()
	} else {
		vf.Assert(env.Faulted, "a list is missing only if something failed")
	}
}

// The run is cancelled at any point.
func VF_C20_cancel() {
	a := vfNewAgg(1)
	x, y := a.addIssuer("x", false), a.addIssuer("y", false)
	a.addCRL(x, "http://x.example/1.crl", kOK, vfSym("s", 2), vfRev{"s1", 1})
	a.addCRL(x, "http://x.example/2.crl", kOK, vfSym("s", 2))
	a.addCRL(y, "http://y.example/y.crl", kOK, vfRev{"yy", 4})
	a.ready()
	ctx, cancel := context.WithCancel(context.Background())
	at, k := vf.Below("cancel", 4096), uint64(0)
	env.Hook = func(op string) {
		if k == at {
			cancel()
		}
		k++
	}
	how := env.Run(func() { a.run(ctx) })
	cancel()
	if how != "done" {
		return
	}
	for _, i := range a.issuers {
		if _, there := i.list(); there {
			i.checkList()
		}
	}
}

// Several workers: what is published does not depend on the schedule.
func VF_C20_workers() {
	a := vfNewAgg(2)
	for i, n := 0, vf.Bound("issuers", 2, 3); i < n; i++ {
		c := string(rune('a' + i))
		x := a.addIssuer(c, i == 1)
		kinds := []int{kOK, kSigner, kEntry}
		a.addCRL(x, "http://"+c+".example/1.crl", kinds[vf.Choose("kind", 3)], vfSym("s", 2))
		if i == 0 {
			a.addCRL(x, "http://"+c+".example/2.crl", kOK, vfRev{c + "2", 5})
		}
	}
	a.ready()
	vf.Delays(vf.Bound("departures from the default schedule", 1, 2))
	how := env.Run(func() { a.run(context.Background()) })
	vf.Delays(-1)
	vf.Assert(how == "done", "the run ends normally")
	for _, i := range a.issuers {
		i.checkList()
	}
}

// A list longer than the write buffer.
func VF_C20_long() {
	a := vfNewAgg(1)
	x := a.addIssuer("x", false)
	revs := []vfRev{vfSym("first", 20)}
	for i := 0; i < 120; i++ {
		revs = append(revs, vfRev{"serial number " + string(rune('a'+i/26)) + string(rune('a'+i%26)) + "...", byte(i % 11)})
	}
	revs = append(revs, vfSym("last", 20))
	a.addCRL(x, "http://x.example/1.crl", kOK, revs...)
	a.ready()
	env.FaultOnly = "write"
	env.FaultAt = int(vf.Below("fault", 4096))
	how := env.Run(func() { a.run(context.Background()) })
	if how == "done" {
		got, there := x.list()
		vf.Assert(there == !env.Faulted || env.FaultName != "write "+x.issuer.ID(), "a failed write does not go unnoticed")
		if there {
			vf.Assert(len(got) == len(revs), "the list is complete")
			for i := range got {
				if i < len(revs) {
					vf.Assert(got[i] == revs[i].line(), "every line is the revocation's")
				}
			}
		}
	}
}

// A longer list of an earlier run in the same place.
func VF_C20_stale() {
	a := vfNewAgg(1)
	x := a.addIssuer("x", false)
	a.addCRL(x, "http://x.example/1.crl", kOK, vfSym("s1", 2))
	a.addCRL(x, "http://x.example/2.crl", []int{kOK, kEmpty, kFlaky}[vf.Choose("kind", 3)], vfSym("s2", 1))
	a.ready()
	os.VFWrite(vfRevoked+"/"+x.issuer.ID(), []byte("04aaaaaaaaaaaa\n04bbbbbbbbbbbbbb\n04cccccccccccc\n"))
	how := env.Run(func() { a.run(context.Background()) })
	vf.Assert(how == "done", "the run ends normally")
	x.checkList()
}
