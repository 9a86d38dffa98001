//vf:pkg cmd/aggregate-crls
//vf:use aggr.go
//vf:note Whole program runs (main, from flags and configuration to exit) of aggregate-crls, aggregate-known, commit, get-mozilla-issuers and ct-fetch on modelled files, servers and Redis. Every single failing operation (once or from then on), and every operation at which a SIGINT or SIGTERM arrives is a symbolic choice. Outside: signals between two operations of the environment, and what the shell scripts around the programs do.
package main

import (
	"encoding/base64"
	"encoding/json"
	"flag"
	"os"
	"os/signal"
	"syscall"
	"time"

	"github.com/mozilla/crlite/go/rootprogram"
	"github.com/mozilla/crlite/go/zzvf/env"
	"github.com/mozilla/crlite/go/zzvf/pki"
	vf "github.com/mozilla/crlite/go/zzvf/vf"
)

func vfPEM(der string) string {
	return "-----BEGIN CERTIFICATE-----\n" + base64.StdEncoding.EncodeToString([]byte(der)) + "\n-----END CERTIFICATE-----"
}

// vfProgram sets the program up: two enrolled issuers, one of them with two CRLs, and one without any.
func vfProgram(threads string) *vfAgg {
	env.Reset()
	pki.Reset()
	signal.VFReset()
	a := vfNewAgg(1)
	os.Setenv("numThreads", threads)
	x := a.addIssuer("A", false)
	y := a.addIssuer("B", true)
	pki.New("root", []byte{1}, "root key", time.Unix(2000000000, 0)).IssuedBy = []string{"root key"}
	for _, i := range a.issuers {
		pki.New(i.name, []byte{1}, "key of "+i.name, time.Unix(2000000000, 0)).IssuedBy = []string{"root key"}
	}
	a.addCRL(x, "http://a.example/1.crl", kOK, vfRev{"\x01\x02", 1}, vfRev{"\x03", 0})
	a.addCRL(y, "http://b.example/1.crl", []int{kOK, kMissing}[vf.Choose("first CRL of B", 2)], vfRev{"\x04", 4})
	a.addCRL(y, "http://b.example/2.crl", kOK, vfRev{"\x05", 5})
	csv := "FP,X.509_Certificate_PEM,RecordType.Name,Revocation_Status__c,Full_CRL_Issued_By_This_CA,JSON_Array_of_Partitioned_CRLs\n"
	csv += "1,\"" + vfPEM("CERT:root") + "\",Root Certificate,Not Revoked,,\n"
	csv += "2,\"" + vfPEM("CERT:A") + "\",Intermediate Certificate,Not Revoked,http://a.example/1.crl,\n"
	csv += "3,\"" + vfPEM("CERT:B") + "\",Intermediate Certificate,Not Revoked,,\"[\"\"http://b.example/1.crl\"\",\"\"http://b.example/2.crl\"\"]\"\n"
	os.VFWrite("/work/ccadb.csv", []byte(csv))
	flag.VFArgs = []string{"-crlpath", vfCrls, "-revokedpath", vfRevoked, "-enrolledpath", "/work/enrolled.json", "-auditpath", "/work/audit.json", "-ccadb", "/work/ccadb.csv"}
	return a
}

// vfSignal has a signal arrive and be noticed at an operation.
func vfSignal() *bool {
	at, n := int(vf.Below("signal at", 4096)), 0
	sig := []os.Signal{syscall.SIGINT, syscall.SIGTERM}[vf.Choose("signal", 2)]
	sent := false
	env.Hook = func(op string) {
		if n == at {
			sent = true
			signal.VFDeliver(sig)
			vf.SleepNs(1)
		}
		n++
	}
	return &sent
}

// vfDone checks what a run that reports success leaves.
func (a *vfAgg) vfDone() {
	for _, i := range a.issuers {
		i.checkList()
	}
	a.vfSaved()
}

func (a *vfAgg) vfSaved() {
	b, ok := os.VFRead("/work/enrolled.json")
	vf.Assert(ok, "the enrolled issuers are saved")
	var list []rootprogram.EnrolledIssuer
	vf.Assert(json.Unmarshal(b, &list) == nil && len(list) == len(a.issuers), "each enrolled issuer is saved")
	for _, i := range a.issuers {
		n := 0
		for _, e := range list {
			if e.PubKeyHash == i.issuer.ID() {
				n++
			}
		}
		vf.Assert(n == 1, "each enrolled issuer is saved once")
	}
}

// vfPartial checks that each list there is is a whole one.
func (a *vfAgg) vfPartial() {
	for _, i := range a.issuers {
		if _, there := i.list(); there {
			i.checkList()
		}
	}
}

func VF_C38_aggregate() {
	a := vfProgram([]string{"1", "2"}[vf.Choose("threads", 2)])
	how := env.Run(main)
	vf.Assert(how == "done", "a run without faults succeeds")
	a.vfDone()
	b, ok := os.VFRead("/work/audit.json")
	var rep struct{ Entries []map[string]any }
	vf.Assert(ok && json.Unmarshal(b, &rep) == nil && len(rep.Entries) > 0, "the audit report is written")
}

func VF_C38_aggregate_signal() {
	a := vfProgram([]string{"1", "2"}[vf.Choose("threads", 2)])
	sent := vfSignal()
	how := env.Run(main)
	env.Hook = nil
	vf.Observe("how", how)
	if how == "done" || env.ExitCode == 0 {
		a.vfDone()
	} else {
		vf.Assert(*sent, "a run without a signal succeeds")
	}
}

func VF_C38_aggregate_fault() {
	a := vfProgram("1")
	env.FaultAt = int(vf.Below("fault", 4096))
	env.FaultForever = vf.Choose("forever", 2) == 1
	how := env.Run(main)
	faulted, name, code := env.Faulted, env.FaultName, env.ExitCode
	env.Reset()
	vf.Observe("how", how)
	vf.Observe("fault", name)
	if how == "done" || code == 0 {
		a.vfSaved()
		a.vfPartial()
	} else {
		vf.Assert(faulted, "a run without faults succeeds")
	}
}
