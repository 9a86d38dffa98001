//vf:pkg cmd/aggregate-crls
//vf:use aggr.go
//vf:opt race=1
//vf:note The audit entries of whole runs of the aggregator (see C20 for what is modelled): every pair of outcomes of an issuer's CRLs, with nothing, a valid or a damaged file on disk, one or two workers; the report is written by WriteReport and read back with encoding/json (modelled by the engine's JSON encoder and decoder). Data races between workers are looked for by happens-before tracking on the explored schedules and confirmed by Go's race detector. Concurrent reports: every pair of auditor methods from two goroutines.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"net/url"
	"time"

	"github.com/mozilla/crlite/go/downloader"
	"github.com/mozilla/crlite/go/zzvf/env"
	vf "github.com/mozilla/crlite/go/zzvf/vf"
)

// vfFailures lists the audit entries a CRL's failures call for.
func (l *vfCRL) failures() []CrlAuditEntryKind {
	var r []CrlAuditEntryKind
	switch l.kind {
	case kDown, kMissing:
		r = append(r, AuditKindFailedDownload)
	case kGarbage, kSigner, kBadSig:
		r = append(r, AuditKindFailedVerify)
	case kEntry:
		r = append(r, AuditKindFailedProcessLocal)
	}
	if l.kind == kIDP && l.issuer.part {
		r = append(r, AuditKindWrongDP)
	}
	return r
}

var vfFailureKinds = []CrlAuditEntryKind{AuditKindFailedDownload, AuditKindFailedVerify, AuditKindFailedProcessLocal, AuditKindWrongDP}

type vfReport struct {
	Entries []struct {
		Url            string
		Path           string
		Issuer         string
		IssuerSubject  string
		Kind           string
		Errors         []string
		NumRevocations int
		SHA256Sum      string
	}
}

// vfAudit checks the report of a finished run.
func (a *vfAgg) checkAudit() {
	var b bytes.Buffer
	vf.Assert(a.auditor.WriteReport(&b) == nil, "the report is written")
	var rep vfReport
	vf.Assert(json.Unmarshal(b.Bytes(), &rep) == nil, "the report parses")
	vf.Assert(len(rep.Entries) == len(a.auditor.GetEntries()), "the report has every entry")
	for i, e := range a.auditor.GetEntries() {
		if i >= len(rep.Entries) {
			break
		}
		r := rep.Entries[i]
		same := r.Url == e.Url && r.Path == e.Path && r.Kind == string(e.Kind) && r.Issuer == e.Issuer.ID() && r.IssuerSubject == e.IssuerSubject && len(r.Errors) == len(e.Errors) && r.NumRevocations == e.NumRevocations && r.SHA256Sum == e.SHA256Sum
		vf.Assert(same, "the report parses back to the same entries")
	}
	for _, i := range a.issuers {
		for _, l := range i.crls {
			want := l.failures()
			for _, k := range vfFailureKinds {
				n, w := 0, 0
				for _, e := range rep.Entries {
					if e.Url == l.url && e.Kind == string(k) {
						n++
						vf.Assert(e.Issuer == i.issuer.ID(), "a failure is recorded under its issuer")
						vf.Assert(e.IssuerSubject != "", "a failure is recorded with its issuer's subject")
						vf.Assert(len(e.Errors) > 0, "a failure is recorded with its error")
					}
				}
				for _, x := range want {
					if x == k {
						w++
					}
				}
				if w > 0 {
					vf.Assert(n >= 1, "every failure is recorded")
					vf.Assert(n <= 1, "every failure is recorded once")
				} else {
					vf.Assert(n == 0, "nothing is recorded that did not fail")
				}
			}
			if revs, ok := l.used(); ok {
				n := 0
				for _, e := range rep.Entries {
					if e.Url == l.url && (e.Kind == string(AuditKindValid) || e.Kind == string(AuditKindNoRevocations)) {
						n++
						vf.Assert(e.NumRevocations == len(revs) && (e.Kind == string(AuditKindNoRevocations)) == (len(revs) == 0), "a processed CRL is recorded with its number of revocations")
					}
				}
				vf.Assert(n == 1, "a processed CRL is recorded once")
			}
		}
	}
}

func vfScenario(threads, kinds, locals int) *vfAgg {
	a := vfNewAgg(threads)
	x := a.addIssuer("x", vf.Choose("partitioned", 2) == 1)
	y := a.addIssuer("y", false)
	a.addCRL(x, "http://x.example/1.crl", int(vf.Below("kind", uint64(kinds))), vfRev{"s1", 1}, vfRev{"s2", vf.U8("reason") & 15})
	l2 := a.addCRL(x, "http://x.example/2.crl", int(vf.Below("kind", uint64(kinds))), vfRev{"s3", 1})
	a.onDisk(l2, int(vf.Below("on disk", uint64(locals))), vfRev{"s4", 4})
	a.addCRL(y, "http://y.example/y.crl", kDown)
	a.ready()
	return a
}

func VF_C33_outcomes() {
	a := vfScenario(1, kKinds, 3)
	how := env.Run(func() { a.run(context.Background()) })
	vf.Assert(how == "done", "the run ends normally")
	a.checkAudit()
}

func VF_C33_workers() {
	a := vfScenario(2, 3, 1)
	vf.Delays(vf.Bound("departures from the default schedule", 1, 2))
	how := env.Run(func() { a.run(context.Background()) })
	vf.Delays(-1)
	vf.Assert(how == "done", "the run ends normally")
	a.checkAudit()
}

// A failing operation: an issuer left without a list has its reason in the report.
func VF_C33_fault() {
	a := vfNewAgg(1)
	x := a.addIssuer("x", false)
	a.addCRL(x, "http://x.example/1.crl", kOK, vfRev{"s1", 1})
	a.addCRL(x, "http://x.example/2.crl", kOK, vfRev{"s2", 1})
	a.ready()
	env.FaultAt = int(vf.Below("fault", 4096))
	env.FaultForever = vf.Choose("forever", 2) == 1
	how := env.Run(func() { a.run(context.Background()) })
	if how != "done" {
		return
	}
	if _, there := x.list(); there {
		return
	}
	n := 0
	for _, e := range a.auditor.GetEntries() {
		for _, k := range vfFailureKinds {
			if e.Kind == k {
				n++
			}
		}
	}
	vf.Note(env.FaultName)
	vf.Assert(n > 0, "an issuer left out has a failure recorded")
}

// Two goroutines report at once: nothing is lost and no access is unsynchronised.
func VF_C33_pairs() {
	a := vfNewAgg(1)
	x := a.addIssuer("x", false)
	a.addCRL(x, "http://x.example/1.crl", kOK)
	a.ready()
	u, _ := url.Parse("http://x.example/1.crl")
	n := vf.U32("revocations")
	report := func(k int) {
		var id downloader.DownloadIdentifier = &x.issuer
		tr := downloader.NewDownloadTracer()
		err := errors.New("failed")
		switch k {
		case 0:
			a.auditor.FailedDownload(id, u, tr, err)
		case 1:
			a.auditor.FailedVerifyUrl(id, u, tr, err)
		case 2:
			a.auditor.FailedOlderThanPrevious(id, u, tr, time.Unix(5, 0), time.Unix(4, 0))
		case 3:
			a.auditor.Old(id, u, time.Hour)
		case 4:
			a.auditor.Expired(id, u, time.Unix(5, 0))
		case 5:
			a.auditor.FailedVerifyPath(id, u, "/p", err)
		case 6:
			a.auditor.WrongIssuingDistributionPoint(id, u, "/p", err)
		case 7:
			a.auditor.FailedProcessLocal(id, u, "/p", err)
		case 8:
			a.auditor.NoRevocations(id, u, "/p")
		case 9:
			a.auditor.ValidAndProcessed(id, u, "/p", int(n), time.Hour, []byte{1, 2})
		}
	}
	kinds := []CrlAuditEntryKind{AuditKindFailedDownload, AuditKindFailedVerify, AuditKindOlderThanLast, AuditKindOld, AuditKindExpired,
		AuditKindFailedVerify, AuditKindWrongDP, AuditKindFailedProcessLocal, AuditKindNoRevocations, AuditKindValid}
	k, l := vf.Choose("report", len(kinds)), vf.Choose("other report", len(kinds)+1)
	vf.Sched(vf.Bound("preemptions", 1, 3))
	done := make(chan bool, 2)
	var out bytes.Buffer
	go func() { report(k); done <- true }()
	go func() {
		if l == len(kinds) {
			a.auditor.WriteReport(&out)
		} else {
			report(l)
		}
		done <- true
	}()
	<-done
	<-done
	if l == len(kinds) {
		report(k)
		l = k
	}
	es := a.auditor.GetEntries()
	vf.Assert(len(es) == 2, "both reports are recorded")
	for _, e := range es {
		ours := e.Kind == kinds[k] || e.Kind == kinds[l]
		vf.Assert(ours, "a report is recorded under its kind")
		vf.Assert(e.Kind != AuditKindValid || e.NumRevocations == int(n), "a processed CRL is recorded with its number of revocations")
		vf.Assert(e.Issuer.ID() == x.issuer.ID(), "a report is recorded under its issuer")
		vf.Assert(e.Url == u.String(), "a report is recorded under its URL")
		vf.Assert(!e.Timestamp.IsZero(), "a report is recorded with its time")
	}
	if len(es) == 2 {
		both := es[0].Kind == kinds[k] && es[1].Kind == kinds[l] || es[0].Kind == kinds[l] && es[1].Kind == kinds[k]
		vf.Assert(both, "each report is recorded once")
	}
}
