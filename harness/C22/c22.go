//vf:pkg downloader
//vf:use httpfile.go
//vf:note DownloadAndVerifyFileSync (with DownloadFileSync below it) against modelled HTTP server, verifier and file system: contents of 1 or 2 symbolic bytes, verification a predicate over the content; every previous state of the destination (absent, any content) and a leftover temporary file; every server behaviour (file, interruption, connection error, error page) per attempt; one failing file operation or all from some point on, a crash before any file operation followed by another run, and a cancellation at any operation, all at symbolic positions.
package downloader

import (
	"context"
	"errors"
	"net/http"
	"net/url"
	"os"
	"time"

	"github.com/mozilla/crlite/go/zzvf/env"
	vf "github.com/mozilla/crlite/go/zzvf/vf"
)

const vfDest, vfTmp = "/work/crl/file", "/work/crl/file.tmp"

// vfGood is what the verifier accepts.
func vfGood(b []byte) bool { return len(b) > 0 && b[0]&1 == 0 }

type vfVerifier struct{}

func (vfVerifier) IsValid(path string) error {
	b, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	if !vfGood(b) {
		return errors.New("invalid")
	}
	return nil
}

type vfAudit struct{ n int }

func (a *vfAudit) FailedDownload(i DownloadIdentifier, u *url.URL, t *DownloadTracer, err error) {
	a.n++
}
func (a *vfAudit) FailedVerifyUrl(i DownloadIdentifier, u *url.URL, t *DownloadTracer, err error) {
	a.n++
}
func (a *vfAudit) FailedVerifyPath(i DownloadIdentifier, u *url.URL, p string, err error) { a.n++ }

type vfID struct{}

func (vfID) ID() string { return "issuer" }

type vfRun struct {
	s       *vfServer
	prev    []byte
	hadPrev bool
	audit   vfAudit
	retries uint
}

func vfSetup() *vfRun {
	os.VFMkdir("/work/crl")
	r := &vfRun{s: &vfServer{content: vf.Str("content", 1+vf.Choose("len", 2)), modified: env.Base.Add(-time.Hour)}}
	r.s.pick = func(what string, n int) int {
		if what == "get" || what == "cut" {
			return vf.Choose(what, n)
		}
		return 0
	}
	if vf.Choose("prev", 2) == 1 {
		r.prev, r.hadPrev = vf.Bytes("prev", 1+vf.Choose("prevlen", 2)), true
		os.VFWrite(vfDest, r.prev)
	}
	if vf.Choose("tmp", 2) == 1 { // left over from a crash
		os.VFWrite(vfTmp, vf.Bytes("tmp", 1))
		t := env.Base.Add(-2 * time.Hour)
		if os.Chtimes(vfTmp, t, t) != nil {
			panic("chtimes")
		}
	}
	r.retries = uint(vf.Choose("retries", vf.Bound("retries", 1, 2)+1))
	return r
}

func (r *vfRun) get(ctx context.Context) (bool, error) {
	http.VFHandler = r.s.handle
	u, err := url.Parse("http://crl.example/a.crl")
	if err != nil {
		panic(err)
	}
	return DownloadAndVerifyFileSync(ctx, vfVerifier{}, &r.audit, vfID{}, *u, vfDest, r.retries, time.Minute)
}

// isPrev and isNew say what the destination holds.
func (r *vfRun) isPrev() bool {
	b, ok := os.VFRead(vfDest)
	return ok == r.hadPrev && string(b) == string(r.prev)
}

func (r *vfRun) isNew() bool {
	b, ok := os.VFRead(vfDest)
	return ok && string(b) == r.s.content
}

func (r *vfRun) check(ok bool, err error) {
	b, there := os.VFRead(vfDest)
	if ok {
		vf.Assert(there && vfGood(b), "success is reported only if what is there verifies")
	}
	good := vfGood([]byte(r.s.content))
	vf.Assert(vf.Or(r.isPrev(), vf.And(r.isNew(), good)), "the destination holds the verified download or what it held before")
	if ok && err == nil {
		vf.Assert(r.isNew(), "without an error the download is in place")
	}
	if !ok {
		vf.Assert(err != nil, "a failure comes with an error")
	}
}

// Every server behaviour, no other faults.
func VF_C22_server() {
	r := vfSetup()
	ok, err := r.get(context.Background())
	r.check(ok, err)
	vf.Assert(!os.VFExists(vfTmp), "no temporary file is left behind")
	if err != nil {
		vf.Assert(r.isPrev(), "a failed download leaves the previous content")
		vf.Assert(r.audit.n == 1, "the failure is audited once")
		vf.Assert(ok == (r.hadPrev && vfGood(r.prev)), "the previous content is used if and only if it verifies")
	} else {
		vf.Assert(r.audit.n == 0, "a success is not audited")
	}
}

// File operations fail.
func VF_C22_fault() {
	r := vfSetup()
	env.FaultAt = int(vf.Below("fault", 4096))
	env.FaultForever = vf.Choose("forever", 2) == 1
	var ok bool
	var err error
	env.Run(func() { ok, err = r.get(context.Background()) })
	r.check(ok, err)
	if env.FaultName != "remove file.tmp" && !env.FaultForever {
		vf.Assert(!os.VFExists(vfTmp), "no temporary file is left behind")
	}
}

// The run is cancelled.
func VF_C22_cancel() {
	r := vfSetup()
	ctx, cancel := context.WithCancel(context.Background())
	at, k := vf.Below("cancel", 64), uint64(0)
	env.Hook = func(op string) {
		if k == at {
			cancel()
		}
		k++
	}
	var ok bool
	var err error
	env.Run(func() { ok, err = r.get(ctx) })
	r.check(ok, err)
	vf.Assert(!os.VFExists(vfTmp), "no temporary file is left behind")
	cancel()
}

// A crash, and a later run, perhaps against a newer file.
func VF_C22_crash() {
	r := vfSetup()
	env.CrashAt = int(vf.Below("crash", 4096))
	var ok bool
	var err error
	how := env.Run(func() { ok, err = r.get(context.Background()) })
	if how == "done" {
		r.check(ok, err)
		return
	}
	vf.Assert(vf.Or(r.isPrev(), vf.And(r.isNew(), vfGood([]byte(r.s.content)))), "after a crash the destination holds the verified download or what it held before")
	env.Reset()
	r.prev, r.hadPrev = os.VFRead(vfDest)
	vf.AdvanceNs(int64(2 * time.Hour))
	if vf.Choose("newer", 2) == 1 {
		r.s.content = vf.Str("newcontent", 1+vf.Choose("newlen", 2))
		r.s.modified = env.Now().Add(-time.Minute)
	}
	r.s.pick = func(what string, n int) int { return 0 }
	env.Run(func() { ok, err = r.get(context.Background()) })
	r.check(ok, err)
	if vfGood([]byte(r.s.content)) {
		vf.Assert(ok && err == nil && r.isNew(), "the next run brings the file up to date")
	}
	vf.Assert(!os.VFExists(vfTmp), "no temporary file is left behind by the next run")
}
