//vf:pkg downloader
//vf:use httpfile.go
//vf:note DownloadFileSync, download and determineAction against a modelled HTTP server (ranges supported, ignored or unknown) and file system: every file content of 0 to 2 bytes (4 thorough; symbolic), a local file that is absent, a prefix of the content, or an older version of any length up to that plus one, or a longer file of any age, every retry count up to 1 (2 thorough), and every combination of server behaviours per request (HEAD: answered, connection error, error page, no length, no date, no ranges; GET: whole, interrupted at any point, connection error, error page); one failing file operation and one cancellation at symbolic positions. The server's content does not change during a call, and it delivers what it promises or breaks the connection.
package downloader

import (
	"context"
	"net/http"
	"net/url"
	"os"
	"time"

	"github.com/mozilla/crlite/go/zzvf/env"
	vf "github.com/mozilla/crlite/go/zzvf/vf"
)

const vfFile = "/work/crl/file.tmp"

// vfLocal sets up what is on disk before the download.
func vfLocal(s *vfServer, max int) {
	os.VFMkdir("/work/crl")
	n := len(s.content)
	switch vf.Choose("local", 4) {
	case 0:
		return
	case 1: // an interrupted download of the present content
		os.VFWrite(vfFile, []byte(s.content[:vf.Choose("have", n+1)]))
		t := time.Unix(s.modified.Unix()-10+int64(vf.Below("when", 20)), 0)
		if os.Chtimes(vfFile, t, t) != nil {
			panic("chtimes")
		}
	case 2: // an older version
		os.VFWrite(vfFile, vf.Bytes("old", vf.Choose("oldlen", max+2)))
		t := time.Unix(s.modified.Unix()-1-int64(vf.Below("older", 1000)), 0)
		if os.Chtimes(vfFile, t, t) != nil {
			panic("chtimes")
		}
	case 3: // another, longer file of any age
		os.VFWrite(vfFile, vf.Bytes("other", n+1+vf.Choose("longer", 2)))
		t := time.Unix(s.modified.Unix()-10+int64(vf.Below("when", 20)), 0)
		if os.Chtimes(vfFile, t, t) != nil {
			panic("chtimes")
		}
	}
}

func vfDownload(s *vfServer, ctx context.Context, retries uint) error {
	http.VFHandler = s.handle
	u, err := url.Parse("http://crl.example/a.crl")
	if err != nil {
		panic(err)
	}
	return DownloadFileSync(ctx, *u, vfFile, retries, time.Minute)
}

func vfCheck(s *vfServer, err error, retries uint, label string) {
	vf.Assert(s.gets <= int(retries)+1, "no more attempts than configured")
	if err == nil {
		got, ok := os.VFRead(vfFile)
		vf.Assert(ok && string(got) == s.content, label)
	}
}

func vfNewServer(n int) *vfServer {
	s := &vfServer{content: vf.Str("content", n), modified: env.Base.Add(-time.Hour)}
	s.ranges = vf.Choose("ranges", 2) == 1
	return s
}

// Every combination of server behaviours.
func VF_C23_server() {
	max := vf.Bound("content bytes", 2, 4)
	s := vfNewServer(vf.Choose("len", max+1))
	s.pick = vf.Choose
	vfLocal(s, max)
	retries := uint(vf.Choose("retries", vf.Bound("retries", 1, 2)+1))
	err := vfDownload(s, context.Background(), retries)
	vfCheck(s, err, retries, "a successful download is the server's file")
	vf.Assert(err == nil || s.gets == int(retries)+1, "failures are retried as often as configured")
}

// A file operation fails.
func VF_C23_fault() {
	max := vf.Bound("content bytes", 2, 4)
	s := vfNewServer(vf.Choose("len", max+1))
	cut := vf.Choose("interrupted", 2) == 1
	s.pick = func(what string, n int) int {
		if what == "get" && s.gets == 1 && cut {
			return 3
		}
		if what == "cut" {
			return vf.Choose(what, n)
		}
		return 0
	}
	vfLocal(s, max)
	env.FaultAt = int(vf.Below("fault", 4096))
	env.FaultForever = vf.Choose("forever", 2) == 1
	retries := uint(vf.Choose("retries", vf.Bound("retries", 2, 3)+1))
	var err error
	env.Run(func() { err = vfDownload(s, context.Background(), retries) })
	vfCheck(s, err, retries, "a successful download is the server's file, whatever failed on the way")
}

// The run is cancelled.
func VF_C23_cancel() {
	max := vf.Bound("content bytes", 2, 4)
	s := vfNewServer(vf.Choose("len", max+1))
	s.pick = func(what string, n int) int {
		if what == "get" || what == "cut" {
			return vf.Choose(what, n)
		}
		return 0
	}
	vfLocal(s, max)
	ctx, cancel := context.WithCancel(context.Background())
	at, k := vf.Below("cancel", 64), uint64(0)
	env.Hook = func(op string) {
		if k == at {
			cancel()
		}
		k++
	}
	retries := uint(vf.Choose("retries", vf.Bound("retries", 1, 2)+1))
	var err error
	env.Run(func() { err = vfDownload(s, ctx, retries) })
	vfCheck(s, err, retries, "a successful download is the server's file, whenever the run is cancelled")
	cancel()
}
