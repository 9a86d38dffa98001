//vf:pkg cmd/get-mozilla-issuers
package main

import (
	"crypto/sha256"
	"encoding/base64"
	"encoding/json"
	"errors"
	"flag"
	"io"
	"net/http"
	"os"
	"strconv"
	"strings"
	"time"

	"github.com/mozilla/crlite/go/rootprogram"
	"github.com/mozilla/crlite/go/zzvf/env"
	"github.com/mozilla/crlite/go/zzvf/pki"
	vf "github.com/mozilla/crlite/go/zzvf/vf"
)

type vfText struct {
	s   string
	cut int
	pos int
}

func (b *vfText) Read(p []byte) (int, error) {
	end := len(b.s)
	if b.cut >= 0 && b.cut < end {
		end = b.cut
	}
	if b.pos >= end {
		if b.cut >= 0 {
			return 0, errors.New("connection reset")
		}
		return 0, io.EOF
	}
	n := copy(p, b.s[b.pos:end])
	b.pos += n
	return n, nil
}
func (b *vfText) Close() error { return nil }

func vfReport() string {
	pki.New("root", []byte{1}, "root key", time.Unix(2000000000, 0)).IssuedBy = []string{"root key"}
	csv := "FP,X.509_Certificate_PEM,RecordType.Name,Revocation_Status__c,Full_CRL_Issued_By_This_CA,JSON_Array_of_Partitioned_CRLs\n"
	row := func(n, typ string) {
		csv += n + ",\"-----BEGIN CERTIFICATE-----\n" + base64.StdEncoding.EncodeToString([]byte("CERT:"+n)) + "\n-----END CERTIFICATE-----\"," + typ + ",Not Revoked,http://" + n + ".example/x.crl,\n"
	}
	row("root", "Root Certificate")
	for _, n := range []string{"A", "B", "C"} {
		pki.New(n, []byte{1}, "key of "+n, time.Unix(2000000000, 0)).IssuedBy = []string{"root key"}
		row(n, "Intermediate Certificate")
	}
	return csv
}

// vfIssuersRun runs the program with a report on disk or on the server, its output to a file or to standard output, and an operation that fails.
func VF_C38_issuers() {
	env.Reset()
	pki.Reset()
	csv := vfReport()
	flag.VFArgs = nil
	toFile := vf.Choose("to a file", 2) == 1
	if toFile {
		flag.VFArgs = append(flag.VFArgs, "-out", "/work/issuers.json")
		os.VFMkdir("/work")
		if vf.Choose("older file", 2) == 1 {
			os.VFWrite("/work/issuers.json", []byte("[{\"pubKeyHash\":\"old\"}]"+strings.Repeat(" ", 5000)))
		}
	}
	truncated := false
	if vf.Choose("from disk", 2) == 1 {
		os.VFWrite("/work/ccadb.csv", []byte(csv))
		flag.VFArgs = append(flag.VFArgs, "-ccadb", "/work/ccadb.csv")
	} else {
		cut := -1
		if vf.Choose("cut", 2) == 1 {
			cut, truncated = 700, true
		}
		http.VFHandler = func(r *http.Request) (*http.Response, error) {
			return &http.Response{StatusCode: 200, Status: "200 OK", Header: http.Header{"Content-Length": {strconv.Itoa(len(csv))}}, ContentLength: int64(len(csv)), Body: &vfText{s: csv, cut: cut}}, nil
		}
	}
	env.FaultAt = int(vf.Below("fault", 4096))
	env.FaultForever = vf.Choose("forever", 2) == 1
	how := env.Run(main)
	faulted, code := env.Faulted, env.ExitCode
	vf.Observe("how", how)
	env.Reset()
	if how != "done" {
		vf.Assert(how == "exited" && code != 0, "a failed run reports it")
		vf.Assert(faulted || truncated, "a run without faults succeeds")
		return
	}
	var out []byte
	if toFile {
		b, ok := os.VFRead("/work/issuers.json")
		vf.Assert(ok, "the file is written")
		out = b
	} else {
		out = []byte(os.VFStdout())
	}
	var ids []string
	if toFile {
		var l []rootprogram.EnrolledIssuer
		vf.Assert(json.Unmarshal(out, &l) == nil, "a run that succeeds writes the whole list")
		for _, i := range l {
			ids = append(ids, i.PubKeyHash)
		}
	} else {
		vf.Assert(json.Unmarshal(out, &ids) == nil, "a run that succeeds writes the whole list")
	}
	vf.Assert(len(ids) == 3, "a run that succeeds lists every issuer once")
	for _, n := range []string{"A", "B", "C"} {
		sum := sha256.Sum256(pki.Certs["CERT:"+n].SPKI)
		m := 0
		for _, id := range ids {
			if id == base64.URLEncoding.EncodeToString(sum[:]) {
				m++
			}
		}
		vf.Assert(m == 1, "a run that succeeds lists every issuer once")
	}
}
