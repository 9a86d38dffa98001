//vf:pkg cmd/aggregate-crls
package main

import (
	"context"
	"encoding/hex"
	"errors"
	"io"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/google/certificate-transparency-go/x509"

	"github.com/mozilla/crlite/go"
	"github.com/mozilla/crlite/go/rootprogram"
	"github.com/mozilla/crlite/go/zzvf/env"
	"github.com/mozilla/crlite/go/zzvf/pki"
	vf "github.com/mozilla/crlite/go/zzvf/vf"
)

const vfRevoked, vfCrls = "/work/revoked", "/work/crls"

type vfRev struct {
	serial string
	reason byte
}

func (r vfRev) line() string { return hex.EncodeToString([]byte{r.reason}) + hex.EncodeToString([]byte(r.serial)) }

// vfTBS is the DER of a revocation list; bad makes its last entry's reason malformed.
func vfTBS(revs []vfRev, bad bool) []byte {
	var entries [][]byte
	tm := pki.TLV(0x17, []byte("230101000000Z"))
	for i, r := range revs {
		e := [][]byte{pki.TLV(2, []byte(r.serial)), tm}
		val := []byte{0x0a, 1, r.reason}
		if bad && i == len(revs)-1 {
			val = []byte{0x0a, 2, r.reason}
		}
		e = append(e, pki.TLV(0x30, pki.TLV(0x30, []byte{6, 3, 0x55, 0x1d, 0x15}, pki.TLV(4, val))))
		entries = append(entries, pki.TLV(0x30, e...))
	}
	body := [][]byte{pki.TLV(2, []byte{1}), pki.TLV(0x30, []byte{5, 0}), pki.TLV(0x30, []byte{5, 0}), tm}
	if len(revs) > 0 {
		body = append(body, pki.TLV(0x30, entries...))
	}
	return pki.TLV(0x30, body...)
}

// What the server of a CRL does.
const (
	kOK       = iota // a valid CRL
	kDown            // connection error
	kMissing         // 404
	kGarbage         // not a CRL
	kSigner          // signed by somebody else
	kEntry           // a malformed entry
	kBadSig          // corrupted signature
	kFlaky           // interrupted once, then a valid CRL
	kExpired         // valid signature, past its nextUpdate
	kEmpty           // valid and empty
	kIDP             // names another URL
	kKinds
)

type vfCRL struct {
	url     string
	kind    int
	revs    []vfRev
	local   int // what is on disk: 0 nothing, 1 a valid older CRL, 2 garbage
	oldRevs []vfRev
	gets    int
	issuer  *vfIssuer
	body    string
}

type vfIssuer struct {
	name   string
	part   bool
	crls   []*vfCRL
	issuer types.Issuer
}

type vfAgg struct {
	ae      *AggregateEngine
	mi      *rootprogram.MozIssuers
	auditor *CrlAuditor
	issuers []*vfIssuer
	byURL   map[string]*vfCRL
}

var vfErrCut = errors.New("unexpected EOF")

type vfBody struct {
	data string
	pos  int
	err  error
}

func (b *vfBody) Read(p []byte) (int, error) {
	if b.pos >= len(b.data) {
		return 0, b.err
	}
	n := copy(p, b.data[b.pos:])
	b.pos += n
	return n, nil
}
func (b *vfBody) Close() error { return nil }

func vfNewAgg(threads int) *vfAgg {
	a := &vfAgg{byURL: map[string]*vfCRL{}}
	*crlpath, *revokedpath = vfCrls, vfRevoked
	*ctconfig.NumThreads = threads
	a.mi = rootprogram.NewMozillaIssuers()
	a.auditor = NewCrlAuditor(a.mi)
	a.ae = &AggregateEngine{rootPath: vfRevoked, issuers: a.mi, auditor: a.auditor}
	os.VFMkdir(vfCrls)
	os.VFMkdir(vfRevoked)
	http.VFHandler = a.handle
	return a
}

func (a *vfAgg) addIssuer(name string, part bool) *vfIssuer {
	i := &vfIssuer{name: name, part: part}
	pki.New(name, []byte{1}, "key of "+name, time.Unix(2000000000, 0))
	c, err := x509.ParseCertificate([]byte("CERT:" + name))
	if err != nil {
		panic(err)
	}
	i.issuer = types.NewIssuer(c)
	a.issuers = append(a.issuers, i)
	return i
}

// ready makes the issuers known, with their CRLs.
func (a *vfAgg) ready() {
	for _, i := range a.issuers {
		c, err := x509.ParseCertificate([]byte("CERT:" + i.name))
		if err != nil {
			panic(err)
		}
		var urls []string
		for _, l := range i.crls {
			urls = append(urls, l.url)
		}
		a.mi.InsertIssuer(c, urls, i.part)
	}
}

func (a *vfAgg) addCRL(i *vfIssuer, u string, kind int, revs ...vfRev) *vfCRL {
	l := &vfCRL{url: u, kind: kind, revs: revs, issuer: i}
	i.crls = append(i.crls, l)
	a.byURL[u] = l
	l.body = "CRL " + i.name + " " + u
	c := &pki.CRL{DER: []byte(l.body), SignedBy: "key of " + i.name, ThisUpdate: env.Base.Add(-time.Hour), NextUpdate: env.Base.Add(time.Hour), IDP: []string{u}}
	switch kind {
	case kGarbage:
		l.body = "<html>"
		return l
	case kSigner:
		c.SignedBy = "key of somebody"
	case kBadSig:
		c.BadSig = true
	case kExpired:
		c.NextUpdate = env.Base.Add(-time.Minute)
	case kEmpty:
		l.revs = nil
	case kIDP:
		c.IDP = []string{"http://other.example/x.crl"}
	}
	c.TBS = vfTBS(l.revs, kind == kEntry)
	pki.AddCRL(c)
	return l
}

func (l *vfCRL) path() string {
	u, err := url.Parse(l.url)
	if err != nil {
		panic(err)
	}
	return filepath.Join(vfCrls, l.issuer.issuer.ID(), makeFilenameFromUrl(*u))
}

// onDisk puts an earlier download in place.
func (a *vfAgg) onDisk(l *vfCRL, local int, revs ...vfRev) {
	l.local, l.oldRevs = local, revs
	switch local {
	case 1:
		c := &pki.CRL{DER: []byte("OLD " + l.url), SignedBy: "key of " + l.issuer.name, ThisUpdate: env.Base.Add(-48 * time.Hour), NextUpdate: env.Base.Add(time.Hour), IDP: []string{l.url}}
		c.TBS = vfTBS(revs, false)
		pki.AddCRL(c)
		os.VFWrite(l.path(), c.DER)
	case 2:
		os.VFWrite(l.path(), []byte("OLD"))
	}
}

func (a *vfAgg) handle(req *http.Request) (*http.Response, error) {
	l := a.byURL[req.URL.String()]
	if l == nil && strings.Contains(req.URL.Host, "ccadb") {
		return nil, errors.New("connection refused")
	}
	if l == nil {
		panic("request for an undisclosed URL")
	}
	r := &http.Response{StatusCode: 200, Status: "200 OK", Header: http.Header{}, Body: &vfBody{err: io.EOF}}
	if l.kind == kDown {
		return nil, errors.New("connection refused")
	}
	if l.kind == kMissing {
		r.StatusCode, r.Status = 404, "404 Not Found"
		return r, nil
	}
	if req.Method == "HEAD" {
		return r, nil
	}
	l.gets++
	r.Body = &vfBody{data: l.body, err: io.EOF}
	if l.kind == kFlaky && l.gets == 1 {
		r.Body = &vfBody{data: l.body[:5], err: vfErrCut}
	}
	return r, nil
}

func (a *vfAgg) run(ctx context.Context) {
	paths, count := a.ae.downloadCRLs(ctx, a.mi)
	if ctx.Err() != nil {
		return
	}
	a.ae.aggregateCRLs(ctx, count, paths)
}

// used says what revocations a CRL contributes, and whether it was obtained and read in full.
func (l *vfCRL) used() ([]vfRev, bool) {
	switch l.kind {
	case kOK, kFlaky, kExpired, kEmpty, kIDP:
		return l.revs, true
	case kEntry:
		return nil, false
	}
	if l.local == 1 {
		return l.oldRevs, true
	}
	return nil, false
}

// list is the list published for an issuer.
func (i *vfIssuer) list() ([]string, bool) {
	b, ok := os.VFRead(filepath.Join(vfRevoked, i.issuer.ID()))
	if !ok {
		return nil, false
	}
	s := string(b)
	if s == "" {
		return nil, true
	}
	if !strings.HasSuffix(s, "\n") {
		return []string{"unfinished line"}, true
	}
	return strings.Split(s[:len(s)-1], "\n"), true
}

// checkList compares what is published with what the CRLs contain.
func (i *vfIssuer) checkList() {
	var want []string
	all := true
	for _, l := range i.crls {
		revs, ok := l.used()
		all = all && ok
		for _, r := range revs {
			want = append(want, r.line())
		}
	}
	got, there := i.list()
	if !all {
		vf.Assert(!there, "no list is published unless every CRL was obtained and read")
		return
	}
	vf.Assert(there, "a list is published when every CRL was obtained and read")
	vf.Assert(len(got) == len(want), "the list has an entry for each revocation")
	for _, w := range want {
		vf.Assert(vfHas(got, w), "each revoked serial is listed with its reason")
	}
	for _, g := range got {
		vf.Assert(vfHas(want, g), "nothing else is listed")
	}
}

func vfHas(l []string, s string) bool {
	h := false
	for _, x := range l {
		h = vf.Or(h, x == s)
	}
	return h
}
