//vf:pkg cmd/aggregate-crls
//vf:use aggr.go
//vf:note loadAndCheckSignatureOfCRL, CrlVerifier, verifyCRL, loadAndCheckIssuingDistributionPointOfCRL, processCRL and aggregateCRLWorker, with parsing and signature checks modelled (a CRL is opaque bytes; which key signed it, its dates and its distribution points are symbolic or chosen). Files: absent, not a CRL, any signer key of 2 symbolic bytes, corrupted signature, malformed entries, rejected by the stricter parser. Distribution points: up to 2 (3 thorough) names, each the fetched URL, another known or unknown URL, the fetched URL with its query reordered, an unparseable name, or a name with a symbolic byte.
package main

import (
	"context"
	"net/url"
	"os"
	"path/filepath"
	"sync"
	"time"

	"github.com/google/certificate-transparency-go/x509"

	"github.com/mozilla/crlite/go"
	"github.com/mozilla/crlite/go/downloader"
	"github.com/mozilla/crlite/go/zzvf/env"
	"github.com/mozilla/crlite/go/zzvf/pki"
	vf "github.com/mozilla/crlite/go/zzvf/vf"
)

func vfCert(name, key string) *x509.Certificate {
	pki.New(name, []byte{1}, key, time.Unix(2000000000, 0))
	c, err := x509.ParseCertificate([]byte("CERT:" + name))
	if err != nil {
		panic(err)
	}
	return c
}

const vfA, vfB = "/work/crls/a.crl", "/work/crls/b.crl"

// Signatures: a CRL is loaded if and only if it parses and the issuer's key signed it.
func VF_C21_signature() {
	os.VFMkdir(vfCrls)
	key, signer := vf.Str("issuer key", 2), vf.Str("signer", 2)
	cert := vfCert("x", key)
	good := false
	switch vf.Choose("file", 5) {
	case 0:
	case 1:
		os.VFWrite(vfA, []byte("<html>"))
	case 2:
		os.VFWrite(vfA, nil)
	case 3:
		pki.AddCRL(&pki.CRL{DER: []byte("CRL"), SignedBy: signer, ThisUpdate: env.Base, NextUpdate: env.Base.Add(time.Hour)})
		os.VFWrite(vfA, []byte("CRL"))
		good = key == signer
	case 4:
		pki.AddCRL(&pki.CRL{DER: []byte("CRL"), SignedBy: key, BadSig: true, ThisUpdate: env.Base, NextUpdate: env.Base.Add(time.Hour)})
		os.VFWrite(vfA, []byte("CRL"))
	}
	l, _, err := loadAndCheckSignatureOfCRL(vfA, cert)
	vf.Assert((err == nil) == good, "a CRL is loaded if and only if it parses and its issuer signed it")
	vf.Assert((l != nil) == (err == nil), "a CRL is returned if and only if there is no error")
	v := &CrlVerifier{expectedIssuerCert: cert}
	vf.Assert((v.IsValid(vfA) == nil) == good, "a download verifies if and only if it parses and its issuer signed it")
}

// A CRL is compared with the one it replaces.
func VF_C21_previous() {
	a := vfNewAgg(1)
	i := a.addIssuer("x", false)
	a.ready()
	cert := vfCert("x", "key of x")
	add := func(path, name string, this time.Time, kind int) {
		c := &pki.CRL{DER: []byte(name), SignedBy: "key of x", ThisUpdate: this, NextUpdate: this.Add(time.Hour)}
		switch kind {
		case 0:
			return
		case 1:
			c.SignedBy = "key of y"
		case 2:
			os.VFWrite(path, []byte("<html>"))
			return
		}
		pki.AddCRL(c)
		os.VFWrite(path, c.DER)
	}
	ta, tb := 1600000000+int64(vf.Below("this update", 1000000)), 1600000000+int64(vf.Below("previous update", 1000000))
	ka, kb := int(vf.Below("file", 4)), int(vf.Below("previous file", 4))
	add(vfA, "NEW", time.Unix(ta, 0), ka)
	add(vfB, "OLD", time.Unix(tb, 0), kb)
	u, _ := url.Parse("http://x.example/1.crl")
	l, err := a.ae.verifyCRL(i.issuer, downloader.NewDownloadTracer(), u, vfA, cert, vfB)
	ok := vf.And(ka == 3, vf.Or(kb == 0, vf.And(kb == 3, tb <= ta)))
	vf.Assert((err == nil) == ok, "a CRL is accepted if and only if it is good and not older than a good previous one")
	if err == nil {
		vf.Assert(l.TBSCertList.ThisUpdate.Unix() == ta, "the accepted CRL is the new one")
	} else {
		vf.Assert(len(a.auditor.GetEntries()) == 1, "a refusal is audited")
	}
}

const vfFetched = "http://x.example/crl?a=1&b=2"

// vfName is one name of a distribution point: the name, whether it is the fetched URL, whether another known one.
func vfName() (string, bool, bool) {
	switch vf.Choose("name", 7) {
	case 0:
		return vfFetched, true, false
	case 1:
		return "http://x.example/2.crl", false, true
	case 2:
		return "http://x.example/unknown.crl", false, false
	case 3:
		return "http://x.example/crl?b=2&a=1", true, false
	case 4:
		return "http://x.example/%zz", false, false
	case 5:
		return "ldap://x.example/crl?a=1&b=2", false, false
	}
	c := vf.Str("char", 1)
	vf.Assume(vf.And(c[0] >= '0', c[0] <= 'z', c[0] != '?', c[0] != '%', c[0] != '#', c[0] != '[', c[0] != '\\', c[0] != ']', c[0] != '^', c[0] != '`', c[0] != '<', c[0] != '>'))
	return "http://x.example/" + c + ".crl", false, c == "2"
}

// Distribution points: accepted if and only if the fetched URL is named and no other known one is.
func VF_C21_idp() {
	os.VFMkdir(vfCrls)
	c := &pki.CRL{DER: []byte("CRL"), SignedBy: "k", ThisUpdate: env.Base, NextUpdate: env.Base}
	found, other := false, false
	n := vf.Choose("names", vf.Bound("distribution point names", 2, 3)+1)
	for i := 0; i < n; i++ {
		s, f, o := vfName()
		c.IDP = append(c.IDP, s)
		found, other = vf.Or(found, f), vf.Or(other, o)
	}
	strict := vf.Choose("strict parser", 2) == 0
	c.BadIDP = !strict
	pki.AddCRL(c)
	if vf.Choose("file", 2) == 1 {
		os.VFWrite(vfA, c.DER)
	} else {
		strict = false
	}
	f, err := url.Parse(vfFetched)
	if err != nil {
		panic(err)
	}
	known := map[string]bool{vfFetched: true, "http://x.example/2.crl": true}
	if vf.Choose("known", 2) == 1 { // the only CRL of the issuer
		known, other = map[string]bool{vfFetched: true}, false
	}
	match, err := loadAndCheckIssuingDistributionPointOfCRL(vfA, f, known)
	vf.Assert(match == vf.And(strict, found, !other), "a distribution point matches if and only if it names the fetched URL and no other known one")
	vf.Assert((err == nil) == match, "a mismatch is an error")
}

// What reaches the list of an issuer, from files of any kind.
func VF_C21_contribute() {
	a := vfNewAgg(1)
	x := a.addIssuer("x", vf.Choose("partitioned", 2) == 1)
	a.addIssuer("y", false)
	a.ready()
	signers := []string{"key of x", "key of y", "CN=x"}
	var paths []types.UrlPath
	want, all, wrong := []string{}, true, 0
	for i := 0; i < 2; i++ {
		s := "http://x.example/" + string(rune('1'+i)) + ".crl"
		u, _ := url.Parse(s)
		p := filepath.Join(vfCrls, string(rune('1'+i)))
		r := vfRev{vf.Str("serial", 2), vf.U8("reason")}
		vf.Assume(r.reason < 128)
		c := &pki.CRL{DER: []byte("CRL" + s), SignedBy: signers[0], ThisUpdate: env.Base, NextUpdate: env.Base.Add(-time.Hour), IDP: []string{s}}
		ok := true
		idp := 0
		switch vf.Choose("file", 6) {
		case 0: // as it should be, or not
			k := int(vf.Below("signer", 3))
			c.SignedBy = signers[k]
			ok = k == 0
			idp = vf.Choose("idp", 3)
			switch idp {
			case 1:
				c.IDP = nil
			case 2:
				c.IDP = []string{s, "http://x.example/" + string(rune('2'-i)) + ".crl"}
			}
			os.VFWrite(p, c.DER)
		case 1: // no file name
			p, ok = "", false
		case 2: // no file
			ok = false
		case 3:
			os.VFWrite(p, []byte("<html>"))
			ok = false
		case 4: // a malformed reason
			os.VFWrite(p, c.DER)
			c.TBS = vfTBS([]vfRev{{"zz", 1}, r}, true)
			ok = false
		case 5: // cut short inside
			os.VFWrite(p, c.DER)
			c.TBS = vfTBS([]vfRev{r}, false)
			c.TBS = c.TBS[:len(c.TBS)-1-vf.Choose("cut", 3)]
			ok = false
		}
		if c.TBS == nil {
			c.TBS = vfTBS([]vfRev{r}, false)
		}
		pki.AddCRL(c)
		if ok {
			want = append(want, r.line())
			if idp != 0 && x.part {
				wrong++
			}
		}
		all = all && ok
		paths = append(paths, types.UrlPath{Path: p, Url: *u})
	}
	ch := make(chan types.IssuerCrlUrlPaths, 1)
	ch <- types.IssuerCrlUrlPaths{Issuer: x.issuer, CrlUrlPaths: paths}
	close(ch)
	var wg sync.WaitGroup
	wg.Add(1)
	a.ae.aggregateCRLWorker(context.Background(), &wg, ch)
	got, there := x.list()
	vf.Assert(there == all, "a list is published if and only if every CRL is good")
	if there {
		vf.Assert(len(got) == len(want), "every good CRL contributes its revocations")
		for k := range want {
			if k < len(got) {
				vf.Assert(vf.And(vfHas(got, want[k]), vfHas(want, got[k])), "the list holds the revocations of the good CRLs")
			}
		}
	}
	n := 0
	for _, e := range a.auditor.GetEntries() {
		if e.Kind == AuditKindWrongDP {
			n++
		}
	}
	vf.Assert(n == wrong, "a distribution point that does not match is reported")
}
