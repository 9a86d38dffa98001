//vf:pkg rootprogram
//vf:use report.go
//vf:opt retry=40
//vf:note SaveIssuersList, LoadEnrolledIssuers and InsertIssuer with the real PEM code and the engine's JSON rules over modelled certificates (parsing is a stub). Up to three certificates (four thorough) over two (three) keys, symbolic partition flags and subject characters, every map order; one failing operation or all from a symbolic point on, a crash at a symbolic point, and damage to the file.
package rootprogram

import (
	"crypto/sha256"
	"encoding/base64"
	"encoding/json"
	"os"
	"time"

	types "github.com/mozilla/crlite/go"
	"github.com/mozilla/crlite/go/zzvf/env"
	"github.com/mozilla/crlite/go/zzvf/pki"
	vf "github.com/mozilla/crlite/go/zzvf/vf"
)

const vfList = "/work/enrolled.json"

type vfEnrolled struct {
	c    *pki.Cert
	part bool
	iss  types.Issuer
}

func vfEnrol(mi *MozIssuers, n int, sym bool) (r []*vfEnrolled) {
	for i := 0; i < n; i++ {
		name := string(rune('a' + i))
		key := "key" + string(rune('0'+vf.Choose("key", 2)))
		c := pki.New(name, []byte{1}, key, time.Unix(2000000000, 0))
		c.Subject = "CA <" + name + ">"
		if sym && i == 0 {
			ch := vf.Str("subject", 1)
			vf.Assume(vf.And(ch[0] >= 32, ch[0] < 127))
			c.Subject = "CA" + ch
		}
		e := &vfEnrolled{c: c, part: vf.Bool("partitioned")}
		ct, err := PEMToCertificate(vfPEM(string(c.DER)))
		if err != nil {
			panic(err)
		}
		e.iss = mi.InsertIssuer(ct, []string{"http://ca.example/" + name}, e.part)
		r = append(r, e)
	}
	return
}

func vfSameIssuers(mi, mi2 *MozIssuers, es []*vfEnrolled) {
	vf.Assert(len(mi.GetIssuers()) == len(mi2.GetIssuers()), "as many issuers as were saved")
	for _, e := range es {
		vf.Assert(mi2.IsIssuerInProgram(e.iss), "every saved issuer is loaded")
		s1, err1 := mi.GetSubjectForIssuer(e.iss)
		s2, err2 := mi2.GetSubjectForIssuer(e.iss)
		vf.Assert(err1 == nil && err2 == nil && s1 == s2, "with its subject")
		p1, err1 := mi.GetUsesPartitionedCrlsForIssuer(e.iss)
		p2, err2 := mi2.GetUsesPartitionedCrlsForIssuer(e.iss)
		vf.Assert(err1 == nil && err2 == nil && p1 == p2, "with its partition flag")
		c1, err1 := mi.GetCertificateForIssuer(e.iss)
		c2, err2 := mi2.GetCertificateForIssuer(e.iss)
		vf.Assert(err1 == nil && err2 == nil && string(c1.Raw) == string(c2.Raw), "with its certificate")
		n1, n2 := mi.issuerMap[e.iss.ID()], mi2.issuerMap[e.iss.ID()]
		vf.Assert(len(n1.certs) == len(n2.certs), "with all its certificates")
		for i := range n1.certs {
			vf.Assert(n1.certs[i].pemInfo == n2.certs[i].pemInfo, "with all its certificates")
		}
	}
}

func VF_C29_roundtrip() {
	mi := NewMozillaIssuers()
	es := vfEnrol(mi, vf.Choose("certificates", vf.Bound("certificates", 3, 4)+1), true)
	os.VFMkdir("/work")
	if vf.Choose("older list", 2) == 1 {
		os.VFWrite(vfList, []byte("[{\"subject\":\"something longer than the new list, which must not show through\"}]\n\n\n\n\n"))
	}
	vf.MapOrder(true)
	err := mi.SaveIssuersList(vfList)
	vf.MapOrder(false)
	vf.Assert(err == nil, "the list is saved")
	mi2 := NewMozillaIssuers()
	err = mi2.LoadEnrolledIssuers(vfList)
	vf.Assert(err == nil, "a saved list loads")
	vfSameIssuers(mi, mi2, es)
}

// What the list says about each issuer, for the stages that read it directly.
func VF_C29_fields() {
	mi := NewMozillaIssuers()
	es := vfEnrol(mi, 2, true)
	os.VFMkdir("/work")
	vf.Assert(mi.SaveIssuersList(vfList) == nil, "the list is saved")
	b, _ := os.VFRead(vfList)
	var l []map[string]any
	if err := json.Unmarshal(b, &l); err != nil {
		vf.Assert(false, "the list is JSON")
	}
	vf.Assert(len(l) == len(es), "one entry for each certificate")
	for _, e := range es {
		found := 0
		for _, x := range l {
			if x["pem"] != vfPEM(string(e.c.DER)) {
				continue
			}
			found++
			k := sha256.Sum256(e.c.SPKI)
			vf.Assert(x["pubKeyHash"] == base64.URLEncoding.EncodeToString(k[:]) && x["pubKeyHash"] == e.iss.ID(), "the key hash is the issuer's identity")
			p, err := mi.GetUsesPartitionedCrlsForIssuer(e.iss)
			vf.Assert(err == nil && x["usesPartitionedCrls"] == p, "the partition flag is the issuer's")
		}
		vf.Assert(found == 1, "one entry for each certificate")
	}
}

// A failing or interrupted save is noticed, by itself or when the list is loaded.
func VF_C29_fault() {
	mi := NewMozillaIssuers()
	es := vfEnrol(mi, vf.Choose("certificates", 2)+1, false)
	os.VFMkdir("/work")
	switch vf.Choose("what", 3) {
	case 0:
		env.FaultAt = int(vf.Below("fault", 64))
	case 1:
		env.FaultAt = int(vf.Below("fault", 64))
		env.FaultForever = true
	case 2:
		env.CrashAt = int(vf.Below("crash", 64))
	}
	var err error
	how := env.Run(func() { err = mi.SaveIssuersList(vfList) })
	faulted := env.Faulted
	env.Reset()
	if how == "done" && err == nil {
		vf.Assert(!faulted, "a save that fails is reported")
	}
	mi2 := NewMozillaIssuers()
	err2 := mi2.LoadEnrolledIssuers(vfList)
	if how == "done" && err == nil {
		vf.Assert(err2 == nil, "a saved list loads")
	}
	if err2 == nil {
		vfSameIssuers(mi, mi2, es)
	}
}

// A list that was damaged does not load, or names only issuers that were saved.
func VF_C29_damage() {
	mi := NewMozillaIssuers()
	a, b := pki.New("aaaa", []byte{1}, "ka", time.Unix(2000000000, 0)), pki.New("bbbb", []byte{1}, "kb", time.Unix(2000000000, 0))
	for _, c := range []*pki.Cert{a, b} {
		ct, err := PEMToCertificate(vfPEM(string(c.DER)))
		if err != nil {
			panic(err)
		}
		mi.InsertIssuer(ct, nil, false)
	}
	os.VFMkdir("/work")
	vf.Assert(mi.SaveIssuersList(vfList) == nil, "the list is saved")
	s, _ := os.VFRead(vfList)
	s = append([]byte{}, s...)
	if vf.Choose("how", 2) == 0 {
		s = s[:vf.Choose("length", len(s)-1)]
	} else {
		l := []EnrolledIssuer{}
		if err := json.Unmarshal(s, &l); err != nil {
			panic(err)
		}
		l[0].Pem = []string{"", "garbage", vfPEM("garbage"), "-----BEGIN PUBLIC KEY-----\nAAAA\n-----END PUBLIC KEY-----"}[vf.Choose("pem", 4)]
		s, _ = json.Marshal(l)
	}
	os.VFWrite(vfList, s)
	mi2 := NewMozillaIssuers()
	err := mi2.LoadEnrolledIssuers(vfList)
	vf.Assert(err != nil, "a damaged list does not load")
}
