//vf:pkg rootprogram
package rootprogram

import (
	"encoding/base64"
	"errors"
	"io"
	"io/ioutil"
	"net/http"
	"os"
	"time"

	zcx509 "github.com/zmap/zcrypto/x509"

	types "github.com/mozilla/crlite/go"
	"github.com/mozilla/crlite/go/zzvf/pki"
	vf "github.com/mozilla/crlite/go/zzvf/vf"
)

// A row of the CA database report.
type vfRow struct {
	cert    *pki.Cert
	pem     string // instead of the certificate's PEM
	kind    string
	status  string
	full    string
	part    string
	shorter bool
}

const vfReportPath = "/work/report.csv"
const vfRoot, vfInter = "Root Certificate", "Intermediate Certificate"

func vfPEM(der string) string {
	return "-----BEGIN CERTIFICATE-----\n" + base64.StdEncoding.EncodeToString([]byte(der)) + "\n-----END CERTIFICATE-----"
}

func vfQuote(s string) string {
	q := "\""
	for i := 0; i < len(s); i++ {
		if s[i] == '"' {
			q += "\""
		}
		q += s[i : i+1]
	}
	return q + "\""
}

// vfCert registers a certificate for a key, signed by the holder of another.
func vfCert(name, key, by string) *pki.Cert {
	c := pki.New(name, []byte{1}, key, time.Unix(4000000000, 0))
	c.IssuedBy = []string{by}
	return c
}

func (r *vfRow) line() string {
	pem := r.pem
	if pem == "" {
		pem = vfPEM(string(r.cert.DER))
	}
	l := "FP," + vfQuote(pem) + "," + r.kind + "," + r.status + "," + vfQuote(r.full)
	if !r.shorter {
		l += "," + vfQuote(r.part)
	}
	return l + "\n"
}

func vfReport(rows []*vfRow) {
	s := "SHA_256_Fingerprint,X.509_Certificate_PEM,RecordType.Name,Revocation_Status__c,Full_CRL_Issued_By_This_CA,JSON_Array_of_Partitioned_CRLs\n"
	for _, r := range rows {
		s += r.line()
	}
	os.VFMkdir("/work")
	if err := ioutil.WriteFile(vfReportPath, []byte(s), 0644); err != nil {
		panic(err)
	}
}

func vfIssuerOf(c *pki.Cert) types.Issuer {
	z, err := zcx509.ParseCertificate(c.DER)
	if err != nil {
		panic(err)
	}
	ct, err := ZcryptoToCtCertificate(z)
	if err != nil {
		panic(err)
	}
	return types.NewIssuer(ct)
}

func vfInProgram(mi *MozIssuers, c *pki.Cert) bool {
	i := vfIssuerOf(c)
	in := mi.IsIssuerInProgram(i)
	listed := false
	for _, x := range mi.GetIssuers() {
		if x.ID() == i.ID() {
			listed = true
		}
	}
	vf.Assert(in == listed, "the issuer list and the membership test agree")
	_, crls := mi.CrlMap[i.ID()]
	vf.Assert(in == crls, "exactly the enrolled issuers have an entry for their CRLs")
	return in
}

type vfBody struct {
	data string
	pos  int
}

func (b *vfBody) Read(p []byte) (int, error) {
	if b.pos >= len(b.data) {
		return 0, io.EOF
	}
	n := copy(p, b.data[b.pos:])
	b.pos += n
	return n, nil
}
func (b *vfBody) Close() error { return nil }

// vfServe answers requests for the report: 0 gives it, 1 fails, 2 gives something else.
func vfServe(kind int, report string) *int {
	n := 0
	http.VFHandler = func(req *http.Request) (*http.Response, error) {
		n++
		if kind == 1 {
			return nil, errors.New("connection refused")
		}
		r := &http.Response{StatusCode: 200, Status: "200 OK", Header: http.Header{}, Body: &vfBody{data: report}}
		if kind == 2 {
			r.Body = &vfBody{data: "<html>\n"}
		}
		if req.Method == "HEAD" {
			r.Body = &vfBody{}
		}
		return r, nil
	}
	return &n
}

func vfID(c *pki.Cert) string {
	i := vfIssuerOf(c)
	return i.ID()
}
