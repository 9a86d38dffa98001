package x509

import (
	real "github.com/google/certificate-transparency-go/x509"
	"github.com/google/certificate-transparency-go/x509/pkix"
	"github.com/mozilla/crlite/go/zzvf/pki"
)

type Certificate struct{ *real.Certificate }

func ParseCertificate(der []byte) (*Certificate, error) {
	c, ok := pki.Certs[string(der)]
	if !ok || c.CT == pki.Fatal {
		return nil, pki.ErrParse
	}
	r := &real.Certificate{Raw: c.DER, RawTBSCertificate: c.TBS, RawSubjectPublicKeyInfo: c.SPKI,
		RawSubject: []byte(c.Subject), NotBefore: c.NotBefore, NotAfter: c.NotAfter}
	r.Subject.CommonName = c.Subject
	if c.PreIssuer {
		r.ExtKeyUsage = append(r.ExtKeyUsage, real.ExtKeyUsageServerAuth, real.ExtKeyUsageCertificateTransparency)
	}
	if c.CT == pki.NonFatal {
		return &Certificate{r}, real.NonFatalErrors{Errors: []error{pki.ErrNonFatal}}
	}
	return &Certificate{r}, nil
}

func ParsePKIXPublicKey(der []byte) (any, error) {
	if len(der) == 0 || pki.BadKeys[string(der)] {
		return nil, pki.ErrParse
	}
	return string(der), nil
}

func ParseCRL(b []byte) (*pkix.CertificateList, error) {
	c, ok := pki.CRLs[string(b)]
	if !ok {
		return nil, pki.ErrParse
	}
	l := &pkix.CertificateList{}
	l.TBSCertList.Raw = c.TBS
	l.TBSCertList.ThisUpdate = c.ThisUpdate
	l.TBSCertList.NextUpdate = c.NextUpdate
	if c.BadSig {
		l.SignatureValue.Bytes = []byte("bad")
	} else {
		l.SignatureValue.Bytes = []byte("by " + c.SignedBy)
	}
	return l, nil
}

func ParseDERCRL(b []byte) (*pkix.CertificateList, error) { return ParseCRL(b) }

func (c *Certificate) CheckCRLSignature(l *pkix.CertificateList) error {
	if string(l.SignatureValue.Bytes) != "by "+string(c.RawSubjectPublicKeyInfo) {
		return pki.ErrSignature
	}
	return nil
}

func ParseCertificateListDER(b []byte) (*real.CertificateList, error) {
	c, ok := pki.CRLs[string(b)]
	if !ok || c.BadIDP {
		return nil, pki.ErrParse
	}
	l := &real.CertificateList{}
	l.TBSCertList.ThisUpdate = c.ThisUpdate
	l.TBSCertList.NextUpdate = c.NextUpdate
	l.TBSCertList.IssuingDPFullNames.URIs = append([]string{}, c.IDP...)
	return l, nil
}

func ParseCertificateList(b []byte) (*real.CertificateList, error) { return ParseCertificateListDER(b) }
