package x509

import (
	"errors"
	"time"

	"github.com/mozilla/crlite/go/zzvf/pki"
	"github.com/zmap/zcrypto/encoding/asn1"
	real "github.com/zmap/zcrypto/x509"
)

type Certificate struct{ *real.Certificate }

func ParseCertificate(der []byte) (*Certificate, error) {
	c, ok := pki.Certs[string(der)]
	if !ok || c.ZC == pki.Fatal {
		return nil, pki.ErrParse
	}
	r := &real.Certificate{Raw: c.DER, RawTBSCertificate: c.TBS, RawSubjectPublicKeyInfo: c.SPKI,
		RawSubject: []byte(c.Subject), NotBefore: c.NotBefore, NotAfter: c.NotAfter}
	r.Subject.CommonName = c.Subject
	if c.PreIssuer {
		r.UnknownExtKeyUsage = append(r.UnknownExtKeyUsage, asn1.ObjectIdentifier{1, 2, 3}, asn1.ObjectIdentifier{1, 3, 6, 1, 4, 1, 11129, 2, 4, 4})
	}
	if c.ZC == pki.NonFatal {
		return &Certificate{r}, pki.ErrNonFatal
	}
	return &Certificate{r}, nil
}

type CertificateChain []*Certificate

type CertPool struct{ certs []*Certificate }

func NewCertPool() *CertPool { return &CertPool{} }

func (p *CertPool) AddCert(c *Certificate) {
	if p.Contains(c) {
		return
	}
	p.certs = append(p.certs, c)
}

func (p *CertPool) Contains(c *Certificate) bool {
	for _, x := range p.certs {
		if string(x.Raw) == string(c.Raw) {
			return true
		}
	}
	return false
}

func (p *CertPool) Size() int {
	if p == nil {
		return 0
	}
	return len(p.certs)
}

func (p *CertPool) Certificates() []*Certificate { return p.certs }

type VerifyOptions struct {
	DNSName       string
	Intermediates *CertPool
	Roots         *CertPool
	CurrentTime   time.Time
	KeyUsages     []ExtKeyUsage
}

var errChain = errors.New("x509: certificate signed by unknown authority")

func signs(issuer, c *Certificate) bool {
	for _, k := range pki.Certs[string(c.Raw)].IssuedBy {
		if k == string(issuer.RawSubjectPublicKeyInfo) {
			return true
		}
	}
	return false
}

// Verify builds the chains from c over the intermediates to the roots, and keeps those valid at CurrentTime.
func (c *Certificate) Verify(o VerifyOptions) (current, expired, never []CertificateChain, err error) {
	if o.Roots == nil {
		return nil, nil, nil, errChain
	}
	var chains []CertificateChain
	if o.Roots.Contains(c) {
		chains = append(chains, CertificateChain{c})
	} else {
		chains = build(CertificateChain{c}, &o)
	}
	if len(chains) == 0 {
		return nil, nil, nil, errChain
	}
	tls, other := len(o.KeyUsages) == 0, false
	for _, u := range o.KeyUsages {
		if u == real.ExtKeyUsageServerAuth {
			tls = true
		} else {
			other = true // the model knows about server authentication only
		}
	}
	var usable []CertificateChain
	for _, ch := range chains {
		ok := true
		for _, x := range ch {
			if pki.Certs[string(x.Raw)].NotTLS {
				ok = false
			}
		}
		if ok || other || !tls {
			usable = append(usable, ch)
		}
	}
	if len(usable) == 0 {
		return nil, nil, nil, errors.New("x509: certificate specifies an incompatible key usage")
	}
	for _, ch := range usable {
		ok := true
		for _, x := range ch {
			if o.CurrentTime.Before(x.NotBefore) || o.CurrentTime.After(x.NotAfter) {
				ok = false
			}
		}
		if ok {
			current = append(current, ch)
		} else {
			expired = append(expired, ch)
		}
	}
	if len(current) == 0 {
		err = errors.New("x509: certificate has expired or is not yet valid")
	}
	return
}

func build(ch CertificateChain, o *VerifyOptions) (r []CertificateChain) {
	last := ch[len(ch)-1]
	ext := func(x *Certificate) CertificateChain { return append(append(CertificateChain{}, ch...), x) }
	for _, x := range o.Roots.certs {
		if signs(x, last) {
			r = append(r, ext(x))
		}
	}
	if o.Intermediates == nil || len(ch) > 8 {
		return
	}
next:
	for _, x := range o.Intermediates.certs {
		for _, y := range ch {
			if string(y.Raw) == string(x.Raw) {
				continue next
			}
		}
		if signs(x, last) {
			r = append(r, build(ext(x), o)...)
		}
	}
	return
}
