// Package pki is the modelled PKI: what parsing, signature checks and path building give for the certificates
// and CRLs of a harness. Encoded certificates and CRLs are opaque concrete bytes registered by the harness;
// bytes that were never registered do not parse and are signed by nobody.
package pki

import (
	"errors"
	"time"
)

const (
	OK       = 0 // parses
	NonFatal = 1 // parses, with a non-fatal error
	Fatal    = 2 // does not parse
)

type Cert struct {
	DER       []byte
	TBS       []byte
	SPKI      []byte
	Subject   string
	NotBefore time.Time
	NotAfter  time.Time
	PreIssuer bool
	NotTLS    bool     // its extended key usages exclude server authentication
	CT, ZC    int      // outcome in each of the two parsers
	IssuedBy  []string // SPKIs of the keys that signed it
}

type CRL struct {
	DER        []byte
	TBS        []byte // the revocation list, real DER
	SignedBy   string // SPKI
	ThisUpdate time.Time
	NextUpdate time.Time
	IDP        []string
	BadSig     bool
	BadIDP     bool // the stricter parser rejects it
}

var (
	Certs   = map[string]*Cert{}
	CRLs    = map[string]*CRL{}
	BadKeys = map[string]bool{}
)

var ErrParse = errors.New("x509: malformed input")
var ErrNonFatal = errors.New("x509: non-fatal error")
var ErrSignature = errors.New("x509: signature check failed")

func Reset() {
	Certs = map[string]*Cert{}
	CRLs = map[string]*CRL{}
	BadKeys = map[string]bool{}
}

// Add registers a certificate.
func Add(c *Cert) *Cert {
	Certs[string(c.DER)] = c
	return c
}

// New registers a certificate with the given name, serial and key.
func New(name string, serial []byte, key string, notAfter time.Time) *Cert {
	return Add(&Cert{DER: []byte("CERT:" + name), TBS: TBS(serial), SPKI: []byte(key), Subject: "CN=" + name, NotAfter: notAfter})
}

func AddCRL(c *CRL) *CRL {
	CRLs[string(c.DER)] = c
	return c
}

func tlv(tag byte, body []byte) []byte {
	n := len(body)
	var h []byte
	switch {
	case n < 128:
		h = []byte{tag, byte(n)}
	case n < 256:
		h = []byte{tag, 0x81, byte(n)}
	default:
		h = []byte{tag, 0x82, byte(n >> 8), byte(n)}
	}
	return append(h, body...)
}

// TLV is a DER element.
func TLV(tag byte, body ...[]byte) []byte {
	var b []byte
	for _, x := range body {
		b = append(b, x...)
	}
	return tlv(tag, b)
}

// TBS is the start of a TBSCertificate: version 3 and a serial number.
func TBS(serial []byte) []byte {
	return TLV(0x30, TLV(0xa0, TLV(2, []byte{2})), TLV(2, serial))
}
