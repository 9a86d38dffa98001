package ct

import (
	"errors"

	real "github.com/google/certificate-transparency-go"
)

var errTLS = errors.New("tls: malformed entry")

type rd struct {
	b   []byte
	bad bool
}

func (r *rd) take(n int) []byte {
	if r.bad || n > len(r.b) {
		r.bad = true
		return nil
	}
	x := r.b[:n]
	r.b = r.b[n:]
	return x
}

func (r *rd) num(n int) int {
	v := 0
	for _, c := range r.take(n) {
		v = v<<8 | int(c)
	}
	return v
}

func (r *rd) chain() (cs []real.ASN1Cert) {
	c := &rd{b: r.take(r.num(3))}
	for !r.bad && !c.bad && len(c.b) > 0 {
		n := c.num(3)
		if n == 0 {
			c.bad = true
		}
		cs = append(cs, real.ASN1Cert{Data: c.take(n)})
	}
	r.bad = r.bad || c.bad
	return
}

// RawLogEntryFromLeaf parses the RFC 6962 structures of a log entry.
func RawLogEntryFromLeaf(index int64, entry *real.LeafEntry) (*real.RawLogEntry, error) {
	ret := &real.RawLogEntry{Index: index}
	r := &rd{b: entry.LeafInput}
	x := &rd{b: entry.ExtraData}
	if r.num(1) != 0 || r.num(1) != 0 {
		return nil, errTLS
	}
	te := &real.TimestampedEntry{}
	for _, c := range r.take(8) {
		te.Timestamp = te.Timestamp<<8 | uint64(c)
	}
	te.EntryType = real.LogEntryType(r.num(2))
	if r.bad {
		return nil, errTLS
	}
	switch te.EntryType {
	case real.X509LogEntryType:
		n := r.num(3)
		ret.Cert.Data = r.take(n)
		te.X509Entry = &real.ASN1Cert{Data: ret.Cert.Data}
		r.bad = r.bad || n == 0
		ret.Chain = x.chain()
	case real.PrecertLogEntryType:
		p := &real.PreCert{}
		copy(p.IssuerKeyHash[:], r.take(32))
		n := r.num(3)
		p.TBSCertificate = r.take(n)
		te.PrecertEntry = p
		r.bad = r.bad || n == 0
		n = x.num(3)
		ret.Cert.Data = x.take(n)
		x.bad = x.bad || n == 0
		ret.Chain = x.chain()
	default:
		return nil, errTLS
	}
	te.Extensions = real.CTExtensions(r.take(r.num(2)))
	if r.bad || x.bad || len(r.b) > 0 || len(x.b) > 0 {
		return nil, errTLS
	}
	ret.Leaf.TimestampedEntry = te
	return ret, nil
}

func u24(b []byte) []byte {
	n := len(b)
	return append([]byte{byte(n >> 16), byte(n >> 8), byte(n)}, b...)
}

// VFLeaf encodes a log entry.
func VFLeaf(ts uint64, precert bool, cert []byte, chain ...[]byte) real.LeafEntry {
	in := []byte{0, 0}
	for i := 56; i >= 0; i -= 8 {
		in = append(in, byte(ts>>uint(i)))
	}
	var cs []byte
	for _, c := range chain {
		cs = append(cs, u24(c)...)
	}
	if !precert {
		in = append(append(in, 0, 0), u24(cert)...)
		return real.LeafEntry{LeafInput: append(in, 0, 0), ExtraData: u24(cs)}
	}
	in = append(in, 0, 1)
	var kh [32]byte
	if len(chain) > 0 {
		copy(kh[:], chain[0])
	}
	in = append(in, kh[:]...)
	in = append(in, u24(append([]byte("TBS:"), cert...))...)
	return real.LeafEntry{LeafInput: append(in, 0, 0), ExtraData: append(u24(cert), u24(cs)...)}
}
