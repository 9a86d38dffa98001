//vf:pkg .
package types

import (
	"bytes"
	"encoding/json"

	ctx509 "github.com/google/certificate-transparency-go/x509"
	"github.com/mozilla/crlite/go/zzvf/pki"
	vf "github.com/mozilla/crlite/go/zzvf/vf"
)

// Hex, JSON and binary encodings of a serial.
func VF_C30_serial() {
	n := vf.Choose("len", vf.Bound("serial bytes", 20, 40)+1)
	b := vf.Bytes("serial", n)
	s := NewSerialFromBytes(b)
	h := s.HexString()
	vf.Assert(len(h) == 2*n, "hex has two digits per byte")
	vf.Assert(s.String() == h, "the text form is the hex form")
	r := NewSerialFromHex(h)
	vf.Assert(bytes.Equal(r.serial, b), "serial survives hex")
	r2, err := NewSerialFromBinaryString(s.BinaryString())
	vf.Assert(err == nil && bytes.Equal(r2.serial, b), "serial survives binary")
	j, err := json.Marshal(s)
	vf.Assert(err == nil, "serial encodes as JSON")
	var r3 Serial
	err = json.Unmarshal(j, &r3)
	vf.Assert(err == nil && bytes.Equal(r3.serial, b), "serial survives JSON")
}

func vfHexVal(c byte) (byte, bool) {
	d := vf.And(c >= '0', c <= '9')
	l := vf.And(c >= 'a', c <= 'f')
	u := vf.And(c >= 'A', c <= 'F')
	v := vf.IteU64(d, uint64(c-'0'), vf.IteU64(l, uint64(c-'a'+10), uint64(c-'A'+10)))
	return byte(v), vf.Or(d, l, u)
}

// Any JSON value that reaches the serial decoder.
func VF_C30_json() {
	n := 1 + vf.Choose("len", vf.Bound("JSON bytes", 8, 16))
	b := vf.Bytes("json", n)
	if n == 1 {
		vf.Assume(b[0] != '"') // not a JSON value
	}
	ok := vf.And(b[0] == '"', b[n-1] == '"', n%2 == 0)
	var want []byte
	for i := 1; i+2 < n; i += 2 {
		x, okx := vfHexVal(b[i])
		y, oky := vfHexVal(b[i+1])
		ok = vf.And(ok, okx, oky)
		want = append(want, x<<4|y)
	}
	var s Serial
	err := s.UnmarshalJSON(b)
	vf.Assert((err == nil) == ok, "exactly quoted hex is accepted")
	if err == nil {
		vf.Assert(bytes.Equal(s.serial, want), "JSON decodes to the bytes it spells")
	}
}

// Issuer identities.
func VF_C30_issuer() {
	n := vf.Choose("len", vf.Bound("SPKI bytes", 4, 8)+1)
	b := vf.Bytes("spki", n)
	i := NewIssuerFromSPKI(b)
	id := i.ID()
	vf.Assert(len(id) == 44, "an issuer identity is a 32-byte digest")
	j := NewIssuerFromString(id)
	vf.Assert(j.ID() == id, "an issuer survives its text form")
	js, err := json.Marshal(&i)
	vf.Assert(err == nil, "an issuer encodes as JSON")
	var k Issuer
	err = json.Unmarshal(js, &k)
	vf.Assert(err == nil && k.ID() == id, "an issuer survives JSON")
	c := vf.Bytes("spki", n)
	i2 := NewIssuerFromSPKI(c)
	vf.Assert((i2.ID() == id) == bytes.Equal(b, c), "issuers are equal exactly when their keys are")
}

// Issuer identities of any text.
func VF_C30_issuertext() {
	n := vf.Choose("len", vf.Bound("issuer text", 4, 8)+1)
	t := vf.Str("issuer", n)
	for i := 0; i < n; i++ {
		vf.Assume(vf.And(t[i] >= 0x20, t[i] < 0x7f, t[i] != '"', t[i] != '\\', t[i] != '<', t[i] != '>', t[i] != '&'))
	}
	i := NewIssuerFromString(t)
	vf.Assert(i.ID() == t, "an issuer identity is kept as it is")
	js, err := json.Marshal(&i)
	vf.Assert(err == nil && string(js) == `"`+t+`"`, "an issuer encodes as JSON text")
	var k Issuer
	err = json.Unmarshal(js, &k)
	vf.Assert(err == nil && k.ID() == t, "an issuer survives JSON")
}

// Ordering and deduplication.
func VF_C30_dedup() {
	n := vf.Choose("items", vf.Bound("serials", 3, 4)+1)
	var l SerialList
	for i := 0; i < n; i++ {
		l = append(l, NewSerialFromBytes(vf.Bytes("serial", vf.Choose("len", 2)+1)))
	}
	in := append(SerialList{}, l...)
	out := l.Dedup()
	for i := range out {
		for k := 0; k < i; k++ {
			vf.Assert(!bytes.Equal(out[i].serial, out[k].serial), "each serial appears once")
		}
		f := false
		for k := range in {
			f = vf.Or(f, bytes.Equal(in[k].serial, out[i].serial))
		}
		vf.Assert(f, "only given serials appear")
	}
	for k := range in {
		f := false
		for i := range out {
			f = vf.Or(f, bytes.Equal(in[k].serial, out[i].serial))
		}
		vf.Assert(f, "every given serial appears")
	}
}

// The serial taken from a certificate body is exactly the bytes of its INTEGER.
func VF_C30_tbs() {
	n := vf.Choose("len", vf.Bound("serial bytes in DER", 6, 21)+1)
	b := vf.Bytes("serial", n)
	var d []byte
	switch vf.Choose("version", 3) {
	case 1:
		d = append(d, 0xa0, 3, 2, 1, 2)
	case 2:
		d = append(d, 0xa0, 3, 2, 1)
		d = append(d, vf.U8("version"))
	}
	d = append(d, 2, byte(n))
	d = append(d, b...)
	d = append(d, 0x30, byte(vf.Bound("following bytes", 3, 3)))
	d = append(d, vf.Bytes("rest", 3)...)
	tbs := append([]byte{0x30, byte(len(d))}, d...)
	s := NewSerialFromTBS(tbs)
	vf.Assert(bytes.Equal(s.serial, b), "a certificate's serial is the exact contents of its serial number field")
	s2 := NewSerial(vfCert30(tbs))
	vf.Assert(bytes.Equal(s2.serial, b), "both constructors agree")
}

func vfCert30(tbs []byte) *ctx509.Certificate {
	pki.Add(&pki.Cert{DER: []byte("C"), TBS: tbs, SPKI: []byte("key")})
	c, err := ctx509.ParseCertificate([]byte("C"))
	if err != nil {
		panic(err)
	}
	return c
}
