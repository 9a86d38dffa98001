//vf:pkg .
package types

import (
	"bytes"
	"encoding/asn1"
	"time"

	vf "github.com/mozilla/crlite/go/zzvf/vf"
)

var _ = time.Now
var vfOtherOid = asn1.ObjectIdentifier{2, 5, 29, 24}

// Reason extensions with arbitrary contents, in any number and order among other extensions.
func VF_C25_reason() {
	n := vf.Choose("extensions", vf.Bound("extensions per entry", 2, 3)+1)
	var c RevokedCertificateWithRawSerial
	ser := vf.Bytes("serial", 3)
	c.SerialNumber = asn1.RawValue{Bytes: ser}
	nReason := 0
	bad := false
	want := uint8(0)
	for i := 0; i < n; i++ {
		if vf.Choose("kind", 2) == 0 {
			c.Extensions = append(c.Extensions, Extension{Id: vfOtherOid, Value: vf.Bytes("other", 2)})
			continue
		}
		nReason++
		l := vf.Choose("len", vf.Bound("reason value bytes", 5, 6)+1)
		v := vf.Bytes("value", l)
		c.Extensions = append(c.Extensions, Extension{Id: asn1.ObjectIdentifier{2, 5, 29, 21}, Critical: vf.Choose("critical", 2) == 1, Value: v})
		// DER ENUMERATED in 0..255
		if l < 3 {
			bad = true
			continue
		}
		one := vf.And(v[0] == 0x0a, v[1] == 1, v[2] < 0x80)
		two := false
		if l >= 4 {
			two = vf.And(v[0] == 0x0a, v[1] == 2, v[2] == 0, v[3] >= 0x80)
			want = uint8(vf.IteU64(two, uint64(v[3]), uint64(v[2])))
		} else {
			want = v[2]
		}
		bad = vf.Or(bad, !vf.Or(one, two))
	}
	if nReason > 1 {
		bad = true
	}
	sr, err := c.SerialAndReason()
	vf.Assert((err != nil) == bad, "exactly repeated, malformed or out-of-range reasons are errors")
	if err == nil {
		vf.Reached("recorded")
		if nReason == 0 {
			vf.Assert(sr.Reason == 0, "an absent reason is zero")
		} else {
			vf.Assert(sr.Reason == want, "the recorded reason is the extension's")
		}
		vf.Assert(bytes.Equal(sr.Serial.serial, ser), "the reason is paired with its own serial")
	}
}

func vfTLV(tag byte, body ...[]byte) []byte {
	var b []byte
	for _, x := range body {
		b = append(b, x...)
	}
	r := []byte{tag}
	if len(b) < 128 {
		r = append(r, byte(len(b)))
	} else if len(b) < 256 {
		r = append(r, 0x81, byte(len(b)))
	} else {
		r = append(r, 0x82, byte(len(b)>>8), byte(len(b)))
	}
	return append(r, b...)
}

// A whole certificate list: every entry keeps its own serial and reason, in order.
func VF_C25_list() {
	n := vf.Choose("entries", vf.Bound("list entries", 2, 3)+1)
	var entries []byte
	var sers [][]byte
	var reasons []uint8
	for i := 0; i < n; i++ {
		ser := vf.Bytes("serial", 1+vf.Choose("len", 3))
		sers = append(sers, ser)
		e := append(vfTLV(2, ser), vfTLV(0x17, []byte("260101000000Z"))...)
		switch vf.Choose("extensions", 3) {
		case 0:
			reasons = append(reasons, 0)
		case 1: // reason only
			r := vf.U8("reason")
			vf.Assume(r < 128)
			reasons = append(reasons, r)
			e = append(e, vfTLV(0x30, vfTLV(0x30, []byte{6, 3, 0x55, 0x1d, 0x15}, vfTLV(4, []byte{0x0a, 1, r})))...)
		case 2: // invalidity date, then a critical reason
			r := vf.U8("reason")
			vf.Assume(r < 128)
			reasons = append(reasons, r)
			e = append(e, vfTLV(0x30,
				vfTLV(0x30, []byte{6, 3, 0x55, 0x1d, 0x18}, vfTLV(4, vf.Bytes("date", 2))),
				vfTLV(0x30, []byte{6, 3, 0x55, 0x1d, 0x15}, []byte{1, 1, 0xff}, vfTLV(4, []byte{0x0a, 1, r})))...)
		}
		entries = append(entries, vfTLV(0x30, e)...)
	}
	var body []byte
	if vf.Choose("version", 2) == 1 {
		body = append(body, 2, 1, 1)
	}
	body = append(body, vfTLV(0x30, vf.Bytes("alg", 2))...)
	body = append(body, vfTLV(0x30, vf.Bytes("name", 2))...)
	body = append(body, vfTLV(0x17, []byte("260101000000Z"))...)
	if vf.Choose("next", 2) == 1 {
		body = append(body, vfTLV(0x17, []byte("260201000000Z"))...)
	}
	if n > 0 || vf.Choose("empty list present", 2) == 1 {
		body = append(body, vfTLV(0x30, entries)...)
	}
	if vf.Choose("list extensions", 2) == 1 {
		body = append(body, vfTLV(0xa0, vfTLV(0x30, vf.Bytes("ext", 2)))...)
	}
	l, err := DecodeRawTBSCertList(vfTLV(0x30, body))
	vf.Assert(err == nil, "a well-formed list is read")
	vf.Assert(len(l.RevokedCertificates) == n, "every entry of the list is read")
	for i, c := range l.RevokedCertificates {
		sr, err := c.SerialAndReason()
		vf.Assert(err == nil, "every well-formed entry is accepted")
		vf.Assert(bytes.Equal(sr.Serial.serial, sers[i]), "each entry keeps its own serial")
		vf.Assert(sr.Reason == reasons[i], "each entry keeps its own reason")
	}
}

// Truncated and altered lists never panic and never produce an entry that is not there.
func VF_C25_garbage() {
	n := vf.Choose("len", vf.Bound("arbitrary DER bytes", 8, 12)+1)
	b := vf.Bytes("der", n)
	l, err := DecodeRawTBSCertList(b)
	vf.Assert(l != nil, "always a result")
	if err == nil {
		vf.Reached("accepted")
		vf.Assert(len(l.RevokedCertificates) == 0, "a list too short for an entry has none")
	}
}
