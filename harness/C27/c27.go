//vf:pkg rootprogram
//vf:use report.go
//vf:opt retry=40
//vf:note LoadFromDisk with the real csv, PEM, url and map code over modelled certificates: parsing and path building are stubs that follow the rules the library documents (signatures, pool membership, validity period, key usage). Reports of three certificates (four thorough) besides a root; each one's signer, record type and revocation status hold symbolic characters, validity end and usage are symbolic or chosen; map iteration order is a choice in its own entry. Outside: the certificate library itself, and the report's download (C23).
package rootprogram

import (
	"io/ioutil"
	"os"
	"time"

	"github.com/mozilla/crlite/go/zzvf/env"
	"github.com/mozilla/crlite/go/zzvf/pki"
	vf "github.com/mozilla/crlite/go/zzvf/vf"
)

var _ = os.Open
var _ = ioutil.WriteFile

type vfGen struct {
	row          *vfRow
	root, inter  bool
	fresh, valid bool // unrevoked; usable now
	by           string
	key          string
}

// vfAny is a row about a certificate with any status, type, signer and validity.
func vfAny(i int, now int64) *vfGen {
	g := &vfGen{}
	name := string(rune('0' + i))
	g.key = "k" + name
	g.by = "k" + vf.Str("signer", 1)
	end := vf.U32("validity end")
	c := pki.New(name, []byte{1}, g.key, time.Unix(int64(end), 0))
	c.NotBefore = time.Unix(1000000000, 0)
	c.IssuedBy = []string{g.by}
	g.valid = int64(end) >= now
	g.row = &vfRow{cert: c}
	switch vf.Choose("type", 2) {
	case 0:
		t := vf.Str("t", 1)
		vf.Assume(vf.And(t[0] >= 'a', t[0] <= 'z'))
		g.row.kind = "Intermediate Certificat" + t
		g.inter = t == "e"
	case 1:
		g.row.kind = vfRoot
		g.root = true
	}
	if vf.Choose("status", 2) == 1 {
		t := vf.Str("s", 1)
		vf.Assume(vf.And(t[0] >= 'a', t[0] <= 'z'))
		g.row.status = "Not Revoke" + t
		g.fresh = t == "d"
	} else {
		g.fresh = true
	}
	return g
}

// Which of the certificates chain to an included root.
func vfTrusted(gs []*vfGen) []bool {
	n := len(gs)
	ok := make([]bool, n)
	for i := range gs {
		ok[i] = vf.And(gs[i].root, gs[i].fresh, gs[i].valid)
	}
	for k := 0; k < n; k++ {
		for i := range gs {
			for j := range gs {
				if i != j {
					ok[i] = vf.Or(ok[i], vf.And(gs[i].inter, gs[i].fresh, gs[i].valid, gs[i].by == gs[j].key, ok[j]))
				}
			}
		}
	}
	return ok
}

func VF_C27_report() {
	n := vf.Bound("certificates", 3, 4)
	now := env.Now().Unix()
	gs := []*vfGen{}
	var rows []*vfRow
	for i := 0; i < n; i++ {
		g := vfAny(i, now)
		gs = append(gs, g)
		rows = append(rows, g.row)
	}
	want := vfTrusted(gs)
	vfReport(rows)
	mi := NewMozillaIssuers()
	err := mi.LoadFromDisk(vfReportPath)
	vf.Assert(err == nil, "the report loads")
	for i, g := range gs {
		vf.Assert(vfInProgram(mi, g.row.cert) == vf.And(g.inter, want[i]), "exactly the unrevoked intermediates that chain to an included root are enrolled")
	}
}

// The order in which the candidates come out of the map, and chains through other intermediates.
func VF_C27_order() {
	root := vfCert("r", "kr", "kr")
	rows := []*vfRow{{cert: root, kind: vfRoot}}
	n := vf.Bound("intermediates in any order", 3, 3)
	var gs []*vfGen
	gs = append(gs, &vfGen{row: rows[0], root: true, fresh: true, valid: true, key: "kr"})
	for i := 0; i < n; i++ {
		name := string(rune('0' + i))
		g := &vfGen{key: "k" + name, by: "k" + vf.Str("signer", 1), inter: true, fresh: true, valid: true}
		g.row = &vfRow{cert: vfCert(name, g.key, g.by), kind: vfInter, status: "Not Revoked"}
		if vf.Choose("other use", 2) == 1 {
			g.row.cert.NotTLS = true
			g.valid = false
		}
		gs, rows = append(gs, g), append(rows, g.row)
	}
	want := vfTrusted(gs)
	vfReport(rows)
	mi := NewMozillaIssuers()
	vf.MapOrder(true)
	err := mi.LoadFromDisk(vfReportPath)
	vf.MapOrder(false)
	vf.Assert(err == nil, "the report loads")
	for i, g := range gs {
		vf.Assert(vfInProgram(mi, g.row.cert) == vf.And(g.inter, want[i]), "exactly the unrevoked intermediates that chain to an included root are enrolled")
	}
}

// Several certificates of one key: the key is enrolled if any of them is trusted, and only with their CRLs.
func VF_C27_shared() {
	root := vfCert("r", "kr", "kr")
	rows := []*vfRow{{cert: root, kind: vfRoot}}
	n := vf.Bound("certificates of one key", 2, 3)
	any, count := false, 0
	var us []string
	for i := 0; i < n; i++ {
		name := string(rune('0' + i))
		c := vfCert(name, "kx", "k"+vf.Str("signer", 1))
		r := &vfRow{cert: c, kind: vfInter, status: "Not Revoked", full: "http://ca.example/" + name}
		vf.Assume(c.IssuedBy[0] != "kx") // a chain through another certificate of the key is in VF_C27_report
		ok := c.IssuedBy[0] == "kr"
		if vf.Choose("revoked", 2) == 1 {
			r.status = "Revoked"
			ok = false
		}
		if vf.Choose("kept", 2) == 1 {
			c.NotAfter = time.Unix(1000000001, 0)
			ok = false
		}
		if ok {
			any = true
			count++
			us = append(us, r.full)
		}
		rows = append(rows, r)
	}
	vfReport(rows)
	mi := NewMozillaIssuers()
	err := mi.LoadFromDisk(vfReportPath)
	vf.Assert(err == nil, "the report loads")
	vf.Assert(vfInProgram(mi, rows[1].cert) == any, "a key is enrolled exactly if one of its certificates is trusted")
	set := mi.CrlMap[vfID(rows[1].cert)]
	vf.Assert(len(set) == count, "only trusted certificates contribute CRLs")
	for _, u := range us {
		vf.Assert(set[u], "every trusted certificate contributes its CRLs")
	}
}

// A damaged byte anywhere in a row, or a report cut short, never enrols another issuer or gives it other CRLs.
func VF_C27_damage() {
	root := vfCert("rrrr", "kr", "kr")
	a, b := vfCert("aaaa", "ka", "kr"), vfCert("bbbb", "kb", "kr") // no damaged byte turns one into another
	rows := []*vfRow{{cert: root, kind: vfRoot}, {cert: a, kind: vfInter, status: "Not Revoked", full: "http://ca.example/a"},
		{cert: b, kind: vfInter, status: "Not Revoked", part: `["http://ca.example/b"]`}}
	out := vfCert("out", "ko", "kother")
	switch vf.Choose("damage", 5) {
	case 0: // a byte of the certificate
		p := []byte(vfPEM(string(a.DER)))
		i := vf.Choose("at", len(p))
		x := vf.U8("byte")
		vf.Assume(vf.And(x != '"', x != p[i]))
		p[i] = x
		rows[1].pem = string(p)
	case 1: // not a certificate
		rows[1].pem = "-----BEGIN PUBLIC KEY-----\nAAAA\n-----END PUBLIC KEY-----"
	case 2:
		rows[1].pem = vfPEM("garbage")
	case 3: // a row with a field too few
		rows[1].shorter = true
	case 4: // untrusted certificate, otherwise well-formed
		rows[1].cert = out
	}
	vfReport(rows)
	mi := NewMozillaIssuers()
	err := mi.LoadFromDisk(vfReportPath)
	if err != nil {
		return
	}
	vf.Assert(vfInProgram(mi, b), "the other rows are not affected")
	vf.Assert(!vfInProgram(mi, root) && !vfInProgram(mi, out), "nothing else is enrolled")
	n := 1
	if vfInProgram(mi, a) {
		n = 2
		vf.Assert(len(mi.CrlMap[vfID(a)]) == 1 && mi.CrlMap[vfID(a)]["http://ca.example/a"], "an issuer has its own CRLs")
	}
	vf.Assert(len(mi.GetIssuers()) == n && len(mi.CrlMap) == n, "nothing else is enrolled")
	set := mi.CrlMap[vfID(b)]
	vf.Assert(len(set) == 1 && set["http://ca.example/b"], "an issuer has its own CRLs")
}

// A report cut short (the downloader does not store one, see C23) may lose issuers and CRLs at its end.
func VF_C27_truncated() {
	root := vfCert("r", "kr", "kr")
	a, b := vfCert("a", "ka", "kr"), vfCert("b", "kb", "kr")
	rows := []*vfRow{{cert: root, kind: vfRoot}, {cert: a, kind: vfInter, status: "Not Revoked", full: "http://ca.example/a", part: "[]"},
		{cert: b, kind: vfInter, status: "Not Revoked", part: `["http://ca.example/b"]`}}
	vfReport(rows)
	s, _ := os.VFRead(vfReportPath)
	os.VFWrite(vfReportPath, s[:vf.Choose("length", len(s))])
	mi := NewMozillaIssuers()
	err := mi.LoadFromDisk(vfReportPath)
	if err != nil {
		vf.Assert(len(mi.GetIssuers()) == 0, "a report that does not load enrols nobody")
		return
	}
	n := 0
	for i, c := range []*pki.Cert{a, b} {
		if vfInProgram(mi, c) {
			n++
			set := mi.CrlMap[vfID(c)]
			u := "http://ca.example/" + string(rune('a'+i))
			if vfInProgram(mi, b) {
				vf.Assert(i == 1 || len(set) == 1 && set[u], "an issuer before the end has all its CRLs")
			}
			vf.Assert(len(set) == 0 || len(set) == 1 && set[u], "an issuer has no CRLs but its own")
		}
	}
	vf.Assert(len(mi.GetIssuers()) == n, "nothing else is enrolled")
}

// Columns in any order, with others between them; a report without one of them does not load.
func VF_C27_columns() {
	cols := []string{"X.509_Certificate_PEM", "RecordType.Name", "Revocation_Status__c", "Full_CRL_Issued_By_This_CA", "JSON_Array_of_Partitioned_CRLs"}
	root, a, b := vfCert("r", "kr", "kr"), vfCert("a", "ka", "kr"), vfCert("b", "kb", "kr")
	vals := [][]string{{vfPEM(string(root.DER)), vfRoot, "", "http://ca.example/r", ""},
		{vfPEM(string(a.DER)), vfInter, "Not Revoked", "", "[\"http://ca.example/a\"]"},
		{vfPEM(string(b.DER)), vfInter, "Revoked", "http://ca.example/b", ""}}
	rot, extra, missing := vf.Choose("rotation", 5), vf.Choose("extra column", 6), vf.Choose("missing", 6)
	swap := vf.Choose("swap", 2) == 1
	s := ""
	for r := -1; r < len(vals); r++ {
		first := true
		for k := 0; k < 5; k++ {
			if k == extra {
				if !first {
					s += ","
				}
				s, first = s+"\"Not Revoked\"", false
			}
			c := (k + rot) % 5
			if swap {
				c = 4 - c
			}
			if c == missing {
				continue
			}
			if !first {
				s += ","
			}
			first = false
			if r < 0 {
				s += cols[c]
			} else {
				s += vfQuote(vals[r][c])
			}
		}
		s += "\n"
	}
	os.VFMkdir("/work")
	os.VFWrite(vfReportPath, []byte(s))
	mi := NewMozillaIssuers()
	err := mi.LoadFromDisk(vfReportPath)
	vf.Assert((err != nil) == (missing < 5), "a report loads exactly if it has the columns it needs")
	if err != nil {
		vf.Assert(len(mi.GetIssuers()) == 0, "a report that does not load enrols nobody")
		return
	}
	vf.Assert(vfInProgram(mi, a) && !vfInProgram(mi, b) && !vfInProgram(mi, root), "columns are found by their names")
	p, err := mi.GetUsesPartitionedCrlsForIssuer(vfIssuerOf(a))
	vf.Assert(err == nil && p && mi.CrlMap[vfID(a)]["http://ca.example/a"], "columns are found by their names")
}

// Loading again, from the disk or the network, leaves only what the last report says.
func VF_C27_load() {
	root, a, b := vfCert("r", "kr", "kr"), vfCert("a", "ka", "kr"), vfCert("b", "kb", "kr")
	rows := func(c *pki.Cert) []*vfRow {
		return []*vfRow{{cert: root, kind: vfRoot}, {cert: c, kind: vfInter, status: "Not Revoked", full: "http://ca.example/" + c.Subject}}
	}
	mi := NewMozillaIssuers()
	os.VFMkdir("/work")
	mi.DiskPath = vfReportPath
	mi.ReportUrl = "https://ccadb.example/report"
	vfReport(rows(b))
	fresh, _ := os.VFRead(vfReportPath)
	remote := string(fresh)
	local := vf.Choose("on disk", 3)
	switch local {
	case 0:
		if err := os.Remove(vfReportPath); err != nil {
			panic(err)
		}
	case 1:
		vfReport(rows(a))
	case 2:
		os.VFWrite(vfReportPath, []byte("not a report\n"))
	}
	age := int64(vf.U32("age"))
	if local > 0 {
		t := time.Unix(env.Now().Unix()-age, 0)
		if err := os.Chtimes(vfReportPath, t, t); err != nil {
			panic(err)
		}
	}
	server := vf.Choose("server", 3)
	asked := vfServe(server, remote)
	if vf.Choose("loaded before", 2) == 1 {
		c, err := PEMToCertificate(vfPEM(string(root.DER)))
		if err != nil {
			panic(err)
		}
		mi.InsertIssuer(c, []string{"http://ca.example/stale"}, true)
	}
	err := mi.Load()
	if err != nil {
		vf.Assert(!(local == 1 && age < 12*3600), "a recent report on disk is enough")
		vf.Assert(server != 0, "the load fails only if the report cannot be had")
		return
	}
	vf.Assert(!vfInProgram(mi, root), "issuers of an earlier load are gone")
	if *asked > 0 {
		vf.Assert(server == 0 && vfInProgram(mi, b) && !vfInProgram(mi, a), "a downloaded report replaces what was loaded")
	} else {
		vf.Assert(local == 1 && age < 12*3600, "only a recent report on disk is used without asking the server")
		vf.Assert(vfInProgram(mi, a) && !vfInProgram(mi, b), "the report on disk is loaded")
	}
	vf.Assert(len(mi.GetIssuers()) == 1, "one issuer is enrolled")
}
