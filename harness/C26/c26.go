//vf:pkg rootprogram
//vf:use report.go
//vf:opt retry=40
//vf:note InsertIssuer, IssuerCrlMap.Merge, and LoadFromDisk with decodeCrls and the real csv, PEM and url code over modelled certificates (parsing and path building are stubs). Three certificates (four thorough) over two keys (three thorough), in every assignment, with symbolic CRL URLs and partition flags, so that every processing order is a case; the iteration order of LoadFromDisk's map of candidates is a choice.
package rootprogram

import (
	"time"

	ctx509 "github.com/google/certificate-transparency-go/x509"

	types "github.com/mozilla/crlite/go"
	"github.com/mozilla/crlite/go/zzvf/pki"
	vf "github.com/mozilla/crlite/go/zzvf/vf"
)

// Certificates with any keys and CRLs inserted one after the other.
func VF_C26_insert() {
	n := 2 + vf.Choose("certificates", vf.Bound("certificates", 3, 4)-1)
	mi := NewMozillaIssuers()
	var keys, urls []string
	var has, part []bool
	var ids []types.Issuer
	for i := 0; i < n; i++ {
		name := string(rune('a' + i))
		key := "key" + string(rune(48+vf.Choose("key", vf.Bound("keys", 2, 3))))
		c := pki.New(name, []byte{1}, key, time.Unix(2000000000, 0))
		ct, err := ctx509.ParseCertificate(c.DER)
		if err != nil {
			panic(err)
		}
		u := "http://ca.example/" + vf.Str("url", 1)
		h := vf.Choose("has a CRL", 2) == 1
		p := vf.Bool("partitioned")
		var l []string
		if h {
			l = append(l, u)
		}
		iss := mi.InsertIssuer(ct, l, p)
		keys, urls, has, part, ids = append(keys, key), append(urls, u), append(has, h), append(part, p), append(ids, iss)
	}
	for i := 0; i < n; i++ {
		set, ok := mi.CrlMap[ids[i].ID()]
		vf.Assert(ok && mi.IsIssuerInProgram(ids[i]), "every certificate's issuer is enrolled")
		count := 0
		flag := false
		for j := 0; j < n; j++ {
			if keys[j] != keys[i] {
				vf.Assert(ids[i].ID() != ids[j].ID(), "different keys are different issuers")
				continue
			}
			vf.Assert(ids[i].ID() == ids[j].ID(), "one key is one issuer")
			flag = vf.Or(flag, part[j])
			if !has[j] {
				continue
			}
			vf.Assert(set[urls[j]], "no CRL of any of the key's certificates is lost")
			first := true
			for k := 0; k < j; k++ {
				if has[k] && keys[k] == keys[i] && urls[k] == urls[j] {
					first = false
				}
			}
			if first {
				count++
			}
		}
		vf.Assert(len(set) == count, "no CRL of another key appears")
		got, err := mi.GetUsesPartitionedCrlsForIssuer(ids[i])
		vf.Assert(err == nil && got == flag, "partitioned exactly if one of its certificates is, in any order")
	}
	distinct := 0
	for i := 0; i < n; i++ {
		first := true
		for j := 0; j < i; j++ {
			if keys[i] == keys[j] {
				first = false
			}
		}
		if first {
			distinct++
		}
	}
	vf.Assert(len(mi.GetIssuers()) == distinct, "one issuer per key")
}

// The same through the report, for every order in which the candidates come out of the map.
func VF_C26_report() {
	n := vf.Bound("intermediates", 3, 3)
	root := vfCert("root", "rootkey", "rootkey")
	rows := []*vfRow{{cert: root, kind: vfRoot}}
	type want struct {
		key  string
		urls []string
		part bool
	}
	var ws []want
	for i := 0; i < n; i++ {
		name := string(rune('a' + i))
		w := want{key: "key" + string(rune('0'+vf.Choose("key", 2)))}
		r := &vfRow{cert: vfCert(name, w.key, "rootkey"), kind: vfInter, status: "Not Revoked"}
		switch vf.Choose("form", 3) {
		case 0:
			u := "http://ca.example/" + name
			r.full, w.urls = u, []string{u}
		case 1:
			c := vf.Str("c", 1)
			vf.Assume(vf.Or(vf.And(c[0] >= 'a', c[0] <= 'z'), vf.And(c[0] >= '0', c[0] <= '9')))
			u := "http://ca.example/" + c
			r.part, w.urls, w.part = "[\""+u+"\"]", []string{u}, true
		}
		rows = append(rows, r)
		ws = append(ws, w)
	}
	vfReport(rows)
	mi := NewMozillaIssuers()
	vf.MapOrder(true)
	err := mi.LoadFromDisk(vfReportPath)
	vf.MapOrder(false)
	vf.Assert(err == nil, "the report loads")
	for i, w := range ws {
		c := rows[i+1].cert
		vf.Assert(vfInProgram(mi, c), "the issuer is enrolled")
		iss := vfIssuerOf(c)
		set := mi.CrlMap[iss.ID()]
		flag := false
		all := map[string]bool{}
		for _, x := range ws {
			if x.key != w.key {
				continue
			}
			flag = flag || x.part
			for _, u := range x.urls {
				all[u] = true
				vf.Assert(set[u], "every disclosed CRL is recorded")
			}
		}
		vf.Assert(len(set) == len(all), "no other CRL is recorded")
		got, err := mi.GetUsesPartitionedCrlsForIssuer(iss)
		vf.Assert(err == nil && got == flag, "partitioned exactly if one of its certificates is, in any order")
	}
}

// Merging CRL maps is the union.
func VF_C26_merge() {
	mk := func(n int) (types.IssuerCrlMap, []string, []string) {
		m := types.IssuerCrlMap{}
		var is, us []string
		for i := 0; i < n; i++ {
			a, u := vf.Str("issuer", 1), vf.Str("url", 1)
			if m[a] == nil {
				m[a] = map[string]bool{}
			}
			m[a][u] = true
			is, us = append(is, a), append(us, u)
		}
		return m, is, us
	}
	a, ai, au := mk(vf.Choose("left", vf.Bound("entries per side", 3, 3)+1))
	b, bi, bu := mk(vf.Choose("right", vf.Bound("entries per side", 3, 3)+1))
	a.Merge(b)
	is, us := append(append([]string{}, ai...), bi...), append(append([]string{}, au...), bu...)
	total := 0
	for i := range is {
		vf.Assert(a[is[i]][us[i]], "merging keeps every CRL")
		first := true
		for j := 0; j < i; j++ {
			if is[j] == is[i] && us[j] == us[i] {
				first = false
			}
		}
		if first {
			total++
		}
	}
	got := 0
	for _, s := range a {
		got += len(s)
	}
	vf.Assert(got == total, "merging adds nothing else")
	bn := 0
	for _, s := range b {
		bn += len(s)
	}
	c, ci, cu := mk(1)
	a.Merge(c)
	vf.Assert(a[ci[0]][cu[0]], "merging keeps every CRL")
	for i := range bi {
		vf.Assert(b[bi[i]][bu[i]], "the merged map keeps its entries")
	}
	for _, s := range b {
		bn -= len(s)
	}
	vf.Assert(bn == 0, "a later merge does not change a map merged before")
}
