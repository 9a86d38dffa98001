//vf:pkg rootprogram
//vf:note decodeCrls with the real net/url and strings code. Disclosed lists of up to three URLs whose last path characters are symbolic over the characters URLs contain, the comma included, with the scheme, spacing, quoting and plain or JSON form chosen; in a second entry field contents around a URL with two (three) symbolic characters over the separators. URLs are compared after the library's own normalisation.
package rootprogram

import (
	"net/url"
	"strings"

	vf "github.com/mozilla/crlite/go/zzvf/vf"
)

func vfURLChar(name string) string {
	s := vf.Str(name, 1)
	c := s[0]
	vf.Assume(vf.Or(vf.And(c >= 'a', c <= 'z'), vf.And(c >= 'A', c <= 'Z'), c == ',', c == '?', c == '+', c == '~', c == '=', c == '.', c == '-', c == '&', c == '(', c == '/'))
	return s
}

var vfSchemes = []string{"http://", "https://", "ldap://", "ftp://", "HTTP://", "//", ""}

// vfNorm is a URL as the library writes it; empty for one that is not fetched.
func vfNorm(s string) string {
	u, err := url.Parse(s)
	if err != nil || u.Scheme != "http" && u.Scheme != "https" {
		return ""
	}
	return u.String()
}

func vfOne(i int) string {
	n := len(vfSchemes)
	if i > 1 {
		n = vf.Bound("schemes of further URLs", 3, n)
	}
	s := vfSchemes[vf.Choose("scheme", n)] + "c.example/" + string(rune('0'+i)) + vfURLChar("c")
	if i < 2 {
		s += []string{"", "x.crl", "?b=%2c&a=X"}[vf.Choose("ending", 3)]
	}
	return s
}

func vfCheckList(got []string, urls []string) {
	var want []string
	for _, u := range urls {
		if n := vfNorm(u); n != "" {
			want = append(want, n)
		}
	}
	for _, w := range want {
		has := false
		for _, g := range got {
			has = vf.Or(has, g == w)
		}
		vf.Assert(has, "every disclosed HTTP URL is taken")
	}
	for _, g := range got {
		has := false
		for _, w := range want {
			has = vf.Or(has, g == w)
		}
		vf.Assert(has, "nothing but the disclosed HTTP URLs is taken")
	}
}

// The field of the full CRL.
func VF_C28_full() {
	space := []string{"", " ", "\n"}[vf.Choose("space", 3)]
	u := vfOne(0)
	full := u
	if vf.Choose("quoted", 2) == 1 {
		full = `"` + u + `"`
	}
	got, flag, err := decodeCrls(space+full+space, []string{"", "[]", " "}[vf.Choose("array", 3)])
	vf.Assert(err == nil && !flag, "the fields decode")
	vfCheckList(got, []string{u})
}

func VF_C28_lists() {
	var urls []string
	space := []string{"", " ", "\n"}[vf.Choose("space", vf.Bound("spacings", 2, 3))]
	full := ""
	if vf.Choose("full", 2) == 1 {
		full = "https://c.example/full"
		urls = append(urls, full)
	}
	part := ""
	n := vf.Choose("entries", vf.Bound("partitioned URLs", 2, 2)+1)
	blanks := vf.Choose("blank", 2) == 1
	for i := 0; i < n; i++ {
		u := vfOne(1 + i)
		urls = append(urls, u)
		if i > 0 {
			part += "," + space
		}
		part += `"` + u + `"`
	}
	if blanks {
		if n > 0 {
			part += space + ","
		}
		part += `""`
	}
	part = space + "[" + part + space + "]" + space
	got, flag, err := decodeCrls(full, part)
	vf.Assert(err == nil, "the fields decode")
	vf.Assert(flag == (n > 0), "an issuer is partitioned exactly if its array lists a CRL")
	vfCheckList(got, urls)
}

// A hand-written list, without quotes or brackets.
func VF_C28_plain() {
	var urls []string
	part := ""
	n := 1 + vf.Choose("entries", vf.Bound("URLs of a plain list", 1, 2))
	sep := []string{",", ", ", " ,\n"}[vf.Choose("separator", 3)]
	for i := 0; i < n; i++ {
		u := vfOne(i)
		vf.Assume(!strings.Contains(u, ","))
		urls = append(urls, u)
		if i > 0 {
			part += sep
		}
		part += u
	}
	if vf.Choose("brackets", 2) == 1 {
		part = "[" + part + "]"
	}
	got, flag, err := decodeCrls("", part)
	vf.Assert(err == nil && flag, "the fields decode")
	vfCheckList(got, urls)
}

func vfMark(name string) string {
	s := vf.Str(name, 1)
	c := s[0]
	vf.Assume(vf.Or(c == ' ', c == ',', c == '"', c == '[', c == ']', c == '{', c == 'z', c == '\t'))
	return s
}

// Any field around a URL: what is taken is that URL, or one the field spells without its separators.
func VF_C28_field() {
	a, b := "", ""
	n := vf.Bound("marks before and after a URL", 1, 2)
	for i := 0; i < n; i++ {
		a += vfMark("before")
		b += vfMark("after")
	}
	in := a + "http://c.example/x" + b
	var got []string
	var flag bool
	var err error
	full := vf.Choose("field", 2) == 0
	if full {
		got, flag, err = decodeCrls(in, "")
	} else {
		got, flag, err = decodeCrls("", in)
	}
	vf.Assert(len(got) <= 1, "one URL does not become several")
	vf.Assert(!(full && flag), "only the array makes an issuer partitioned")
	if err != nil {
		return
	}
	for _, g := range got {
		u, err := url.Parse(g)
		vf.Assert(err == nil && u.Scheme == "http" && u.Host == "c.example", "what is taken is an HTTP URL of the disclosed host")
		vf.Assert(strings.HasPrefix(u.Path, "/x"), "what is taken is the disclosed path")
	}
}
