//vf:pkg cmd/aggregate-crls
//vf:opt hashprefix=8
//vf:note makeFilenameFromUrl and normalizedUrlString on parsed URLs: one URL with 2 (4 thorough) arbitrary bytes in its host, path or query; pairs of URLs of which each has one arbitrary byte in host, user, path, query value or fragment, or 2 (3) characters of an alphabet of separators in path or query. SHA-256 is modelled as collision-free in its first 8 bytes, which is all that the name holds of it. URLs count as the same if they differ only in the order and encoding of well-formed query parameters.
package main

import (
	"net/url"
	"path/filepath"
	"strings"

	vf "github.com/mozilla/crlite/go/zzvf/vf"
)

func vfParse(s string) *url.URL {
	u, err := url.Parse(s)
	if err != nil || u.Scheme != "http" || u.Host == "" {
		vf.Exit()
	}
	return u
}

// The name stays inside the issuer's directory, whatever the URL.
func VF_C24_inside() {
	n := vf.Bound("symbolic characters", 2, 4)
	var s string
	switch vf.Choose("where", 3) {
	case 0:
		s = "http://h/" + vf.Str("path", n)
	case 1:
		s = "http://h/p?" + vf.Str("query", n)
	case 2:
		s = "http://" + vf.Str("host", n)
	}
	u := vfParse(s)
	name := makeFilenameFromUrl(*u)
	vf.Assert(name != "" && name != "." && name != ".." && !strings.Contains(name, "/"), "the name is a plain file name")
	vf.Assert(filepath.Dir(filepath.Join("/crls/issuer", name)) == "/crls/issuer", "the file is inside the issuer's directory")
}

// vfSame says whether two URLs are the same up to the order and encoding of their query parameters.
func vfSame(a, b *url.URL) bool {
	x, y := *a, *b
	if x.RawQuery != "" && y.RawQuery != "" {
		p, errp := url.ParseQuery(x.RawQuery)
		q, errq := url.ParseQuery(y.RawQuery)
		if errp == nil && errq == nil {
			x.RawQuery, y.RawQuery = p.Encode(), q.Encode()
		}
	}
	return x.String() == y.String()
}

// vfOneOf is a symbolic string over an alphabet.
func vfOneOf(name string, n int, alphabet string) string {
	s := vf.Str(name, n)
	for i := 0; i < n; i++ {
		ok := false
		for j := 0; j < len(alphabet); j++ {
			ok = vf.Or(ok, s[i] == alphabet[j])
		}
		vf.Assume(ok)
	}
	return s
}

// Different URLs have different names.
func VF_C24_distinct() {
	var a, b string
	gen := func(name string) string {
		switch vf.Choose(name, 7) {
		case 0:
			return "http://h/p" + vf.Str(name+" path", 1) + ".crl"
		case 1:
			return "http://h/p.crl?a=" + vf.Str(name+" value", 1)
		case 2:
			return "http://h/p.crl?a" + vfOneOf(name+" query", vf.Bound("query characters", 2, 3), ";b&=%")
		case 3:
			return "http://h/" + vfOneOf(name+" path", vf.Bound("path characters", 2, 3), "/.aA-?")
		case 4:
			return "http://h/p.crl?a=1#" + vf.Str(name+" fragment", 1)
		case 5:
			return "http://" + vf.Str(name+" user", 1) + "@h/p.crl"
		}
		return "http://h" + vf.Str(name+" host", 1) + "/p.crl"
	}
	a, b = gen("first"), gen("second")
	u, v := vfParse(a), vfParse(b)
	if makeFilenameFromUrl(*u) == makeFilenameFromUrl(*v) {
		vf.Assert(vfSame(u, v), "only the same URL has the same name")
	}
}
