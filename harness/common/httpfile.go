//vf:pkg downloader
package downloader

import (
	"errors"
	"io"
	"net/http"
	"strconv"
	"strings"
	"time"

	vf "github.com/mozilla/crlite/go/zzvf/vf"
)

// vfBody delivers data and then err.
type vfBody struct {
	data string
	pos  int
	err  error
}

func (b *vfBody) Read(p []byte) (int, error) {
	if b.pos >= len(b.data) {
		return 0, b.err
	}
	n := copy(p, b.data[b.pos:])
	b.pos += n
	return n, nil
}
func (b *vfBody) Close() error { return nil }

var vfErrCut = errors.New("unexpected EOF")

type vfServer struct {
	content    string
	modified   time.Time
	ranges     bool
	heads      int
	gets       int
	pick       func(what string, n int) int
	misbehaved bool
}

func vfResp(code int, body string, end error, h ...string) *http.Response {
	r := &http.Response{StatusCode: code, Status: strconv.Itoa(code) + " " + http.StatusText(code), Header: http.Header{}, Body: &vfBody{data: body, err: end}, ContentLength: int64(len(body))}
	for i := 0; i+1 < len(h); i += 2 {
		r.Header.Set(h[i], h[i+1])
	}
	return r
}

// vfRange parses a byte range request.
func vfRange(h string, size int) (int, int, bool) {
	if !strings.HasPrefix(h, "bytes=") {
		return 0, 0, false
	}
	a, b, ok := strings.Cut(h[6:], "-")
	if !ok {
		return 0, 0, false
	}
	from, err := strconv.Atoi(a)
	if err != nil || from < 0 || from >= size {
		return 0, 0, false
	}
	to := size - 1
	if b != "" {
		t, err := strconv.Atoi(b)
		if err != nil || t < from {
			return 0, 0, false
		}
		if t < to {
			to = t
		}
	}
	return from, to + 1, true
}

// vfDigit is a symbolic decimal digit.
func vfDigit() string {
	d := vf.Str("page", 1)
	vf.Assume(vf.And(d[0] >= '0', d[0] <= '9'))
	return d
}

func (s *vfServer) handle(req *http.Request) (*http.Response, error) {
	mod := s.modified.UTC().Format(http.TimeFormat)
	size := strconv.Itoa(len(s.content))
	if req.Method == "HEAD" {
		s.heads++
		switch s.pick("head", 5) {
		case 1:
			return nil, errors.New("connection refused")
		case 2: // an error page, as large as anything
			return vfResp(503, "", io.EOF, "Content-Length", vfDigit(), "Last-Modified", mod), nil
		case 3:
			return vfResp(200, "", io.EOF, "Last-Modified", mod), nil
		case 4:
			return vfResp(200, "", io.EOF, "Content-Length", size), nil
		case 5:
			return vfResp(200, "", io.EOF, "Content-Length", size, "Last-Modified", mod), nil
		}
		if s.ranges {
			return vfResp(200, "", io.EOF, "Content-Length", size, "Last-Modified", mod, "Accept-Ranges", "bytes"), nil
		}
		return vfResp(200, "", io.EOF, "Content-Length", size, "Last-Modified", mod), nil
	}
	s.gets++
	kind := s.pick("get", 4)
	switch kind {
	case 1:
		return nil, errors.New("connection reset")
	case 2:
		// anything but the file, or part of it
		r := vfResp(503, "<error>", io.EOF, "Last-Modified", mod)
		r.StatusCode, r.Status = 201+int(vf.Below("status", 398)), "error"
		vf.Assume(r.StatusCode != 206)
		return r, nil
	}
	code, part := 200, s.content
	if h := req.Header.Get("Range"); h != "" && s.ranges {
		if from, to, ok := vfRange(h, len(s.content)); ok {
			code, part = 206, s.content[from:to]
		} else if strings.HasPrefix(h, "bytes=") {
			return vfResp(416, "", io.EOF), nil
		}
	}
	if kind == 3 {
		return vfResp(code, part[:s.pick("cut", len(part)+1)], vfErrCut, "Last-Modified", mod), nil
	}
	switch s.pick("date", 3) {
	case 1:
		return vfResp(code, part, io.EOF), nil
	case 2:
		return vfResp(code, part, io.EOF, "Last-Modified", "last tuesday, about noon"), nil
	}
	return vfResp(code, part, io.EOF, "Last-Modified", mod), nil
}

