package http

import (
	"io"
	real "net/http"
	"net/http/cookiejar"
	realtrace "net/http/httptrace"
	"net/url"
	"strings"
	"time"

	"github.com/mozilla/crlite/go/zzvf/env"
	"github.com/mozilla/crlite/go/zzvf/httptrace"
	"github.com/mozilla/crlite/go/zzvf/vf"
)

// VFHandler answers every request.
var VFHandler func(*real.Request) (*real.Response, error)

// VFDNS is what traced requests learn of the name resolution.
var VFDNS *realtrace.DNSDoneInfo

type Client struct {
	Transport     real.RoundTripper
	CheckRedirect func(req *real.Request, via []*real.Request) error
	Jar           *cookiejar.Jar
	Timeout       time.Duration
}

var DefaultClient = &Client{}

func (c *Client) Do(req *real.Request) (*real.Response, error) {
	if err := env.Op("http "+req.Method, false); err != nil {
		return nil, err
	}
	if err := req.Context().Err(); err != nil {
		return nil, err
	}
	if t := httptrace.ContextClientTrace(req.Context()); t != nil && t.DNSDone != nil && VFDNS != nil {
		t.DNSDone(*VFDNS)
	}
	return VFHandler(req)
}

func (c *Client) Get(u string) (*real.Response, error) {
	req, err := real.NewRequest("GET", u, nil)
	if err != nil {
		return nil, err
	}
	return c.Do(req)
}

func (c *Client) Head(u string) (*real.Response, error) {
	req, err := real.NewRequest("HEAD", u, nil)
	if err != nil {
		return nil, err
	}
	return c.Do(req)
}

func (c *Client) Post(u, contentType string, body io.Reader) (*real.Response, error) {
	req, err := real.NewRequest("POST", u, body)
	if err != nil {
		return nil, err
	}
	return c.Do(req)
}

func (c *Client) PostForm(u string, data url.Values) (*real.Response, error) {
	return c.Post(u, "", strings.NewReader(data.Encode()))
}

func (c *Client) CloseIdleConnections() {}

func Get(u string) (*real.Response, error)  { return DefaultClient.Get(u) }
func Head(u string) (*real.Response, error) { return DefaultClient.Head(u) }

// VFServing are the handlers being served, by address.
var VFServing = map[string]real.Handler{}

type Server struct {
	Addr    string
	Handler real.Handler

	ReadTimeout, ReadHeaderTimeout, WriteTimeout, IdleTimeout time.Duration

	down chan struct{}
}

func (s *Server) ListenAndServe() error {
	h := s.Handler
	if h == nil {
		h = DefaultServeMux
	}
	vf.Lock()
	if s.down == nil {
		s.down = make(chan struct{})
	}
	VFServing[s.Addr] = h
	vf.Unlock()
	<-s.down
	return ErrServerClosed
}

func (s *Server) stop() {
	vf.Lock()
	if s.down == nil {
		s.down = make(chan struct{})
	}
	delete(VFServing, s.Addr)
	select {
	case <-s.down:
	default:
		close(s.down)
	}
	vf.Unlock()
}

func (s *Server) Shutdown(ctx any) error { s.stop(); return nil }
func (s *Server) Close() error           { s.stop(); return nil }
func ListenAndServe(a string, h real.Handler) error {
	return (&Server{Addr: a, Handler: h}).ListenAndServe()
}

// ServeMux knows exact paths and subtrees, and patterns with a method.
type ServeMux struct {
	pats []string
	hs   []real.Handler
}

var DefaultServeMux = NewServeMux()

func NewServeMux() *ServeMux { return &ServeMux{} }

func (m *ServeMux) Handle(p string, h real.Handler) {
	m.pats = append(m.pats, p)
	m.hs = append(m.hs, h)
}

func (m *ServeMux) HandleFunc(p string, f func(real.ResponseWriter, *real.Request)) {
	m.Handle(p, real.HandlerFunc(f))
}

func (m *ServeMux) ServeHTTP(w real.ResponseWriter, r *real.Request) {
	best := -1
	var h real.Handler
	for i, p := range m.pats {
		if k := strings.IndexByte(p, ' '); k >= 0 {
			if p[:k] != r.Method {
				continue
			}
			p = p[k+1:]
		}
		if (p == r.URL.Path || strings.HasSuffix(p, "/") && strings.HasPrefix(r.URL.Path, p)) && len(p) > best {
			best, h = len(p), m.hs[i]
		}
	}
	if h == nil {
		w.WriteHeader(404)
		return
	}
	h.ServeHTTP(w, r)
}

func Handle(p string, h real.Handler) { DefaultServeMux.Handle(p, h) }
func HandleFunc(p string, f func(real.ResponseWriter, *real.Request)) {
	DefaultServeMux.HandleFunc(p, f)
}

// VFOnStatus is called when a server answers.
var VFOnStatus func(status int)

type vfWriter struct {
	h      real.Header
	status int
	body   []byte
	broken bool
}

func (w *vfWriter) Header() real.Header { return w.h }
func (w *vfWriter) WriteHeader(c int) {
	if w.status == 0 {
		w.status = c
		if VFOnStatus != nil {
			VFOnStatus(c)
		}
	}
}
func (w *vfWriter) Write(b []byte) (int, error) {
	w.WriteHeader(200)
	if w.broken {
		return 0, io.ErrClosedPipe
	}
	w.body = append(w.body, b...)
	return len(b), nil
}

// VFAsk sends a request to the server at an address; -1 if nothing is served there.
func VFAsk(addr, method, path string, broken bool) (int, real.Header) {
	h := VFServing[addr]
	if h == nil {
		return -1, nil
	}
	w := &vfWriter{h: real.Header{}, broken: broken}
	h.ServeHTTP(w, &real.Request{Method: method, URL: &url.URL{Path: path}, Header: real.Header{}})
	w.WriteHeader(200)
	return w.status, w.h
}
