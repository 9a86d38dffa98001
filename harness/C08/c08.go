//vf:pkg cmd/ct-fetch
//vf:use merkle.go
//vf:use rfclog.go
//vf:use tiledlog.go
//vf:note The whole program (main), from configuration to exit, on modelled logs, Redis and remote settings: once, with every local and remote list of the three logs, every way the answer can be malformed, a symbolic failing request and every schedule with at most one departure (two thorough, and for a single log) from the default; and for ever, with every sequence of three (four) refreshed lists, while the log grows, with three ratios of the refresh interval and the polling delay; there, the writer is taken to keep up with the downloader. Also the refresh by itself on every sequence of three (four) lists and failures. The connection to the server, the HTTP library and TLS are outside.
package main

import (
	"encoding/json"
	"errors"
	"io"
	"net/http"
	"os"
	"strings"

	"filippo.io/sunlight"
	"github.com/go-redis/redis"
	"github.com/google/certificate-transparency-go"
	"github.com/google/certificate-transparency-go/client"

	"github.com/mozilla/crlite/go"
	"github.com/mozilla/crlite/go/zzvf/env"
	vf "github.com/mozilla/crlite/go/zzvf/vf"
)

func vfState(short string) *types.CTLogState {
	v, ok := redis.VFServer.VFGet("log::" + short)
	if !ok {
		return nil
	}
	var s types.CTLogState
	if json.Unmarshal([]byte(v), &s) != nil {
		return nil
	}
	return &s
}

func vfAnswer(status int, body string) *http.Response {
	return &http.Response{StatusCode: status, Status: http.StatusText(status), Body: io.NopCloser(strings.NewReader(body))}
}

type vfBroken struct{ r io.Reader }

func (b *vfBroken) Read(p []byte) (int, error) {
	n, err := b.r.Read(p)
	if err == io.EOF {
		err = errors.New("connection reset")
	}
	return n, err
}
func (b *vfBroken) Close() error { return nil }

// Three logs: a, b (RFC 6962) and t (tiled).
func vfMetaOf(name byte, enrolled bool) types.CTLogMetadata {
	m := *vfMeta()
	switch name {
	case 'a':
		m.URL = "https://a.example/"
	case 'b':
		m.LogID = "BQIDBAUGBwgJCgsMDQ4PEBESExQVFhcYGRobHB0eHyA="
		m.URL = "https://b.example/2026/"
	case 't':
		m = *vfTMeta()
		m.LogID = "CQIDBAUGBwgJCgsMDQ4PEBESExQVFhcYGRobHB0eHyA="
	}
	m.CRLiteEnrolled = enrolled
	return m
}

var vfShort = map[byte]string{'a': "a.example", 'b': "b.example/2026", 't': "tiled.example"}

// vfMetas: upper case letters are records that are not enrolled.
func vfMetas(list string) []types.CTLogMetadata {
	ms := []types.CTLogMetadata{}
	for _, c := range []byte(list) {
		if c >= 'a' {
			ms = append(ms, vfMetaOf(c, true))
		} else {
			ms = append(ms, vfMetaOf(c+'a'-'A', false))
		}
	}
	return ms
}

func vfJSON(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(b)
}

func vfRemote(list string) string { return `{"data":` + vfJSON(vfMetas(list)) + `}` }

// vfApply is what a refresh does to the enrolled set: records in order, the last word on a log counts.
func vfApply(set map[byte]bool, list string) {
	for _, c := range []byte(list) {
		if c >= 'a' {
			set[c] = true
		} else {
			delete(set, c+'a'-'A')
		}
	}
}

type vfGrowing struct {
	*vfRfc
	size  func() int
	alive []int64 // times of requests
}

// The answers take time.
func (l *vfGrowing) GetRawEntries(a, b int64) (*ct.GetEntriesResponse, error) {
	vf.SleepNs(1e8)
	return l.vfRfc.GetRawEntries(a, b)
}

func (l *vfGrowing) GetSTH() (*ct.SignedTreeHead, error) {
	vf.SleepNs(1e8)
	l.alive = append(l.alive, env.NowNs())
	if l.size != nil {
		l.n = l.size()
	}
	return l.vfRfc.GetSTH()
}

const vfSize = 5

func vfLogs() (a, b *vfGrowing, t *vfTiled) {
	env.Reset()
	redis.VFServer = redis.NewServer()
	t = vfNewTiled(vfSize, func(i int) int64 { return 1690000000000 + int64(i) })
	max := 9
	r := vfNewRfc(max, func(i int) uint64 { return 1690000000000 + uint64(i) })
	for i := 0; i < vfSize; i++ { // the registry was emptied
		t.entries[i].Certificate = []byte(vfCertName(i))
	}
	t.issuers = map[string][]byte{}
	t.vfIssuer(1, vfIssuerDER)
	r2 := *r
	r.n, r2.n = vfSize, vfSize
	a, b = &vfGrowing{vfRfc: r}, &vfGrowing{vfRfc: &r2}
	client.VFLogs = map[string]client.VFLog{"https://a.example/": a, "https://b.example/2026/": b}
	sunlight.VFLogs = map[string]sunlight.VFLog{vfTURL: t}
	os.VFMkdir("/work/db")
	os.Setenv("certPath", "/work/db")
	os.Setenv("redisHost", "x")
	os.Setenv("batchSize", "8")
	os.Setenv("pollingDelay", "1")
	return
}

// vfServe answers requests for the list.
func vfServe(f func() (*http.Response, error)) {
	os.Setenv("remoteSettingsURL", "https://settings.example/v1/")
	http.VFHandler = func(r *http.Request) (*http.Response, error) {
		if r.URL.String() != "https://settings.example/v1/buckets/security-state/collections/ct-logs/records" {
			return nil, errors.New("no such host")
		}
		return f()
	}
}

// vfFetched compares what was fetched with what is enrolled.
func vfFetched(a, b *vfGrowing, t *vfTiled, set map[byte]bool, all bool) {
	for name, short := range vfShort {
		s := vfState(short)
		if !set[name] {
			vf.Assert(s == nil, "a log that is not enrolled is not fetched")
		} else if all {
			vf.Assert(s != nil && s.MinEntry == 0 && s.MaxEntry == vfSize-1, "every enrolled log is fetched")
		}
	}
	for name, l := range map[byte]*vfGrowing{'a': a, 'b': b} {
		if !set[name] {
			vf.Assert(len(l.alive) == 0 && len(l.got) == 0, "a log that is not enrolled is not contacted")
		} else if all {
			vf.Assert(len(l.alive) == 1, "an enrolled log is fetched once")
		}
	}
}

// A configured list; every schedule.
func VF_C08_main() {
	a, b, t := vfLogs()
	k := vf.Choose("list", 8)
	list := []string{"a", "aBt", "ab", "tt", "A", "", "bb", "Bt"}[k]
	if k == 0 {
		vf.Delays(2)
	} else {
		vf.Delays(vf.Bound("delays", 1, 2))
	}
	os.Setenv("ctLogMetadata", vfJSON(vfMetas(list)))
	how := env.Run(main)
	vf.Assert(how == "exited", "the program ends")
	set := map[byte]bool{}
	for _, c := range []byte(list) {
		if c >= 'a' {
			set[c] = true
		}
	}
	vfFetched(a, b, t, set, true)
}

// vfBad are refreshes that fail.
func vfBad(kind int, list string) (*http.Response, error) {
	body := vfRemote(list)
	switch kind {
	case 0:
		return nil, errors.New("no route")
	case 1:
		return vfAnswer(500, body), nil
	case 2:
		return vfAnswer(404, body), nil
	case 3:
		return vfAnswer(200, body[:len(body)-2]), nil
	case 4:
		return vfAnswer(200, `{"records":`+body[8:]), nil
	case 5:
		return vfAnswer(200, `{"data":`+body[8:len(body)-2]+`,{"mmd":"x"}]}`), nil
	case 6:
		return vfAnswer(200, ""), nil
	case 7:
		return vfAnswer(200, `[]`), nil
	case 8:
		r := vfAnswer(200, "")
		r.Body = &vfBroken{strings.NewReader(body)}
		return r, nil
	}
	return vfAnswer(204, ""), nil
}

const vfBads = 10

// A configured list and one from remote settings; failing requests.
func VF_C08_once() {
	a, b, t := vfLogs()
	local := []string{"", "a", "A"}[vf.Choose("local", 3)]
	list := []string{"a", "abT", "AbT", "t", "bB"}[vf.Choose("remote", 5)]
	set := map[byte]bool{}
	vfApply(set, strings.ToLower(strings.ReplaceAll(local, "A", "")))
	if local != "" {
		os.Setenv("ctLogMetadata", vfJSON(vfMetas(local)))
	}
	all := true
	kind := vf.Choose("answer", vfBads+2)
	switch {
	case kind < vfBads:
		vfServe(func() (*http.Response, error) { return vfBad(kind, list) })
	case kind == vfBads:
		vfServe(func() (*http.Response, error) { return vfAnswer(200, vfRemote(list)), nil })
		if !(local == "a" && list == "AbT") { // enrolled at first, then not: either
			vfApply(set, list)
		} else {
			set['b'] = true
			all = false
		}
		if list == "bB" {
			all, set['b'] = false, true
		}
	default:
		vfServe(func() (*http.Response, error) { return vfAnswer(200, vfRemote(list)), nil })
		env.FaultAt = int(vf.Below("fails at", 64))
		env.FaultOnly = []string{"ct ", "http ", "tiled ", "redis."}[vf.Choose("what fails", 4)]
		vfApply(set, list)
		if local == "a" || list == "bB" {
			set['a'], set['b'] = true, true
		}
		all = false
	}
	how := env.Run(main)
	vf.Assert(how == "exited", "the program ends")
	vfFetched(a, b, t, set, all)
}

// The refresh by itself: what is enrolled and what is started after each.
func VF_C08_refresh() {
	env.Reset()
	*ctconfig.RemoteSettingsURL = []string{"https://settings.example/v1/", "http://settings.example/v1/"}[vf.Choose("base", 2)]
	var next func() (*http.Response, error)
	http.VFHandler = func(r *http.Request) (*http.Response, error) {
		vf.Assert(r.URL.String() == "https://settings.example/v1/buckets/security-state/collections/ct-logs/records", "the list is asked for")
		return next()
	}
	el := NewEnrolledLogs()
	started := map[byte]int{}
	done := make(chan bool)
	go func() {
		for m := range el.NewChan {
			for _, c := range []byte("abt") {
				if m == vfMetaOf(c, true) {
					started[c]++
				}
			}
		}
		done <- true
	}()
	set := map[byte]bool{}
	want := map[byte]int{}
	for i := 0; i < vf.Bound("refreshes", 3, 4); i++ {
		lists := []string{"a", "A", "ab", "Bt", "aA", "Aa", "aa", ""}
		list := "ab"
		k := vf.Choose("answer", vfBads+len(lists))
		if k >= vfBads {
			list = lists[k-vfBads]
			k = vfBads
		}
		next = func() (*http.Response, error) {
			if k < vfBads {
				return vfBad(k, list)
			}
			return vfAnswer(200, vfRemote(list)), nil
		}
		err := el.updateFromRemoteSettingsOnce()
		vf.Assert((err != nil) == (k < vfBads), "a failed refresh is reported")
		if k == vfBads {
			for _, c := range []byte(list) {
				if c >= 'a' && !set[c] {
					want[c]++
				}
				vfApply(set, string(c))
			}
		}
		for _, c := range []byte("abt") {
			m := vfMetaOf(c, true)
			vf.Assert(el.IsEnrolled(m.LogID) == set[c], "exactly the logs of the list are enrolled")
		}
		vf.Assert(el.Count() == len(set), "no other log is enrolled")
	}
	el.Finalize()
	<-done
	for _, c := range []byte("abt") {
		vf.Assert(started[c] == want[c], "a log is started whenever it becomes enrolled")
	}
}

// For ever, with the list changing while the log grows. The log moves to another address in some lists.
func VF_C08_forever() {
	a, _, _ := vfLogs()
	r := *a.vfRfc
	moved := &vfGrowing{vfRfc: &r}
	client.VFLogs["https://moved.example/"] = moved
	mm := vfMetaOf('a', true)
	mm.URL = "https://moved.example/"
	which := vf.Choose("polling delay", 3)
	delay := []int{3, 25, 70}[which]
	os.Setenv("runForever", "true")
	os.Setenv("pollingDelay", []string{"3", "25", "70"}[which])
	os.Setenv("remoteSettingsUpdateInterval", "20")
	os.Setenv("batchSize", "4")
	lists := []int{}
	for i := 0; i < vf.Bound("refreshes", 4, 5); i++ {
		lists = append(lists, vf.Choose("list", 3)) // not enrolled, enrolled, enrolled at the other address
	}
	n := -1
	vfServe(func() (*http.Response, error) {
		if n < len(lists)-1 {
			n++
		}
		switch lists[n] {
		case 1:
			return vfAnswer(200, vfRemote("a")), nil
		case 2:
			return vfAnswer(200, `{"data":`+vfJSON([]types.CTLogMetadata{mm})+`}`), nil
		}
		return vfAnswer(200, vfRemote("A")), nil
	})
	last := 0 // what is enrolled at the end
	for _, k := range lists {
		if k == 0 || last == 0 {
			last = k
		}
	}
	sec := func() int { return int((env.NowNs() - env.Base.UnixNano()) / 1e9) }
	a.size = func() int {
		s := 4 + sec()/20
		if s > 9 {
			s = 9
		}
		return s
	}
	moved.size = a.size
	env.Hook = func(op string) {
		if op == "redis.get" { // what was queued is saved by the time the state is read
			vf.SleepNs(1e8)
		}
		if sec() > 20*len(lists)+800 {
			env.Exit()
		}
	}
	how := env.Run(main)
	vf.Assert(how == "exited", "the program goes on")
	for i, l := range []*vfGrowing{a, moved} {
		seen := map[uint64]bool{}
		for _, r := range l.got {
			for i := r.first; i <= r.second; i++ {
				vf.Assert(!seen[i], "every entry is downloaded once")
				seen[i] = true
			}
		}
		// A downloader that has nothing to do asks for the tree head once per polling delay.
		polls := 0
		for _, t := range l.alive {
			if t > env.NowNs()-600e9 {
				polls++
			}
		}
		if last == i+1 {
			vf.Assert(polls > 600/delay/2, "an enrolled log is polled")
			vf.Assert(polls < 600/delay*14/10+4, "a log has one downloader")
			for i := uint64(0); i < 9; i++ {
				vf.Assert(seen[i], "every entry of an enrolled log is downloaded")
			}
		} else {
			vf.Assert(polls == 0, "a log that is no longer enrolled is not polled")
		}
	}
}
