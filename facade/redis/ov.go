// Package redis is a model of a Redis server and of the go-redis client API crlite uses.
package redis

import (
	"errors"
	"fmt"
	"strconv"
	"time"

	"github.com/mozilla/crlite/go/zzvf/env"
	"github.com/mozilla/crlite/go/zzvf/vf"
)

type rerr string

func (e rerr) Error() string { return string(e) }

// Nil reply returned by Redis when key does not exist.
const Nil = rerr("redis: nil")

var errWrongType = rerr("WRONGTYPE Operation against a key holding the wrong kind of value")
var ErrClosed = errors.New("redis: client is closed")

const TxFailedErr = rerr("redis: transaction failed")

type item struct {
	key   string
	isSet bool
	str   string
	set   []string
	exp   int64 // ns, -1: none
	ver   int
}

// Server is the modelled server.
type Server struct {
	items []*item
	ver   int
	// OOMAt is the index of the growing command that is refused with OOM; -1 none.
	OOMAt, grow int
	// PageSize of scan replies; Dup makes every page repeat its first element.
	PageSize int
	Dup      bool
	// MemInfo is the reply to INFO memory.
	MemInfo string
}

func NewServer() *Server {
	return &Server{OOMAt: -1, PageSize: 2, MemInfo: "maxmemory_policy:noeviction"}
}

var VFServer = NewServer()

func (s *Server) now() int64 { return env.NowNs() }

func (s *Server) drop(i int) {
	s.items = append(append([]*item{}, s.items[:i]...), s.items[i+1:]...)
}

func (s *Server) find(key string) *item {
	for i, it := range s.items {
		if it.key == key {
			if it.exp >= 0 && it.exp <= s.now() {
				s.drop(i)
				return nil
			}
			return it
		}
	}
	return nil
}

func (s *Server) del(key string) bool {
	if s.find(key) == nil {
		return false
	}
	for i, it := range s.items {
		if it.key == key {
			s.drop(i)
			return true
		}
	}
	return false
}

func (s *Server) put(key string, isSet bool) *item {
	it := s.find(key)
	if it == nil {
		it = &item{key: key, isSet: isSet, exp: -1}
		s.items = append(s.items, it)
	}
	s.ver++
	it.ver = s.ver
	return it
}

// VFSet, VFAdd, VFGet, VFMembers, VFKeys, VFExpiry give harnesses direct access.
func (s *Server) VFSet(key, val string) { it := s.put(key, false); it.str = val; it.exp = -1 }
func (s *Server) VFAdd(key string, m string) {
	it := s.put(key, true)
	for _, x := range it.set {
		if x == m {
			return
		}
	}
	it.set = append(it.set, m)
}
func (s *Server) VFGet(key string) (string, bool) {
	it := s.find(key)
	if it == nil {
		return "", false
	}
	return it.str, true
}
func (s *Server) VFMembers(key string) []string {
	it := s.find(key)
	if it == nil {
		return nil
	}
	return it.set
}
func (s *Server) VFDel(key string) { s.del(key) }
func (s *Server) VFKeys() []string {
	var r []string
	for _, it := range append([]*item{}, s.items...) {
		if s.find(it.key) != nil {
			r = append(r, it.key)
		}
	}
	return r
}
func (s *Server) VFExpiryNs(key string) int64 {
	it := s.find(key)
	if it == nil {
		return -2
	}
	return it.exp
}

func (s *Server) VFClone() *Server {
	c := *s
	c.items = nil
	for _, it := range s.items {
		n := *it
		n.set = append([]string{}, it.set...)
		c.items = append(c.items, &n)
	}
	return &c
}

func (s *Server) oom() error {
	k := s.grow
	s.grow++
	if s.OOMAt >= 0 && k == s.OOMAt {
		return rerr("OOM command not allowed when used memory > 'maxmemory'.")
	}
	return nil
}

func arg(v interface{}) (string, error) {
	switch v := v.(type) {
	case nil:
		return "", nil
	case string:
		return v, nil
	case []byte:
		return string(v), nil
	case int:
		return strconv.FormatInt(int64(v), 10), nil
	case int8:
		return strconv.FormatInt(int64(v), 10), nil
	case int16:
		return strconv.FormatInt(int64(v), 10), nil
	case int32:
		return strconv.FormatInt(int64(v), 10), nil
	case int64:
		return strconv.FormatInt(v, 10), nil
	case uint:
		return strconv.FormatUint(uint64(v), 10), nil
	case uint8:
		return strconv.FormatUint(uint64(v), 10), nil
	case uint16:
		return strconv.FormatUint(uint64(v), 10), nil
	case uint32:
		return strconv.FormatUint(uint64(v), 10), nil
	case uint64:
		return strconv.FormatUint(v, 10), nil
	case bool:
		if v {
			return "1", nil
		}
		return "0", nil
	}
	return "", fmt.Errorf("redis: can't marshal %T (implement encoding.BinaryMarshaler)", v)
}

func args(src []interface{}) ([]string, error) {
	if len(src) == 1 {
		if ss, ok := src[0].([]string); ok {
			return append([]string{}, ss...), nil
		}
	}
	var out []string
	for _, v := range src {
		s, err := arg(v)
		if err != nil {
			return nil, err
		}
		out = append(out, s)
	}
	return out, nil
}

// Cmder is a command: run executes it on the server.
type Cmder interface {
	Err() error
	Name() string
	exec(s *Server)
	setErr(error)
	mutates() bool
}

type base struct {
	name string
	mut  bool
	f    func(s *Server) error
	err  error
}

func (b *base) Err() error     { return b.err }
func (b *base) Name() string   { return b.name }
func (b *base) setErr(e error) { b.err = e }
func (b *base) mutates() bool  { return b.mut }
func (b *base) exec(s *Server) { b.err = b.f(s) }

type runner func(c Cmder)

type IntCmd struct {
	base
	val int64
}

func (c *IntCmd) Val() int64             { return c.val }
func (c *IntCmd) Result() (int64, error) { return c.val, c.err }

type BoolCmd struct {
	base
	val bool
}

func (c *BoolCmd) Val() bool             { return c.val }
func (c *BoolCmd) Result() (bool, error) { return c.val, c.err }

type StatusCmd struct {
	base
	val string
}

func (c *StatusCmd) Val() string             { return c.val }
func (c *StatusCmd) Result() (string, error) { return c.val, c.err }

type DurationCmd struct {
	base
	val time.Duration
}

func (c *DurationCmd) Val() time.Duration             { return c.val }
func (c *DurationCmd) Result() (time.Duration, error) { return c.val, c.err }

type StringCmd struct {
	base
	val string
}

func (c *StringCmd) Val() string             { return c.val }
func (c *StringCmd) Result() (string, error) { return c.val, c.err }
func (c *StringCmd) Bytes() ([]byte, error) {
	if c.err != nil {
		return nil, c.err
	}
	return []byte(c.val), nil
}
func (c *StringCmd) Int() (int, error) {
	if c.err != nil {
		return 0, c.err
	}
	return strconv.Atoi(c.val)
}
func (c *StringCmd) Int64() (int64, error) {
	if c.err != nil {
		return 0, c.err
	}
	return strconv.ParseInt(c.val, 10, 64)
}
func (c *StringCmd) Uint64() (uint64, error) {
	if c.err != nil {
		return 0, c.err
	}
	return strconv.ParseUint(c.val, 10, 64)
}

type StringSliceCmd struct {
	base
	val []string
}

func (c *StringSliceCmd) Val() []string             { return c.val }
func (c *StringSliceCmd) Result() ([]string, error) { return c.val, c.err }

type StringStructMapCmd struct {
	base
	val map[string]struct{}
}

func (c *StringStructMapCmd) Val() map[string]struct{}             { return c.val }
func (c *StringStructMapCmd) Result() (map[string]struct{}, error) { return c.val, c.err }

type Cmd struct {
	base
	val interface{}
}

func (c *Cmd) Val() interface{}             { return c.val }
func (c *Cmd) Result() (interface{}, error) { return c.val, c.err }
func (c *Cmd) Int() (int, error) {
	if c.err != nil {
		return 0, c.err
	}
	if v, ok := c.val.(int64); ok {
		return int(v), nil
	}
	return 0, errors.New("redis: unexpected type")
}
func (c *Cmd) Int64() (int64, error) {
	v, err := c.Int()
	return int64(v), err
}

// ScanCmd pages through a snapshot.
type ScanCmd struct {
	base
	run    runner
	page   []string
	cursor uint64
	snap   []string
	taken  bool
}

func (c *ScanCmd) Val() ([]string, uint64)           { return c.page, c.cursor }
func (c *ScanCmd) Result() ([]string, uint64, error) { return c.page, c.cursor, c.err }
func (c *ScanCmd) Iterator() *ScanIterator           { return &ScanIterator{cmd: c} }

type ScanIterator struct {
	cmd *ScanCmd
	pos int
}

func (it *ScanIterator) Err() error { return it.cmd.err }
func (it *ScanIterator) Val() string {
	if it.cmd.err == nil && it.pos > 0 && it.pos <= len(it.cmd.page) {
		return it.cmd.page[it.pos-1]
	}
	return ""
}
func (it *ScanIterator) Next() bool {
	if it.cmd.err != nil {
		return false
	}
	if it.pos < len(it.cmd.page) {
		it.pos++
		return true
	}
	for {
		if it.cmd.cursor == 0 {
			return false
		}
		it.cmd.run(it.cmd)
		if it.cmd.err != nil {
			return false
		}
		it.pos = 1
		if len(it.cmd.page) > 0 {
			return true
		}
	}
}

type Options struct {
	Network, Addr, Password          string
	DB                               int
	MaxRetries                       int
	MinRetryBackoff, MaxRetryBackoff time.Duration
	DialTimeout                      time.Duration
	ReadTimeout, WriteTimeout        time.Duration
	PoolSize, MinIdleConns           int
	MaxConnAge, PoolTimeout          time.Duration
	IdleTimeout, IdleCheckFrequency  time.Duration
}

type cmdable struct {
	run runner
	srv *Server
}

type Client struct {
	cmdable
	opt *Options
}

func NewClient(opt *Options) *Client {
	s := VFServer
	c := &Client{opt: opt}
	c.srv = s
	c.run = func(cmd Cmder) { runOne(s, cmd) }
	return c
}

func (c *Client) Options() *Options { return c.opt }
func (c *Client) Close() error      { return nil }

// Lost, when it names a command, makes its reply get lost: it takes effect but reports an error.
var Lost string

func runOne(s *Server, cmd Cmder) {
	if err := env.Op("redis."+cmd.Name(), cmd.mutates()); err != nil {
		cmd.setErr(err)
		return
	}
	vf.Lock()
	cmd.exec(s)
	vf.Unlock()
	if Lost != "" && Lost == cmd.Name() {
		cmd.setErr(env.ErrInjected)
	}
}

// Pipeline

type Pipeliner interface {
	Do(args ...interface{}) *Cmd
	Exec() ([]Cmder, error)
	Discard() error
	Close() error
	Get(key string) *StringCmd
	Set(key string, value interface{}, expiration time.Duration) *StatusCmd
	SetNX(key string, value interface{}, expiration time.Duration) *BoolCmd
	Del(keys ...string) *IntCmd
	Incr(key string) *IntCmd
	IncrBy(key string, n int64) *IntCmd
	Exists(keys ...string) *IntCmd
	Expire(key string, d time.Duration) *BoolCmd
	ExpireAt(key string, tm time.Time) *BoolCmd
	TTL(key string) *DurationCmd
	SAdd(key string, members ...interface{}) *IntCmd
	SRem(key string, members ...interface{}) *IntCmd
	SMembers(key string) *StringSliceCmd
	SIsMember(key string, member interface{}) *BoolCmd
	SCard(key string) *IntCmd
	Eval(script string, keys []string, args ...interface{}) *Cmd
}

type Pipeline struct {
	cmdable
	cmds []Cmder
	tx   bool
}

func (p *Pipeline) Discard() error { p.cmds = nil; return nil }
func (p *Pipeline) Close() error   { p.cmds = nil; return nil }
func (p *Pipeline) Exec() ([]Cmder, error) {
	cs := p.cmds
	p.cmds = nil
	if len(cs) == 0 {
		return nil, nil
	}
	if p.tx {
		mut := false
		for _, c := range cs {
			mut = mut || c.mutates()
		}
		if err := env.Op("redis.exec", mut); err != nil {
			for _, c := range cs {
				c.setErr(err)
			}
			return cs, err
		}
		vf.Lock()
		for _, c := range cs {
			c.exec(p.srv)
		}
		vf.Unlock()
	} else {
		var broken error
		for _, c := range cs {
			if broken != nil {
				c.setErr(broken)
				continue
			}
			if err := env.Op("redis."+c.Name(), c.mutates()); err != nil {
				broken = err
				c.setErr(err)
				continue
			}
			vf.Lock()
			c.exec(p.srv)
			vf.Unlock()
		}
	}
	for _, c := range cs {
		if c.Err() != nil {
			return cs, c.Err()
		}
	}
	return cs, nil
}

func (c *Client) pipe(tx bool) *Pipeline {
	p := &Pipeline{tx: tx}
	p.srv = c.srv
	p.run = func(cmd Cmder) { p.cmds = append(p.cmds, cmd) }
	return p
}
func (c *Client) Pipeline() Pipeliner   { return c.pipe(false) }
func (c *Client) TxPipeline() Pipeliner { return c.pipe(true) }
func (c *Client) Pipelined(fn func(Pipeliner) error) ([]Cmder, error) {
	p := c.pipe(false)
	if err := fn(p); err != nil {
		return nil, err
	}
	return p.Exec()
}
func (c *Client) TxPipelined(fn func(Pipeliner) error) ([]Cmder, error) {
	p := c.pipe(true)
	if err := fn(p); err != nil {
		return nil, err
	}
	return p.Exec()
}

// Tx is an optimistic transaction.
type Tx struct {
	cmdable
	keys []string
	vers []int
}

func (c *Client) version(k string) int {
	if it := c.srv.find(k); it != nil {
		return it.ver
	}
	return 0
}

func (c *Client) Watch(fn func(*Tx) error, keys ...string) error {
	t := &Tx{keys: keys}
	t.srv, t.run = c.srv, c.run
	if err := env.Op("redis.watch", false); err != nil {
		return err
	}
	for _, k := range keys {
		t.vers = append(t.vers, c.version(k))
	}
	return fn(t)
}

func (t *Tx) Pipelined(fn func(Pipeliner) error) ([]Cmder, error) {
	c := &Client{}
	c.srv, c.run = t.srv, t.run
	p := c.pipe(true)
	if err := fn(p); err != nil {
		return nil, err
	}
	cs := p.cmds
	p.cmds = nil
	if len(cs) == 0 {
		return nil, nil
	}
	if err := env.Op("redis.exec", true); err != nil {
		return cs, err
	}
	for i, k := range t.keys {
		if c.version(k) != t.vers[i] {
			return cs, TxFailedErr
		}
	}
	var first error
	for _, x := range cs {
		x.exec(t.srv)
		if x.Err() != nil && first == nil {
			first = x.Err()
		}
	}
	return cs, first
}
func (t *Tx) TxPipelined(fn func(Pipeliner) error) ([]Cmder, error) { return t.Pipelined(fn) }

// Commands

func (c *cmdable) Do(a ...interface{}) *Cmd {
	r := &Cmd{}
	r.name, r.mut = "do", true
	ss, err := args(a)
	if err != nil || len(ss) == 0 {
		r.err = err
		return r
	}
	r.f = func(s *Server) error {
		if ss[0] == "eval" || ss[0] == "EVAL" {
			return evalScript(s, r, ss[1], ss[3:4], ss[4:])
		}
		panic("redis model: Do " + ss[0])
	}
	c.run(r)
	return r
}

func (c *cmdable) Ping() *StatusCmd {
	r := &StatusCmd{}
	r.name = "ping"
	r.f = func(s *Server) error { r.val = "PONG"; return nil }
	c.run(r)
	return r
}

func (c *cmdable) Info(section ...string) *StringCmd {
	r := &StringCmd{}
	r.name = "info"
	r.f = func(s *Server) error { r.val = s.MemInfo; return nil }
	c.run(r)
	return r
}

func (c *cmdable) Get(key string) *StringCmd {
	r := &StringCmd{}
	r.name = "get"
	r.f = func(s *Server) error {
		it := s.find(key)
		if it == nil {
			return Nil
		}
		if it.isSet {
			return errWrongType
		}
		r.val = it.str
		return nil
	}
	c.run(r)
	return r
}

func (c *cmdable) Set(key string, value interface{}, expiration time.Duration) *StatusCmd {
	r := &StatusCmd{}
	r.name, r.mut = "set", true
	v, aerr := arg(value)
	r.f = func(s *Server) error {
		if aerr != nil {
			return aerr
		}
		if err := s.oom(); err != nil {
			return err
		}
		s.del(key)
		it := s.put(key, false)
		it.str = v
		if expiration > 0 {
			it.exp = s.now() + int64(expiration/time.Millisecond)*1000000
		}
		r.val = "OK"
		return nil
	}
	c.run(r)
	return r
}

func (c *cmdable) SetNX(key string, value interface{}, expiration time.Duration) *BoolCmd {
	r := &BoolCmd{}
	r.name, r.mut = "setnx", true
	v, aerr := arg(value)
	r.f = func(s *Server) error {
		if aerr != nil {
			return aerr
		}
		if err := s.oom(); err != nil {
			return err
		}
		if s.find(key) != nil {
			return nil
		}
		it := s.put(key, false)
		it.str = v
		if expiration > 0 {
			it.exp = s.now() + int64(expiration/time.Millisecond)*1000000
		}
		r.val = true
		return nil
	}
	c.run(r)
	return r
}

func (c *cmdable) SetXX(key string, value interface{}, expiration time.Duration) *BoolCmd {
	r := &BoolCmd{}
	r.name, r.mut = "setxx", true
	v, aerr := arg(value)
	r.f = func(s *Server) error {
		if aerr != nil {
			return aerr
		}
		it := s.find(key)
		if it == nil {
			return nil
		}
		it.str, it.isSet, it.exp = v, false, -1
		if expiration > 0 {
			it.exp = s.now() + int64(expiration/time.Millisecond)*1000000
		}
		r.val = true
		return nil
	}
	c.run(r)
	return r
}

func (c *cmdable) Del(keys ...string) *IntCmd {
	r := &IntCmd{}
	r.name, r.mut = "del", true
	ks := append([]string{}, keys...)
	r.f = func(s *Server) error {
		for _, k := range ks {
			if s.del(k) {
				r.val++
			}
		}
		return nil
	}
	c.run(r)
	return r
}

func (c *cmdable) Unlink(keys ...string) *IntCmd { return c.Del(keys...) }

func (c *cmdable) IncrBy(key string, n int64) *IntCmd {
	r := &IntCmd{}
	r.name, r.mut = "incr", true
	r.f = func(s *Server) error {
		it := s.find(key)
		var v int64
		if it != nil {
			if it.isSet {
				return errWrongType
			}
			x, err := strconv.ParseInt(it.str, 10, 64)
			if err != nil {
				return rerr("ERR value is not an integer or out of range")
			}
			v = x
		}
		v += n
		it = s.put(key, false)
		it.str = strconv.FormatInt(v, 10)
		r.val = v
		return nil
	}
	c.run(r)
	return r
}
func (c *cmdable) Incr(key string) *IntCmd { return c.IncrBy(key, 1) }

func (c *cmdable) Exists(keys ...string) *IntCmd {
	r := &IntCmd{}
	r.name = "exists"
	ks := append([]string{}, keys...)
	r.f = func(s *Server) error {
		for _, k := range ks {
			if s.find(k) != nil {
				r.val++
			}
		}
		return nil
	}
	c.run(r)
	return r
}

func (c *cmdable) expire(name, key string, ms func(s *Server) int64) *BoolCmd {
	r := &BoolCmd{}
	r.name, r.mut = name, true
	r.f = func(s *Server) error {
		it := s.find(key)
		if it == nil {
			return nil
		}
		t := ms(s)
		if t <= s.now() {
			s.del(key)
		} else {
			it.exp = t
		}
		r.val = true
		return nil
	}
	c.run(r)
	return r
}
// satNs converts Unix seconds to nanoseconds, saturating.
func satNs(u int64) int64 {
	if u > 9000000000 {
		return 9000000000000000000
	}
	if u < 0 {
		return 0
	}
	return u * 1000000000
}

func (c *cmdable) Expire(key string, d time.Duration) *BoolCmd {
	return c.expire("expire", key, func(s *Server) int64 { return s.now() + int64(d/time.Second)*1000000000 })
}
func (c *cmdable) ExpireAt(key string, tm time.Time) *BoolCmd {
	u := tm.Unix()
	return c.expire("expireat", key, func(s *Server) int64 { return satNs(u) })
}
func (c *cmdable) PExpireAt(key string, tm time.Time) *BoolCmd {
	u := tm.UnixNano() / 1000000 * 1000000
	return c.expire("expireat", key, func(s *Server) int64 { return u })
}
func (c *cmdable) Persist(key string) *BoolCmd {
	r := &BoolCmd{}
	r.name, r.mut = "persist", true
	r.f = func(s *Server) error {
		if it := s.find(key); it != nil && it.exp >= 0 {
			it.exp = -1
			r.val = true
		}
		return nil
	}
	c.run(r)
	return r
}

func (c *cmdable) TTL(key string) *DurationCmd {
	r := &DurationCmd{}
	r.name = "ttl"
	r.f = func(s *Server) error {
		it := s.find(key)
		switch {
		case it == nil:
			r.val = -2 * time.Second
		case it.exp < 0:
			r.val = -1 * time.Second
		default:
			r.val = time.Duration((it.exp-s.now()+500000000)/1000000000) * time.Second
		}
		return nil
	}
	c.run(r)
	return r
}

func (c *cmdable) SAdd(key string, members ...interface{}) *IntCmd {
	r := &IntCmd{}
	r.name, r.mut = "sadd", true
	ms, aerr := args(members)
	r.f = func(s *Server) error {
		if aerr != nil {
			return aerr
		}
		if len(ms) == 0 {
			return rerr("ERR wrong number of arguments for 'sadd' command")
		}
		if err := s.oom(); err != nil {
			return err
		}
		if it := s.find(key); it != nil && !it.isSet {
			return errWrongType
		}
		it := s.put(key, true)
		for _, m := range ms {
			have := false
			for _, x := range it.set {
				if x == m {
					have = true
					break
				}
			}
			if !have {
				it.set = append(it.set, m)
				r.val++
			}
		}
		return nil
	}
	c.run(r)
	return r
}

func (c *cmdable) SRem(key string, members ...interface{}) *IntCmd {
	r := &IntCmd{}
	r.name, r.mut = "srem", true
	ms, aerr := args(members)
	r.f = func(s *Server) error {
		if aerr != nil {
			return aerr
		}
		if len(ms) == 0 {
			return rerr("ERR wrong number of arguments for 'srem' command")
		}
		it := s.find(key)
		if it == nil {
			return nil
		}
		if !it.isSet {
			return errWrongType
		}
		for _, m := range ms {
			for i, x := range it.set {
				if x == m {
					it.set = append(append([]string{}, it.set[:i]...), it.set[i+1:]...)
					r.val++
					break
				}
			}
		}
		if len(it.set) == 0 {
			s.del(key)
		}
		return nil
	}
	c.run(r)
	return r
}

func (c *cmdable) SMembers(key string) *StringSliceCmd {
	r := &StringSliceCmd{}
	r.name = "smembers"
	r.f = func(s *Server) error {
		it := s.find(key)
		r.val = []string{}
		if it == nil {
			return nil
		}
		if !it.isSet {
			return errWrongType
		}
		r.val = append(r.val, it.set...)
		return nil
	}
	c.run(r)
	return r
}

func (c *cmdable) SMembersMap(key string) *StringStructMapCmd {
	r := &StringStructMapCmd{}
	r.name = "smembers"
	r.f = func(s *Server) error {
		it := s.find(key)
		r.val = map[string]struct{}{}
		if it == nil {
			return nil
		}
		for _, m := range it.set {
			r.val[m] = struct{}{}
		}
		return nil
	}
	c.run(r)
	return r
}

func (c *cmdable) SIsMember(key string, member interface{}) *BoolCmd {
	r := &BoolCmd{}
	r.name = "sismember"
	m, aerr := arg(member)
	r.f = func(s *Server) error {
		if aerr != nil {
			return aerr
		}
		it := s.find(key)
		if it == nil {
			return nil
		}
		if !it.isSet {
			return errWrongType
		}
		for _, x := range it.set {
			if x == m {
				r.val = true
				break
			}
		}
		return nil
	}
	c.run(r)
	return r
}

func (c *cmdable) SCard(key string) *IntCmd {
	r := &IntCmd{}
	r.name = "scard"
	r.f = func(s *Server) error {
		it := s.find(key)
		if it == nil {
			return nil
		}
		if !it.isSet {
			return errWrongType
		}
		r.val = int64(len(it.set))
		return nil
	}
	c.run(r)
	return r
}

func (c *cmdable) scan(name string, snap func(s *Server) []string) *ScanCmd {
	r := &ScanCmd{run: c.run}
	r.name = name
	r.f = func(s *Server) error {
		if !r.taken {
			r.taken = true
			r.snap = snap(s)
		}
		n := s.PageSize
		if n <= 0 || n > len(r.snap) {
			n = len(r.snap)
		}
		page := append([]string{}, r.snap[:n]...)
		if s.Dup && n > 0 {
			page = append(page, page[0])
		}
		r.snap = r.snap[n:]
		r.page = page
		r.cursor = 0
		if len(r.snap) > 0 {
			r.cursor = uint64(len(r.snap))
		}
		return nil
	}
	c.run(r)
	return r
}

func (c *cmdable) SScan(key string, cursor uint64, match string, count int64) *ScanCmd {
	return c.scan("sscan", func(s *Server) []string {
		it := s.find(key)
		if it == nil {
			return nil
		}
		return append([]string{}, it.set...)
	})
}

// glob matches the patterns crlite uses: literals with '*'.
func glob(p, k string) bool {
	star := -1
	for i := 0; i < len(p); i++ {
		if p[i] == '*' || p[i] == '?' || p[i] == '[' {
			star = i
			break
		}
	}
	if star < 0 {
		return p == k
	}
	if star == len(p)-1 && p[star] == '*' {
		return len(k) >= star && k[:star] == p[:star]
	}
	for i := 0; i < len(p); i++ {
		if p[i] == '*' {
			for j := i; j <= len(k); j++ {
				if glob(p[i+1:], k[j:]) {
					return true
				}
			}
			return false
		}
		if i >= len(k) || p[i] != k[i] && p[i] != '?' {
			return false
		}
	}
	return len(p) == len(k)
}

func (s *Server) match(p string) []string {
	var r []string
	for _, k := range s.VFKeys() {
		if p == "" || glob(p, k) {
			r = append(r, k)
		}
	}
	return r
}

func (c *cmdable) Scan(cursor uint64, match string, count int64) *ScanCmd {
	return c.scan("scan", func(s *Server) []string { return s.match(match) })
}

func (c *cmdable) Keys(pattern string) *StringSliceCmd {
	r := &StringSliceCmd{}
	r.name = "keys"
	r.f = func(s *Server) error { r.val = s.match(pattern); return nil }
	c.run(r)
	return r
}

func contains(s, sub string) bool {
	for i := 0; i+len(sub) <= len(s); i++ {
		if s[i:i+len(sub)] == sub {
			return true
		}
	}
	return false
}

// evalScript runs the compare-and-delete script; other scripts are not modelled.
func evalScript(s *Server, r *Cmd, script string, keys, argv []string) error {
	low := ""
	for i := 0; i < len(script); i++ {
		ch := script[i]
		if ch >= 'A' && ch <= 'Z' {
			ch += 'a' - 'A'
		}
		if ch == '\'' {
			ch = '"'
		}
		low += string(rune(ch))
	}
	if contains(low, `redis.call("get"`) && contains(low, `redis.call("del"`) && len(keys) == 1 && len(argv) == 1 {
		it := s.find(keys[0])
		if it != nil && it.str == argv[0] {
			s.del(keys[0])
			r.val = int64(1)
			return nil
		}
		r.val = int64(0)
		return nil
	}
	panic("redis model: unknown script " + script)
}

func (c *cmdable) Eval(script string, keys []string, a ...interface{}) *Cmd {
	r := &Cmd{}
	r.name, r.mut = "eval", true
	ss, aerr := args(a)
	r.f = func(s *Server) error {
		if aerr != nil {
			return aerr
		}
		return evalScript(s, r, script, keys, ss)
	}
	c.run(r)
	return r
}

// Script is a server-side script.
type Script struct{ src string }

func NewScript(src string) *Script { return &Script{src} }

type scripter interface {
	Eval(script string, keys []string, args ...interface{}) *Cmd
}

func (s *Script) Run(c scripter, keys []string, a ...interface{}) *Cmd { return c.Eval(s.src, keys, a...) }
func (s *Script) Eval(c scripter, keys []string, a ...interface{}) *Cmd {
	return c.Eval(s.src, keys, a...)
}
