package main

import (
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var intrinsics map[string]Intrinsic
var redirects = map[string]string{
	"crypto/sha256.Sum256":            "RTSum256",
	"crypto/sha256.New":               "RTSha256New",
	"(crypto.Hash).New":               "RTHashNew",
	"(crypto.Hash).Available":         "RTHashAvailable",
	"errors.Is":                       "RTErrorsIs",
	"(*encoding/json.Encoder).Encode": "RTJSONEncode",
	"(*encoding/json.Decoder).Decode": "RTJSONDecode",
	"encoding/json.MarshalIndent":     "RTJSONMarshalIndent",
	"(*sync.Pool).Get":                "RTPoolGet",
	"(*sync.Pool).Put":                "RTPoolPut",
	"strings.Replace":                 "",
}

func (m *Machine) argStr(v Value) string {
	s, ok := v.(Str).concrete()
	if !ok {
		panic(unsupported{"symbolic string where a constant is needed"})
	}
	return s
}

func mkInt(i int) *Term { return BV(64, uint64(int64(i))) }

type mutexState struct {
	locked  bool
	readers int
	wwait   int
}

func sideOf[T any](m *Machine, p *Value) *T {
	if s, ok := m.side[p]; ok {
		return s.(*T)
	}
	s := new(T)
	m.side[p] = s
	return s
}

func (m *Machine) freshName(name string) string {
	k := m.nameCtr[name]
	m.nameCtr[name] = k + 1
	return fmt.Sprintf("%s#%d", name, k)
}

func (m *Machine) newVar(name string, w uint8) *Term {
	v := Var(fmt.Sprintf("%s:%d", name, w), w)
	if !m.varset[v] {
		m.varset[v] = true
		m.vars = append(m.vars, v)
	}
	return v
}

func (m *Machine) input(name, kind string, w uint8) *Term {
	n := m.freshName(name)
	v := m.newVar(n, w)
	m.inputs = append(m.inputs, inputRec{name: n, kind: kind, t: []*Term{v}, w: w})
	return v
}

func vfInt(w uint8) Intrinsic {
	return func(m *Machine, c *callCtx) Value { return m.input(m.argStr(c.args[0]), "u", w) }
}

func (m *Machine) inputBytes(name string, n int) []*Term {
	nm := m.freshName(name)
	ts := make([]*Term, n)
	for i := range ts {
		ts[i] = m.newVar(fmt.Sprintf("%s[%d]", nm, i), 8)
	}
	m.inputs = append(m.inputs, inputRec{name: nm, kind: "bytes", t: ts, w: 8})
	return ts
}

func (m *Machine) symHash(msg []*Term) []*Term {
	conc := true
	for _, t := range msg {
		if t.op != OConst {
			conc = false
			break
		}
	}
	for _, h := range m.hashes {
		if len(h.msg) == len(msg) {
			same := true
			for i := range msg {
				if msg[i] != h.msg[i] {
					same = false
					break
				}
			}
			if same {
				return h.out
			}
		}
	}
	var out []*Term
	if conc {
		b := make([]byte, len(msg))
		for i, t := range msg {
			b[i] = byte(t.val)
		}
		for _, c := range sha256sum(b) {
			out = append(out, BV(8, uint64(c)))
		}
	} else {
		var sb strings.Builder
		for _, t := range msg {
			fmt.Fprintf(&sb, "%d,", t.id)
		}
		hn := fmt.Sprintf("sha256!%x", sha256sum([]byte(sb.String()))[:12])
		for i := 0; i < 32; i++ {
			out = append(out, m.newVar(fmt.Sprintf("%s[%d]", hn, i), 8))
		}
		if _, ok := digestBytes.Load(out[0]); !ok {
			rec := &digestRec{msg: append([]*Term{}, msg...), out: append([]*Term{}, out...)}
			for i, t := range out {
				digestBytes.LoadOrStore(t, digestByte{rec, i})
			}
			if v, _ := digestBytes.Load(out[0]); v.(digestByte).rec != rec {
				// another worker was first: make every byte point at one record
				for i, t := range out {
					digestBytes.Store(t, digestByte{v.(digestByte).rec, i})
				}
			}
		}
		if _, ok := m.model[out[0]]; !ok {
			m.assignDigest(msg, out)
		}
	}
	m.hashes = append(m.hashes, hashRec{append([]*Term{}, msg...), out})
	return out
}

// assignDigest extends the current model with a value for a new digest: that of an equal message hashed
// before, else the real digest.
func (m *Machine) assignDigest(msg, out []*Term) {
	b := make([]byte, len(msg))
	for i, t := range msg {
		b[i] = byte(m.evalNow(t))
	}
	var val []byte
	for _, h := range m.hashes {
		if len(h.msg) != len(msg) {
			continue
		}
		same := true
		for i, t := range h.msg {
			if byte(m.evalNow(t)) != b[i] {
				same = false
				break
			}
		}
		if same {
			for _, t := range h.out {
				val = append(val, byte(m.evalNow(t)))
			}
			break
		}
	}
	if val == nil {
		val = sha256sum(b)
	}
	n := make(map[*Term]uint64, len(m.model)+32)
	for k, v := range m.model {
		n[k] = v
	}
	for i, t := range out {
		n[t] = uint64(val[i])
	}
	m.model = n
	for _, t := range out {
		delete(m.memo, t)
	}
}

// hashAxioms returns the collision-freedom facts about the digests on this path that mod contradicts.
func (m *Machine) hashAxioms(mod map[*Term]uint64) []*Term {
	if len(m.hashes) < 2 {
		return nil
	}
	memo := map[*Term]uint64{}
	type hv struct{ msg, out, full string }
	vs := make([]hv, len(m.hashes))
	for k, h := range m.hashes {
		b := make([]byte, len(h.msg))
		for i, t := range h.msg {
			b[i] = byte(eval(t, mod, memo))
		}
		o := make([]byte, len(h.out))
		for i, t := range h.out {
			o[i] = byte(eval(t, mod, memo))
		}
		vs[k] = hv{string(b), string(o)[:m.e.hashPrefix], string(o)}
	}
	byMsg, byOut := map[string]int{}, map[string]int{}
	var ax []*Term
	add := func(i, j int) {
		a, b := m.hashes[i], m.hashes[j]
		eqPre, eqOut := True, True
		for k := range a.out {
			if k == m.e.hashPrefix {
				eqPre = eqOut
			}
			eqOut = And(eqOut, Eq(a.out[k], b.out[k]))
		}
		if m.e.hashPrefix >= len(a.out) {
			eqPre = eqOut
		}
		if len(a.msg) != len(b.msg) {
			ax = append(ax, Not(eqPre))
			return
		}
		same := strEq(strOfBytes(a.msg), strOfBytes(b.msg))
		ax = append(ax, Eq(eqOut, same), Implies(eqPre, same))
	}
	for k, v := range vs {
		if j, ok := byMsg[v.msg]; ok {
			if vs[j].out != v.out || vs[j].full != v.full {
				add(j, k)
			}
		} else {
			byMsg[v.msg] = k
		}
		if j, ok := byOut[v.out]; ok {
			if vs[j].msg != v.msg {
				add(j, k)
			}
		} else {
			byOut[v.out] = k
		}
	}
	return ax
}

// check decides pc && extra, adding facts about digests as models contradict them.
func (m *Machine) check(extra *Term) (Result, map[*Term]uint64) {
	for {
		res, mod := m.solver.Check(m.pc, extra, m.vars)
		if res != Sat {
			return res, mod
		}
		ax := m.hashAxioms(mod)
		if len(ax) == 0 {
			return res, mod
		}
		m.pc = append(m.pc, ax...)
	}
}

func (m *Machine) observe(name string, v Value) {
	var o Value
	if iv, ok := v.(Iface); ok {
		if iv.t == nil {
			o = "nil"
		} else {
			switch x := iv.v.(type) {
			case *Term:
				if isSigned(iv.t) {
					o = Sext(64, x)
				} else {
					o = x
				}
			case Str:
				if x.lazy != nil && !x.lazy.done {
					o = "<lazy>"
				} else {
					o = x.terms()
				}
			case Slice:
				o = bytesToTerms(x)
			default:
				o = "?"
			}
		}
	}
	m.obs = append(m.obs, obsRec{name, o})
}

func init() {
	nop := func(m *Machine, c *callCtx) Value {
		res := c.fn.Signature.Results()
		if res.Len() == 0 {
			return nil
		}
		return zero(res)
	}
	vf := vfPath + "."
	intrinsics = map[string]Intrinsic{
		vf + "U64": vfInt(64),
		vf + "I64": vfInt(64),
		vf + "Int": vfInt(64),
		vf + "U32": vfInt(32),
		vf + "U16": vfInt(16),
		vf + "U8":  vfInt(8),
		vf + "Below": func(m *Machine, c *callCtx) Value {
			n := m.concretize(asTerm(c.args[1]))
			if n <= 1 {
				m.input(m.argStr(c.args[0]), "u", 1)
				return BV(64, 0)
			}
			w := uint8(bits.Len64(n - 1))
			name := m.freshName(m.argStr(c.args[0]))
			v := m.newVar(fmt.Sprintf("%s<%d", name, n), w)
			m.inputs = append(m.inputs, inputRec{name: name, kind: "u", t: []*Term{v}, w: w})
			if n-1 != mask(w) {
				v.setBound(n - 1)
				m.pc = append(m.pc, intern(OUlt, 0, 0, v, BV(w, n), nil))
			}
			return Zext(64, v)
		},
		vf + "Bool": func(m *Machine, c *callCtx) Value { return m.input(m.argStr(c.args[0]), "bool", 0) },
		vf + "Bytes": func(m *Machine, c *callCtx) Value {
			n := int(m.concretize(asTerm(c.args[1])))
			return termsToSlice(m.inputBytes(m.argStr(c.args[0]), n))
		},
		vf + "Str": func(m *Machine, c *callCtx) Value {
			n := int(m.concretize(asTerm(c.args[1])))
			return strOfBytes(m.inputBytes(m.argStr(c.args[0]), n))
		},
		vf + "Choose": func(m *Machine, c *callCtx) Value {
			n := int(m.concretize(asTerm(c.args[1])))
			name := m.freshName(m.argStr(c.args[0]))
			k := m.choose(n)
			m.inputs = append(m.inputs, inputRec{name: name, kind: "choose", v: k})
			return mkInt(k)
		},
		vf + "Concrete": func(m *Machine, c *callCtx) Value { return BV(64, m.concretize(asTerm(c.args[0]))) },
		vf + "Assume": func(m *Machine, c *callCtx) Value {
			m.assume(asTerm(c.args[0]))
			return nil
		},
		vf + "Assert": func(m *Machine, c *callCtx) Value {
			m.assert(asTerm(c.args[0]), m.argStr(c.args[1]), m.where())
			return nil
		},
		vf + "Reached": func(m *Machine, c *callCtx) Value {
			m.reachedNow = append(m.reachedNow, m.argStr(c.args[0]))
			return nil
		},
		vf + "Observe": func(m *Machine, c *callCtx) Value {
			m.observe(m.argStr(c.args[0]), c.args[1])
			return nil
		},
		vf + "Bound": func(m *Machine, c *callCtx) Value {
			k := asTerm(c.args[1])
			if m.e.tier == "thorough" {
				k = asTerm(c.args[2])
			}
			m.x.mu.Lock()
			m.x.bounds[m.argStr(c.args[0])] = int(int64(k.val))
			m.x.mu.Unlock()
			return k
		},
		vf + "Note":     func(m *Machine, c *callCtx) Value { m.note(m.argStr(c.args[0])); return nil },
		vf + "Exit":     func(m *Machine, c *callCtx) Value { panic(pathEnd{"exit"}) },
		vf + "Symbolic": func(m *Machine, c *callCtx) Value { return True },
		vf + "Sched": func(m *Machine, c *callCtx) Value {
			n := int(int64(asTerm(c.args[0]).val))
			m.sched = n >= 0
			m.preempt = n
			m.schedIO = false
			m.delays = false
			return nil
		},
		vf + "Order": func(m *Machine, c *callCtx) Value {
			if m.sched {
				n, ok := c.args[0].(Str).concrete()
				if !ok {
					n = "?"
				}
				m.order = append(m.order, n)
			}
			return nil
		},
		vf + "SchedIO": func(m *Machine, c *callCtx) Value {
			n := int(int64(asTerm(c.args[0]).val))
			m.sched = n >= 0
			m.preempt = n
			m.schedIO = true
			m.delays = false
			return nil
		},
		vf + "Delays": func(m *Machine, c *callCtx) Value {
			n := int(int64(asTerm(c.args[0]).val))
			m.sched = n >= 0
			m.preempt = n
			m.schedIO = false
			m.delays = true
			return nil
		},
		vf + "MapOrder": func(m *Machine, c *callCtx) Value { m.mapOrder = asTerm(c.args[0]) == True; return nil },
		vf + "And": func(m *Machine, c *callCtx) Value {
			r := True
			for _, v := range c.args[0].(Slice) {
				r = And(r, asTerm(v))
			}
			return r
		},
		vf + "Or": func(m *Machine, c *callCtx) Value {
			r := False
			for _, v := range c.args[0].(Slice) {
				r = Or(r, asTerm(v))
			}
			return r
		},
		vf + "Implies": func(m *Machine, c *callCtx) Value { return Implies(asTerm(c.args[0]), asTerm(c.args[1])) },
		vf + "IteU64": func(m *Machine, c *callCtx) Value {
			return Ite(asTerm(c.args[0]), asTerm(c.args[1]), asTerm(c.args[2]))
		},
		vf + "IteInt": func(m *Machine, c *callCtx) Value {
			return Ite(asTerm(c.args[0]), asTerm(c.args[1]), asTerm(c.args[2]))
		},
		vf + "Yield": func(m *Machine, c *callCtx) Value {
			if m.yieldIO(c.g) {
				return retryMark{}
			}
			return nil
		},
		vf + "SleepNs": func(m *Machine, c *callCtx) Value {
			g := c.g
			if g.why == "slept" {
				g.why = ""
				return nil
			}
			d := asTerm(c.args[0])
			if d.op != OConst {
				d = BV(64, 1000)
			}
			n := int64(d.val)
			if n < 0 {
				n = 0
			}
			g.blocked = true
			g.cond = nil
			g.why = "slept"
			g.wake = m.clock + n
			return retryMark{}
		},
		vf + "ClockNs":   func(m *Machine, c *callCtx) Value { return BV(64, uint64(m.clock)) },
		vf + "AdvanceNs": func(m *Machine, c *callCtx) Value { m.clock += int64(m.concretize(asTerm(c.args[0]))); return nil },
		vf + "Block": func(m *Machine, c *callCtx) Value {
			m.block(c.g, "stopped", nil)
			c.g.wake = -1
			return retryMark{}
		},
		// Idle waits until every other goroutine is finished or blocked.
		vf + "Idle": func(m *Machine, c *callCtx) Value {
			g := c.g
			busy := func() bool {
				for _, o := range m.gs {
					if o != g && m.ready(o) {
						return true
					}
				}
				return false
			}
			if busy() {
				m.block(g, "idle wait", func() bool { return !busy() })
				return retryMark{}
			}
			return nil
		},
		vf + "RTSha256": func(m *Machine, c *callCtx) Value {
			return Array(termsToSlice(m.symHash(bytesToTerms(c.args[0].(Slice)))))
		},
		vf + "rtEncWriter": func(m *Machine, c *callCtx) Value { return m.fieldByName(c.args[0], "encoding/json", "Encoder", "w") },
		vf + "rtDecReader": func(m *Machine, c *callCtx) Value { return m.fieldByName(c.args[0], "encoding/json", "Decoder", "r") },
		vf + "rtSideBytes": func(m *Machine, c *callCtx) Value {
			s := sideOf[Value](m, c.args[0].(*Value))
			if *s == nil {
				*s = Slice(nil)
			}
			return s
		},
		vf + "rtPoolNew": func(m *Machine, c *callCtx) Value { return m.fieldByName(c.args[0], "sync", "Pool", "New") },

		"bytes.Equal": func(m *Machine, c *callCtx) Value {
			return strEq(Str{b: bytesToTerms(c.args[0].(Slice))}, Str{b: bytesToTerms(c.args[1].(Slice))})
		},
		"crypto/subtle.ConstantTimeCompare": func(m *Machine, c *callCtx) Value {
			return Ite(strEq(Str{b: bytesToTerms(c.args[0].(Slice))}, Str{b: bytesToTerms(c.args[1].(Slice))}), mkInt(1), mkInt(0))
		},

		// ---- internal/bytealg ----
		"internal/bytealg.IndexByte": func(m *Machine, c *callCtx) Value {
			return m.indexByte(bytesToTerms(c.args[0].(Slice)), asTerm(c.args[1]))
		},
		"internal/bytealg.IndexByteString": func(m *Machine, c *callCtx) Value { return m.indexByte(c.args[0].(Str).terms(), asTerm(c.args[1])) },
		"internal/bytealg.LastIndexByteString": func(m *Machine, c *callCtx) Value {
			s := c.args[0].(Str).terms()
			for i := len(s) - 1; i >= 0; i-- {
				if m.branch(Eq(s[i], asTerm(c.args[1]))) {
					return mkInt(i)
				}
			}
			return mkInt(-1)
		},
		"internal/bytealg.Count": func(m *Machine, c *callCtx) Value {
			return m.countByte(bytesToTerms(c.args[0].(Slice)), asTerm(c.args[1]))
		},
		"internal/bytealg.CountString": func(m *Machine, c *callCtx) Value { return m.countByte(c.args[0].(Str).terms(), asTerm(c.args[1])) },
		"internal/bytealg.Equal": func(m *Machine, c *callCtx) Value {
			return strEq(Str{b: bytesToTerms(c.args[0].(Slice))}, Str{b: bytesToTerms(c.args[1].(Slice))})
		},
		"internal/bytealg.Compare": func(m *Machine, c *callCtx) Value {
			a, b := strOfBytes(bytesToTerms(c.args[0].(Slice))), strOfBytes(bytesToTerms(c.args[1].(Slice)))
			return Ite(strEq(a, b), mkInt(0), Ite(strLess(a, b), mkInt(-1), mkInt(1)))
		},
		"internal/bytealg.CompareString": func(m *Machine, c *callCtx) Value {
			a, b := c.args[0].(Str), c.args[1].(Str)
			return Ite(strEq(a, b), mkInt(0), Ite(strLess(a, b), mkInt(-1), mkInt(1)))
		},
		"internal/bytealg.Index": func(m *Machine, c *callCtx) Value {
			return m.indexStr(strOfBytes(bytesToTerms(c.args[0].(Slice))), strOfBytes(bytesToTerms(c.args[1].(Slice))))
		},
		"internal/bytealg.IndexString": func(m *Machine, c *callCtx) Value { return m.indexStr(c.args[0].(Str), c.args[1].(Str)) },
		"strings.Index":                func(m *Machine, c *callCtx) Value { return m.indexStr(c.args[0].(Str), c.args[1].(Str)) },
		"bytes.Index": func(m *Machine, c *callCtx) Value {
			return m.indexStr(strOfBytes(bytesToTerms(c.args[0].(Slice))), strOfBytes(bytesToTerms(c.args[1].(Slice))))
		},
		"internal/stringslite.Index": func(m *Machine, c *callCtx) Value { return m.indexStr(c.args[0].(Str), c.args[1].(Str)) },
		"internal/bytealg.MakeNoZero": func(m *Machine, c *callCtx) Value {
			n := int(m.concretize(asTerm(c.args[0])))
			return makeSlice(types.Typ[types.Uint8], n, n)
		},
		"internal/bytealg.abigen_runtime_cmpstring": nop,
		"strings.noescape":                          func(m *Machine, c *callCtx) Value { return c.args[0] },
		"internal/abi.NoEscape":                     func(m *Machine, c *callCtx) Value { return c.args[0] },
		"(*strings.Builder).copyCheck":              nop,
		"(*strings.Builder).String": func(m *Machine, c *callCtx) Value {
			st := (*m.asPtr(c.args[0])).(Struct)
			return strOfBytes(append([]*Term{}, bytesToTerms(st[1].(Slice))...))
		},
		"strings.Clone":              func(m *Machine, c *callCtx) Value { return c.args[0] },
		"internal/stringslite.Clone": func(m *Machine, c *callCtx) Value { return c.args[0] },

		// ---- sync ----
		"(*sync.Mutex).Lock": lockIntr,
		"(*sync.Mutex).TryLock": func(m *Machine, c *callCtx) Value {
			s := sideOf[mutexState](m, m.asPtr(c.args[0]))
			if s.locked {
				return False
			}
			s.locked = true
			m.raceAcquire(c, s, true)
			return True
		},
		"(*sync.Mutex).Unlock":          unlockIntr,
		"(*sync.RWMutex).Lock":          rwLock,
		"(*sync.RWMutex).Unlock":        unlockIntr,
		"(*sync.RWMutex).RLock":         rLock,
		"(*sync.RWMutex).RUnlock":       rUnlock,
		"(*internal/sync.Mutex).Lock":   lockIntr,
		"(*internal/sync.Mutex).Unlock": unlockIntr,
		"(*sync.WaitGroup).Add": func(m *Machine, c *callCtx) Value {
			w := sideOf[int](m, m.asPtr(c.args[0]))
			m.raceRelease(c, w, false)
			*w += int(int64(m.concretize(asTerm(c.args[1]))))
			if *w < 0 {
				m.rtErr("sync: negative WaitGroup counter")
			}
			return nil
		},
		"(*sync.WaitGroup).Done": func(m *Machine, c *callCtx) Value {
			w := sideOf[int](m, m.asPtr(c.args[0]))
			m.raceRelease(c, w, false)
			*w--
			if *w < 0 {
				m.rtErr("sync: negative WaitGroup counter")
			}
			return nil
		},
		"(*sync.WaitGroup).Wait": func(m *Machine, c *callCtx) Value {
			w := sideOf[int](m, m.asPtr(c.args[0]))
			if m.yieldPoint(c.g) {
				return retryMark{}
			}
			if *w > 0 {
				m.block(c.g, "WaitGroup.Wait", func() bool { return *w <= 0 })
				return retryMark{}
			}
			m.raceAcquire(c, w, false)
			return nil
		},
		"sync.runtime_registerPoolCleanup": nop,
		"sync.runtime_notifyListCheck":     nop,
		"sync.throw":                       func(m *Machine, c *callCtx) Value { m.rtErr("fatal: " + m.argStr(c.args[0])); return nil },
		"sync.fatal":                       func(m *Machine, c *callCtx) Value { m.rtErr("fatal: " + m.argStr(c.args[0])); return nil },
		"(*sync/atomic.Value).Load": func(m *Machine, c *callCtx) Value {
			m.raceSync(c, m.asPtr(c.args[0]))
			v := (*m.asPtr(c.args[0])).(Struct)[0]
			return v
		},
		"(*sync/atomic.Value).Store": func(m *Machine, c *callCtx) Value {
			m.raceSync(c, m.asPtr(c.args[0]))
			m.setp(&(*m.asPtr(c.args[0])).(Struct)[0], c.args[1])
			return nil
		},
		"(*sync/atomic.Value).Swap": func(m *Machine, c *callCtx) Value {
			p := &(*m.asPtr(c.args[0])).(Struct)[0]
			old := *p
			m.setp(p, c.args[1])
			return old
		},

		// ---- runtime and friends ----
		"runtime.Gosched":                           func(m *Machine, c *callCtx) Value { return nil },
		"runtime.GC":                                nop,
		"runtime.KeepAlive":                         nop,
		"runtime.SetFinalizer":                      nop,
		"runtime.NumCPU":                            func(m *Machine, c *callCtx) Value { return mkInt(4) },
		"runtime.GOMAXPROCS":                        func(m *Machine, c *callCtx) Value { return mkInt(4) },
		"runtime.NumGoroutine":                      func(m *Machine, c *callCtx) Value { return mkInt(1) },
		"runtime.Caller":                            nop,
		"runtime.Callers":                           nop,
		"runtime.Stack":                             nop,
		"internal/race.Enable":                      nop,
		"internal/godebug.New":                      func(m *Machine, c *callCtx) Value { return (*Value)(nil) },
		"(*internal/godebug.Setting).Value":         func(m *Machine, c *callCtx) Value { return Str{} },
		"(*internal/godebug.Setting).IncNonDefault": nop,
		"(*internal/godebug.Setting).Name":          func(m *Machine, c *callCtx) Value { return Str{} },
		"(*internal/godebug.Setting).String":        func(m *Machine, c *callCtx) Value { return Str{} },
		"internal/runtime/sys.GetCallerPC":          nop,
		"time.now": func(m *Machine, c *callCtx) Value {
			return Tuple{BV(64, 1_700_000_000), BV(32, 0), BV(64, 1_000_000)}
		},
		"time.runtimeNano": func(m *Machine, c *callCtx) Value { return BV(64, uint64(1_000_000+m.clock)) },
		"time.runtimeNow":  func(m *Machine, c *callCtx) Value { return Tuple{BV(64, 1_700_000_000), BV(32, 0), BV(64, 1_000_000)} },
		"time.newTimer": func(m *Machine, c *callCtx) Value {
			p := new(Value)
			*p = zero(m.e.namedType("time", "Timer"))
			return p
		},
		"time.stopTimer":  func(m *Machine, c *callCtx) Value { return True },
		"time.resetTimer": func(m *Machine, c *callCtx) Value { return True },
		"time.syncTimer":  nop,
		"time.initLocal":  nop,
		"time.Sleep": func(m *Machine, c *callCtx) Value {
			return intrinsics[vfPath+".SleepNs"](m, c)
		},

		// ---- math ----
		"math.Float64bits":     func(m *Machine, c *callCtx) Value { return BV(64, math.Float64bits(concF(c.args[0]))) },
		"math.Float64frombits": func(m *Machine, c *callCtx) Value { return math.Float64frombits(asConst(c.args[0])) },
		"math.Float32bits":     func(m *Machine, c *callCtx) Value { return BV(32, uint64(math.Float32bits(float32(concF(c.args[0]))))) },
		"math.Float32frombits": func(m *Machine, c *callCtx) Value { return float64(math.Float32frombits(uint32(asConst(c.args[0])))) },
		"math.Floor":           func(m *Machine, c *callCtx) Value { return math.Floor(concF(c.args[0])) },
		"math.Ceil":            func(m *Machine, c *callCtx) Value { return math.Ceil(concF(c.args[0])) },
		"math.Sqrt":            func(m *Machine, c *callCtx) Value { return math.Sqrt(concF(c.args[0])) },
		"math.Log2":            func(m *Machine, c *callCtx) Value { return math.Log2(concF(c.args[0])) },
		"math.Pow":             func(m *Machine, c *callCtx) Value { return math.Pow(concF(c.args[0]), concF(c.args[1])) },

		"math/bits.Len64":           bitsLen(64),
		"math/bits.Len32":           bitsLen(32),
		"math/bits.Len":             bitsLen(64),
		"math/bits.LeadingZeros64":  func(m *Machine, c *callCtx) Value { return Sub(mkInt(64), lenTerm(asTerm(c.args[0]))) },
		"math/bits.TrailingZeros64": func(m *Machine, c *callCtx) Value { return tzTerm(asTerm(c.args[0])) },
		"math/bits.TrailingZeros":   func(m *Machine, c *callCtx) Value { return tzTerm(asTerm(c.args[0])) },
		"math/bits.TrailingZeros32": func(m *Machine, c *callCtx) Value { return tzTerm(asTerm(c.args[0])) },

		// ---- reflectlite / reflect ----
		"internal/reflectlite.Swapper": swapperIntr,
		"reflect.Swapper":              swapperIntr,
		"errors.As":                    errorsAs,
		"sort.Slice":                   nil,
		"maps.clone":                   func(m *Machine, c *callCtx) Value { return m.mapClone(c.args[0]) },
		"reflect.DeepEqual":            func(m *Machine, c *callCtx) Value { return m.deepEqual(c.args[0], c.args[1]) },
	}
	delete(intrinsics, "sort.Slice")
	delete(redirects, "strings.Replace")
	// atomics on plain integers
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		for _, pk := range []string{"sync/atomic.", "internal/runtime/atomic."} {
			intrinsics[pk+"Load"+ty] = func(m *Machine, c *callCtx) Value { m.raceSync(c, c.args[0]); return m.load(c.args[0]) }
			intrinsics[pk+"Store"+ty] = func(m *Machine, c *callCtx) Value {
				m.raceSync(c, c.args[0])
				m.storePtr(c.args[0], c.args[1])
				return nil
			}
			intrinsics[pk+"Add"+ty] = func(m *Machine, c *callCtx) Value {
				m.raceSync(c, c.args[0])
				v := Add(asTerm(m.load(c.args[0])), asTerm(c.args[1]))
				m.storePtr(c.args[0], v)
				return v
			}
			intrinsics[pk+"Swap"+ty] = func(m *Machine, c *callCtx) Value {
				m.raceSync(c, c.args[0])
				v := m.load(c.args[0])
				m.storePtr(c.args[0], c.args[1])
				return v
			}
			intrinsics[pk+"CompareAndSwap"+ty] = func(m *Machine, c *callCtx) Value {
				m.raceSync(c, c.args[0])
				if m.branch(m.equal(m.load(c.args[0]), c.args[1])) {
					m.storePtr(c.args[0], c.args[2])
					return True
				}
				return False
			}
			intrinsics[pk+"Or"+ty] = func(m *Machine, c *callCtx) Value {
				m.raceSync(c, c.args[0])
				old := asTerm(m.load(c.args[0]))
				m.storePtr(c.args[0], BOr(old, asTerm(c.args[1])))
				return old
			}
			intrinsics[pk+"And"+ty] = func(m *Machine, c *callCtx) Value {
				m.raceSync(c, c.args[0])
				old := asTerm(m.load(c.args[0]))
				m.storePtr(c.args[0], BAnd(old, asTerm(c.args[1])))
				return old
			}
		}
	}
	registerFmt()
	registerJSON()
	registerReflect()
	registerMisc()
}

func (e *Engine) pkgIntrinsic(fn *ssa.Function) Intrinsic {
	return nil
}

func asConst(v Value) uint64 {
	t := asTerm(v)
	if t.op != OConst {
		panic(unsupported{"symbolic value where a constant is needed"})
	}
	return t.val
}

func concF(v Value) float64 {
	f, ok := v.(float64)
	if !ok {
		panic(unsupported{"symbolic floating point value"})
	}
	return f
}

func lenTerm(t *Term) *Term {
	if t.op == OConst {
		n := 0
		for v := t.val; v != 0; v >>= 1 {
			n++
		}
		return mkInt(n)
	}
	r := mkInt(0)
	for i := uint8(0); i < t.w; i++ {
		r = Ite(Ule(BV(t.w, uint64(1)<<i), t), mkInt(int(i)+1), r)
	}
	return r
}

func tzTerm(t *Term) *Term {
	r := mkInt(int(t.w))
	for i := int(t.w) - 1; i >= 0; i-- {
		r = Ite(Eq(Extract(uint8(i), uint8(i), t), BV(1, 1)), mkInt(i), r)
	}
	return r
}

func bitsLen(w uint8) Intrinsic {
	return func(m *Machine, c *callCtx) Value { return lenTerm(asTerm(c.args[0])) }
}

func lockIntr(m *Machine, c *callCtx) Value {
	if m.inInit > 0 {
		return nil
	}
	if m.yieldPoint(c.g) {
		return retryMark{}
	}
	s := sideOf[mutexState](m, m.asPtr(c.args[0]))
	if s.locked {
		m.block(c.g, "Mutex.Lock", func() bool { return !s.locked })
		return retryMark{}
	}
	s.locked = true
	m.raceAcquire(c, s, true)
	return nil
}

func unlockIntr(m *Machine, c *callCtx) Value {
	if m.inInit > 0 {
		return nil
	}
	s := sideOf[mutexState](m, m.asPtr(c.args[0]))
	if !s.locked {
		m.rtErr("fatal error: sync: unlock of unlocked mutex")
	}
	m.raceRelease(c, s, false)
	s.locked = false
	return nil
}

func rwLock(m *Machine, c *callCtx) Value {
	if m.inInit > 0 {
		return nil
	}
	if m.yieldPoint(c.g) {
		return retryMark{}
	}
	s := sideOf[mutexState](m, m.asPtr(c.args[0]))
	if s.locked || s.readers > 0 {
		m.block(c.g, "RWMutex.Lock", func() bool { return !s.locked && s.readers == 0 })
		return retryMark{}
	}
	s.locked = true
	m.raceAcquire(c, s, true)
	return nil
}

func rLock(m *Machine, c *callCtx) Value {
	if m.inInit > 0 {
		return nil
	}
	if m.yieldPoint(c.g) {
		return retryMark{}
	}
	s := sideOf[mutexState](m, m.asPtr(c.args[0]))
	if s.locked {
		m.block(c.g, "RWMutex.RLock", func() bool { return !s.locked })
		return retryMark{}
	}
	s.readers++
	m.raceAcquire(c, s, false)
	return nil
}

func rUnlock(m *Machine, c *callCtx) Value {
	if m.inInit > 0 {
		return nil
	}
	s := sideOf[mutexState](m, m.asPtr(c.args[0]))
	if s.readers == 0 {
		m.rtErr("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	m.raceRelease(c, s, true)
	s.readers--
	return nil
}

func (m *Machine) indexByte(s []*Term, b *Term) Value {
	for i, t := range s {
		if m.branch(Eq(t, b)) {
			return mkInt(i)
		}
	}
	return mkInt(-1)
}

func (m *Machine) countByte(s []*Term, b *Term) Value {
	r := mkInt(0)
	for _, t := range s {
		r = Add(r, Ite(Eq(t, b), mkInt(1), mkInt(0)))
	}
	return BV(64, m.concretize(r))
}

func (m *Machine) indexStr(s, sub Str) Value {
	if a, ok := s.concrete(); ok {
		if b, ok := sub.concrete(); ok {
			return mkInt(strings.Index(a, b))
		}
	}
	n, k := s.length(), sub.length()
	for i := 0; i+k <= n; i++ {
		if m.branch(strEq(s.slice(i, i+k), sub)) {
			return mkInt(i)
		}
	}
	return mkInt(-1)
}

func (m *Machine) fieldByName(v Value, pkg, typ, field string) Value {
	st := m.e.namedType(pkg, typ).Underlying().(*types.Struct)
	s := (*m.asPtr(v)).(Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == field {
			return s[i]
		}
	}
	panic(unsupported{"no field " + typ + "." + field})
}

func swapperIntr(m *Machine, c *callCtx) Value {
	s := c.args[0].(Iface).v.(Slice)
	return &Closure{nat: func(m *Machine, args []Value) Value {
		i, j := int(m.concretize(asTerm(args[0]))), int(m.concretize(asTerm(args[1])))
		if i < 0 || j < 0 || i >= len(s) || j >= len(s) {
			m.runtimeError("reflect: slice index out of range")
		}
		a, b := copyVal(s[i]), copyVal(s[j])
		m.store(&s[i], b)
		m.store(&s[j], a)
		return nil
	}}
}

func errorsAs(m *Machine, c *callCtx) Value {
	err := c.args[0].(Iface)
	target := c.args[1].(Iface)
	if target.t == nil {
		m.rtErr("errors: target cannot be nil")
	}
	pt, ok := target.t.Underlying().(*types.Pointer)
	if !ok {
		m.rtErr("errors: target must be a non-nil pointer")
	}
	want := pt.Elem()
	var walk func(e Iface) bool
	walk = func(e Iface) bool {
		for e.t != nil {
			if types.IsInterface(want) {
				if m.e.implements(e.t, want) {
					m.store(target.v.(*Value), e)
					return true
				}
			} else if m.e.identical(e.t, want) {
				m.store(target.v.(*Value), e.v)
				return true
			}
			fn := m.e.methodByName(e.t, "As")
			if fn != nil {
				if m.branch(asTerm(m.callSync(&Closure{fn: fn}, []Value{e.v, target}))) {
					return true
				}
			}
			fn = m.e.methodByName(e.t, "Unwrap")
			if fn == nil {
				return false
			}
			r := m.callSync(&Closure{fn: fn}, []Value{e.v})
			switch x := r.(type) {
			case Iface:
				e = x
			case Slice:
				for _, y := range x {
					if walk(y.(Iface)) {
						return true
					}
				}
				return false
			}
		}
		return false
	}
	return Bool(walk(err))
}

func (m *Machine) mapClone(v Value) Value {
	iv := v.(Iface)
	mp := iv.v.(*Map)
	if mp == nil {
		return v
	}
	m.idCtr++
	n := &Map{index: map[string]*mapEntry{}, id: m.idCtr}
	for _, e := range mp.entries {
		m.mapSet(n, e.key, copyVal(e.val))
	}
	return Iface{iv.t, n}
}

func (m *Machine) deepEqual(x, y Value) *Term {
	switch a := x.(type) {
	case Slice:
		b, ok := y.(Slice)
		if !ok || len(a) != len(b) || (a == nil) != (b == nil) {
			return False
		}
		r := True
		for i := range a {
			r = And(r, m.deepEqual(a[i], b[i]))
		}
		return r
	case Struct:
		b := y.(Struct)
		r := True
		for i := range a {
			r = And(r, m.deepEqual(a[i], b[i]))
		}
		return r
	case Array:
		b := y.(Array)
		r := True
		for i := range a {
			r = And(r, m.deepEqual(a[i], b[i]))
		}
		return r
	case Iface:
		b := y.(Iface)
		if a.t == nil || b.t == nil {
			return Bool(a.t == nil && b.t == nil)
		}
		if !m.e.identical(a.t, b.t) {
			return False
		}
		return m.deepEqual(a.v, b.v)
	case *Value:
		b := y.(*Value)
		if a == b {
			return True
		}
		if a == nil || b == nil {
			return False
		}
		return m.deepEqual(*a, *b)
	case *Map:
		b := y.(*Map)
		if (a == nil) != (b == nil) {
			return False
		}
		if a == nil {
			return True
		}
		if a.n != b.n {
			return False
		}
		r := True
		for _, e := range a.entries {
			o := m.mapFind(b, e.key)
			if o == nil {
				return False
			}
			r = And(r, m.deepEqual(e.val, o.val))
		}
		return r
	}
	return m.equal(x, y)
}

func registerMisc() {}
