package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// pending is an unexplored path prefix, with a model of its path condition.
type pending struct {
	dec   []int64
	model map[*Term]uint64
}

// Explorer explores every path of one harness entry.
type Explorer struct {
	e        *Engine
	entry    *ssa.Function
	name     string
	mu       sync.Mutex
	cond     *sync.Cond
	stack    []pending
	busy     int
	stop     bool
	deadline time.Time
	maxPaths int64

	paths, completed, infeasible, exited int64
	decisions, forks, unknownBranches    int64
	steps                                int64
	unsupportedWhy                       map[string]int
	truncated                            map[string]int
	asserts                              map[string]*assertStat
	reached                              map[string]int64
	bounds                               map[string]int
	violations                           []*Violation
	traces                               []*Trace
	traceEvery                           int64
	covered                              map[string]bool
	timedOut                             bool
	notes                                map[string]int
	choices                              map[string]int
	maxViol                              int
	seenViol                             map[string]int
	onViolation                          func(*Violation)
}

type assertStat struct{ Reached, Trivial, Proved, Unknown, Violated int64 }

// Violation is a counterexample found by the solver.
type Violation struct {
	Kind, Msg string
	Inputs    []ReplayInput
	Order     []string
	Trace     []string
	Where     string
}

// Trace is a passing path, for validation against the native build.
type Trace struct {
	Inputs []ReplayInput
	Obs    []ObsVal
}

type ObsVal struct {
	Name string `json:"name"`
	Val  string `json:"val"`
}

type ReplayInput struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	U    uint64 `json:"u,omitempty"`
	B    []byte `json:"b,omitempty"`
}

func NewExplorer(e *Engine, entry *ssa.Function) *Explorer {
	x := &Explorer{e: e, entry: entry, name: entry.Name(), unsupportedWhy: map[string]int{}, truncated: map[string]int{},
		asserts: map[string]*assertStat{}, reached: map[string]int64{}, bounds: map[string]int{}, covered: map[string]bool{},
		notes: map[string]int{}, choices: map[string]int{}, seenViol: map[string]int{}, maxViol: 4, traceEvery: 1}
	x.cond = sync.NewCond(&x.mu)
	x.stack = []pending{{model: map[*Term]uint64{}}}
	return x
}

func (x *Explorer) run(ms []*Machine) {
	var wg sync.WaitGroup
	for _, m := range ms {
		wg.Add(1)
		go func(m *Machine) {
			defer wg.Done()
			x.worker(m)
		}(m)
	}
	done := make(chan bool)
	go func() {
		t := time.NewTicker(200 * time.Millisecond)
		defer t.Stop()
		for {
			select {
			case <-done:
				return
			case <-t.C:
				if time.Now().After(x.deadline) {
					x.mu.Lock()
					if !x.stop {
						x.stop = true
						x.timedOut = true
					}
					x.cond.Broadcast()
					x.mu.Unlock()
				}
			}
		}
	}()
	wg.Wait()
	close(done)
}

func (x *Explorer) worker(m *Machine) {
	x.mu.Lock()
	for {
		for len(x.stack) == 0 && x.busy > 0 && !x.stop {
			x.cond.Wait()
		}
		if x.stop || len(x.stack) == 0 {
			x.cond.Broadcast()
			x.mu.Unlock()
			return
		}
		p := x.stack[len(x.stack)-1]
		x.stack = x.stack[:len(x.stack)-1]
		x.busy++
		x.mu.Unlock()
		m.x = x
		m.runPath(p)
		x.mu.Lock()
		x.busy--
		x.paths++
		if x.maxPaths > 0 && x.paths >= x.maxPaths && !x.stop {
			x.stop = true
			if len(x.stack) > 0 || x.busy > 0 {
				x.timedOut = true
			}
		}
		x.cond.Broadcast()
	}
}

func (x *Explorer) push(dec []int64, model map[*Term]uint64) {
	x.mu.Lock()
	x.stack = append(x.stack, pending{dec, model})
	x.forks++
	x.cond.Signal()
	x.mu.Unlock()
}

func (m *Machine) resetPath(p pending) {
	m.prefix = p.dec
	m.pos = 0
	m.dec = append([]int64{}, make([]int64, 0, len(p.dec)+64)...)
	m.pc = m.pc[:0]
	m.vars = m.vars[:0]
	m.varset = map[*Term]bool{}
	m.known = map[*Term]bool{}
	m.pinned = map[*Term]uint64{}
	m.schedIO = false
	m.delays = false
	m.order = m.order[:0]
	m.model = p.model
	m.memo = map[*Term]uint64{}
	m.gs = nil
	m.cur = nil
	m.steps = 0
	m.nameCtr = map[string]int{}
	m.inputs = nil
	m.obs = nil
	m.side = map[*Value]any{}
	m.hashes = nil
	m.clock = 0
	m.preempt = 0
	m.sched = false
	m.mapOrder = false
	m.notes = nil
	m.switchTo = nil
	m.syncDepth = 0
	m.inInit = 0
	m.expectPanic = nil
	m.reachedNow = nil
	m.pathAsserts = 0
	m.undo = m.undo[:0]
	m.race = nil
	if m.e.races {
		m.race = newRaceState()
		m.raceSeen = map[string]bool{}
	}
}

func (m *Machine) rollback() {
	for i := len(m.undo) - 1; i >= 0; i-- {
		u := m.undo[i]
		if u.f != nil {
			u.f()
		} else {
			*u.p = u.old
		}
		m.undo[i] = undoRec{}
	}
	m.undo = m.undo[:0]
}

func (m *Machine) runPath(p pending) {
	x := m.x
	m.resetPath(p)
	end := "complete"
	why := ""
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch e := r.(type) {
				case pathEnd:
					end, why = "end", e.why
				case unsupported:
					end, why = "unsupported", e.why
					if m.e.debug {
						fmt.Println("UNSUPPORTED", e.why, m.where())
					}
				case *goPanic:
					end, why = "unsupported", "engine panic outside goroutine: "+e.msg
				default:
					end, why = "unsupported", fmt.Sprintf("engine error: %v at %s", r, m.where())
					if m.e.debug || os.Getenv("VF_STACK") != "" {
						fmt.Println(why)
						fmt.Println(string(debug.Stack()))
					}
				}
			}
		}()
		m.e.ensureInit(m, x.entry.Pkg)
		m.spawn(&Closure{fn: x.entry}, nil)
		m.runAll()
	}()
	// record
	var tr *Trace
	x.mu.Lock()
	x.steps += m.steps
	x.decisions += int64(len(m.dec))
	switch end {
	case "complete":
		x.completed++
		n := x.completed
		// sample: the first ones, then ever more sparsely
		if (n <= 4 || n%x.traceEvery == 0) && len(x.traces) < 24 {
			tr = &Trace{}
			if n > 4 {
				x.traceEvery *= 2
			}
		}
		for _, l := range m.reachedNow {
			x.reached[l]++
		}
	case "end":
		switch why {
		case "assume":
			x.infeasible++
		case "steps":
			x.truncated["instruction bound per path"]++
		case "exit":
			x.exited++
			for _, l := range m.reachedNow {
				x.reached[l]++
			}
		case "depth":
			x.truncated["decision bound per path"]++
		case "unknown":
			x.truncated["solver gave no answer"]++
		default:
			x.exited++
		}
	case "unsupported":
		x.unsupportedWhy[why]++
	}
	for _, n := range m.notes {
		x.notes[n]++
	}
	x.mu.Unlock()
	if tr != nil {
		tr.Inputs = m.inputValues(m.model)
		tr.Obs = m.obsValues(m.model)
		x.mu.Lock()
		x.traces = append(x.traces, tr)
		x.mu.Unlock()
	}
	m.rollback()
}

func (m *Machine) note(s string) { m.notes = append(m.notes, s) }

func (m *Machine) evalNow(t *Term) uint64 { return eval(t, m.model, m.memo) }

func (m *Machine) setModel(mod map[*Term]uint64) {
	m.model = mod
	m.memo = map[*Term]uint64{}
}

const (
	dFalse  = 0
	dTrue   = 1
	dForceF = 2
	dForceT = 3
	dChoose = 8
)

// learn notes that c holds on the rest of the path.
func (m *Machine) learn(c *Term) {
	m.known[c] = true
	switch c.op {
	case OAnd:
		m.learn(c.a)
		m.learn(c.b)
	case OEq:
		if c.b.op == OConst {
			m.pinned[c.a] = c.b.val
		}
	case ONot:
		if c.a.op == OOr {
			m.learn(Not(c.a.a))
			m.learn(Not(c.a.b))
		}
	}
}

func (m *Machine) addPC(c *Term) {
	m.learn(c)
	m.pc = append(m.pc, c)
}

// decided tells whether c is syntactically settled by what is known. It must depend only on the decisions made.
func (m *Machine) decided(c *Term) (bool, bool) {
	if m.known[c] {
		return true, true
	}
	if m.known[Not(c)] {
		return false, true
	}
	if c.op == OEq && c.b.op == OConst {
		if v, ok := m.pinned[c.a]; ok {
			return v == c.b.val, true
		}
	}
	return false, false
}

func (m *Machine) record(d int64) {
	m.dec = append(m.dec, d)
	if len(m.dec) > m.e.maxDecisions {
		panic(pathEnd{"depth"})
	}
}

func (m *Machine) withDec(d int64) []int64 {
	r := make([]int64, len(m.dec)+1)
	copy(r, m.dec)
	r[len(m.dec)] = d
	return r
}

// branch decides a condition, forking when both outcomes are possible.
func (m *Machine) branch(c *Term) bool {
	if c.op == OConst {
		return c.val == 1
	}
	if m.inInit > 0 {
		panic(unsupported{"symbolic branch during package initialisation"})
	}
	if v, ok := m.decided(c); ok {
		return v
	}
	if m.pos < len(m.prefix) {
		d := m.prefix[m.pos]
		m.pos++
		m.record(d)
		switch d {
		case dFalse:
			m.addPC(Not(c))
			return false
		case dTrue:
			m.addPC(c)
			return true
		case dForceF:
			m.learn(Not(c))
			return false
		case dForceT:
			m.learn(c)
			return true
		}
		panic(fmt.Sprintf("decision log out of step (branch, %d)", d))
	}
	v := m.evalNow(c) == 1
	other := Not(c)
	if !v {
		other = c
	}
	res, mod := m.check(other)
	switch res {
	case Unsat:
		if v {
			m.record(dForceT)
			m.learn(c)
		} else {
			m.record(dForceF)
			m.learn(Not(c))
		}
		return v
	case Unknown:
		atomic.AddInt64(&m.x.unknownBranches, 1)
		m.note("solver gave no answer on a branch; one side not explored")
	case Sat:
		d := int64(dTrue)
		if v {
			d = dFalse
		}
		m.x.push(m.withDec(d), mod)
	}
	if v {
		m.record(dTrue)
		m.addPC(c)
	} else {
		m.record(dFalse)
		m.addPC(Not(c))
	}
	return v
}

// choose makes an unconstrained nondeterministic choice in [0,n).
func (m *Machine) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if m.inInit > 0 {
		panic(unsupported{"choice during package initialisation"})
	}
	if m.pos < len(m.prefix) {
		d := m.prefix[m.pos]
		m.pos++
		m.record(d)
		if d < dChoose {
			panic("decision log out of step (choose)")
		}
		return int(d - dChoose)
	}
	for i := n - 1; i >= 1; i-- {
		m.x.push(m.withDec(int64(dChoose+i)), m.model)
	}
	m.record(dChoose)
	return 0
}

// concretize picks a value for t, forking over all possible values. The value tried is kept in the
// decision log, because the model it came from is not known again when the prefix is replayed.
func (m *Machine) concretize(t *Term) uint64 {
	for {
		if t.op == OConst {
			return t.val
		}
		if m.inInit > 0 {
			panic(unsupported{"symbolic value during package initialisation"})
		}
		var v uint64
		if m.pos < len(m.prefix) {
			v = uint64(m.prefix[m.pos])
			m.pos++
		} else {
			v = m.evalNow(t)
		}
		m.record(int64(v))
		if m.branch(Eq(t, BV(t.w, v))) {
			return v
		}
	}
}

func (m *Machine) assume(c *Term) {
	if c == True {
		return
	}
	if c == False {
		panic(pathEnd{"assume"})
	}
	if m.pos < len(m.prefix) {
		m.addPC(c)
		return
	}
	if m.evalNow(c) == 1 {
		m.addPC(c)
		return
	}
	res, mod := m.check(c)
	switch res {
	case Unsat:
		panic(pathEnd{"assume"})
	case Unknown:
		panic(pathEnd{"unknown"})
	}
	m.setModel(mod)
	m.addPC(c)
}

func (m *Machine) stat(label string) *assertStat {
	s := m.x.asserts[label]
	if s == nil {
		s = &assertStat{}
		m.x.asserts[label] = s
	}
	return s
}

func (m *Machine) assert(c *Term, label, detail string) {
	if m.pos < len(m.prefix) {
		// already decided on the path that produced this prefix
		if c != True {
			if c == False {
				panic(pathEnd{"violated"})
			}
			m.addPC(c)
		}
		return
	}
	m.pathAsserts++
	upd := func(f func(s *assertStat)) {
		m.x.mu.Lock()
		s := m.stat(label)
		s.Reached++
		f(s)
		m.x.mu.Unlock()
	}
	if c == True {
		upd(func(s *assertStat) { s.Trivial++ })
		return
	}
	if c == False || m.evalNow(c) == 0 {
		upd(func(s *assertStat) { s.Violated++ })
		m.violation(label, detail, m.model)
		if c == False {
			panic(pathEnd{"violated"})
		}
		m.assume(c)
		return
	}
	var res Result
	var mod map[*Term]uint64
	if v, ok := m.decided(c); ok && v {
		res = Unsat
	} else {
		res, mod = m.check(Not(c))
	}
	switch res {
	case Unsat:
		upd(func(s *assertStat) { s.Proved++ })
		m.addPC(c) // as when this prefix is replayed
		return
	case Unknown:
		upd(func(s *assertStat) { s.Unknown++ })
		m.addPC(c)
	case Sat:
		upd(func(s *assertStat) { s.Violated++ })
		m.violation(label, detail, mod)
		m.addPC(c)
	}
}

func (m *Machine) violation(kind, msg string, mod map[*Term]uint64) {
	if mod == nil {
		mod = m.model
	}
	x := m.x
	x.mu.Lock()
	defer x.mu.Unlock()
	x.seenViol[kind]++
	if x.seenViol[kind] > x.maxViol {
		if len(x.violations) >= 12 {
			x.stop = true
		}
		return
	}
	v := &Violation{Kind: kind, Msg: msg, Inputs: m.inputValues(mod), Where: m.where(), Order: append([]string{}, m.order...)}
	for _, o := range m.obsValues(mod) {
		v.Trace = append(v.Trace, o.Name+"="+o.Val)
	}
	x.violations = append(x.violations, v)
	if m.e.debug {
		fmt.Printf("VIOL %s: %s\n  inputs %v\n", kind, msg, v.Inputs)
	}
	if x.onViolation != nil {
		x.onViolation(v)
	}
}

func (m *Machine) inputValues(mod map[*Term]uint64) []ReplayInput {
	memo := map[*Term]uint64{}
	var out []ReplayInput
	mod = m.fixHashes(mod)
	for _, in := range m.inputs {
		r := ReplayInput{Name: in.name, Kind: in.kind}
		switch in.kind {
		case "bytes":
			r.B = make([]byte, len(in.t))
			for i, t := range in.t {
				r.B[i] = byte(eval(t, mod, memo))
			}
		case "choose":
			r.U = uint64(in.v)
		default:
			r.U = eval(in.t[0], mod, memo)
		}
		out = append(out, r)
	}
	return out
}

// fixHashes replaces the solver's made-up digests by the real ones, wherever input bytes take a made-up digest.
func (m *Machine) fixHashes(mod map[*Term]uint64) map[*Term]uint64 {
	if len(m.hashes) == 0 {
		return mod
	}
	n := make(map[*Term]uint64, len(mod))
	for k, v := range mod {
		n[k] = v
	}
	repl := map[string][]byte{}
	for _, h := range m.hashes {
		memo := map[*Term]uint64{}
		old := make([]byte, len(h.out))
		for i, t := range h.out {
			old[i] = byte(eval(t, n, memo))
		}
		msg := make([]byte, len(h.msg))
		for i, t := range h.msg {
			msg[i] = byte(eval(t, n, memo))
		}
		real := sha256sum(msg)
		if string(old) == string(real) {
			continue
		}
		repl[string(old)] = real
		for i, t := range h.out {
			if t.op == OVar {
				n[t] = uint64(real[i])
			}
		}
		// inputs holding the made-up digest
		for _, in := range m.inputs {
			if in.kind != "bytes" || len(in.t) < len(real) {
				continue
			}
			cur := make([]byte, len(in.t))
			mm := map[*Term]uint64{}
			for i, t := range in.t {
				cur[i] = byte(eval(t, n, mm))
			}
			for off := 0; off+len(real) <= len(cur); off++ {
				if string(cur[off:off+len(real)]) == string(old) {
					for j := range real {
						if in.t[off+j].op == OVar {
							n[in.t[off+j]] = uint64(real[j])
						}
					}
				}
			}
		}
	}
	return n
}

func (m *Machine) obsValues(mod map[*Term]uint64) []ObsVal {
	memo := map[*Term]uint64{}
	mod = m.fixHashes(mod)
	var out []ObsVal
	for _, o := range m.obs {
		out = append(out, ObsVal{o.name, obsString(o.val, mod, memo)})
	}
	return out
}

func obsString(v Value, mod, memo map[*Term]uint64) string {
	switch v := v.(type) {
	case *Term:
		if v.w == 0 {
			return fmt.Sprint(eval(v, mod, memo) == 1)
		}
		return fmt.Sprint(eval(v, mod, memo))
	case []*Term:
		b := make([]byte, len(v))
		for i, t := range v {
			b[i] = byte(eval(t, mod, memo))
		}
		return fmt.Sprintf("%x", b)
	case string:
		return v
	}
	return fmt.Sprintf("%T", v)
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
