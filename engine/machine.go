package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// unsupported aborts the current path: the engine cannot encode something.
type unsupported struct{ why string }

// pathEnd ends the current path silently (infeasible assumption, harness exit).
type pathEnd struct{ why string }

// goPanic is a panic of the program under test.
type goPanic struct {
	val       Iface
	msg       string // for run-time errors
	recovered bool
	where     string
}

type opnd struct {
	kind uint8 // 0 reg, 1 const, 2 global, 3 none
	idx  int
	v    Value
	g    *globalInfo
}

type globalInfo struct {
	g  *ssa.Global
	id int
}

type cinstr struct {
	in  ssa.Instruction
	ops []opnd
	dst int
	aux any
}

type fnInfo struct {
	fn     *ssa.Function
	nregs  int
	regOf  map[ssa.Value]int
	blocks [][]cinstr
	nphi   []int
	once   sync.Once
	intr   Intrinsic
	redir  *ssa.Function
	isInit bool
	err    string
}

type Intrinsic func(m *Machine, c *callCtx) Value

type callCtx struct {
	g    *G
	fn   *ssa.Function
	args []Value
	f    *Frame
}

type retryMark struct{}  // the intrinsic blocked: run the instruction again when woken
type pushedMark struct{} // the intrinsic pushed a frame, whose result is the call's result

type deferCall struct {
	cl      *Closure
	args    []Value
	builtin *ssa.Builtin
	call    *ssa.CallCommon
}

type syncMarker struct {
	done   bool
	result Value
	pan    *goPanic
}

type Frame struct {
	fi        *fnInfo
	regs      []Value
	bi        int
	prev      int
	pc        int
	caller    *Frame
	dst       int
	defers    []deferCall
	isDefer   bool
	unwinding bool
	panicking *goPanic
	sync      *syncMarker
	initFrame bool
}

type G struct {
	id      int
	top     *Frame
	done    bool
	blocked bool
	cond    func() bool // polled when blocked; nil: woken explicitly
	why     string
	yielded bool
	pending *goPanic
	wake    int64 // sleeping until (model clock); -1 when not sleeping
}

type undoRec struct {
	p   *Value
	old Value
	f   func()
}

type Machine struct {
	e       *Engine
	solver  *Solver
	globals []*Value
	inited  map[*ssa.Package]bool
	undo    []undoRec
	inInit  int

	// path state
	prefix      []int64
	pos         int
	dec         []int64
	pc          []*Term
	vars        []*Term
	varset      map[*Term]bool
	model       map[*Term]uint64
	memo        map[*Term]uint64
	known       map[*Term]bool // settled on this path
	gs          []*G
	cur         *G
	steps       int64
	maxSteps    int64
	nameCtr     map[string]int
	inputs      []inputRec
	obs         []obsRec
	side        map[*Value]any
	hashes      []hashRec
	clock       int64
	preempt     int
	sched       bool
	mapOrder    bool
	harness     string
	notes       []string
	idCtr       int
	ending      string
	pathAsserts int
	limits      map[string]int
	covered     map[*fnInfo]bool
	switchTo    *G
	syncDepth   int
	order       []string // environment operations while the schedule is explored
	delays      bool     // every departure from the default schedule counts
	schedIO     bool     // preempt before operations on the environment only
	pinned      map[*Term]uint64
	x           *Explorer
	expectPanic any
	reachedNow  []string
	race        *raceState
	raceSeen    map[string]bool
}

type inputRec struct {
	name string
	kind string // u, bool, bytes, choose
	t    []*Term
	w    uint8
	v    int
}

type obsRec struct {
	name string
	val  Value
}

type hashRec struct {
	msg []*Term
	out []*Term
}

func (m *Machine) setp(p *Value, v Value) {
	if m.inInit == 0 {
		m.undo = append(m.undo, undoRec{p: p, old: *p})
	}
	*p = v
}

// store writes v through p, keeping aggregates in place so that interior pointers stay valid.
func (m *Machine) store(p *Value, v Value) {
	switch nv := v.(type) {
	case Struct:
		if old, ok := (*p).(Struct); ok && len(old) == len(nv) {
			for i := range nv {
				m.store(&old[i], nv[i])
			}
			return
		}
		m.setp(p, copyVal(v))
	case Array:
		if old, ok := (*p).(Array); ok && len(old) == len(nv) {
			for i := range nv {
				m.store(&old[i], nv[i])
			}
			return
		}
		m.setp(p, copyVal(v))
	default:
		m.setp(p, v)
	}
}

func (m *Machine) global(gi *globalInfo) *Value {
	g := gi.g
	if !m.inited[g.Pkg] {
		m.initPackage(g.Pkg)
	}
	return m.gslot(gi)
}

func (m *Machine) gslot(gi *globalInfo) *Value {
	for gi.id >= len(m.globals) {
		m.globals = append(m.globals, make([]*Value, len(m.globals)+256)...)
	}
	p := m.globals[gi.id]
	if p == nil {
		p = new(Value)
		*p = zero(gi.g.Type().(*types.Pointer).Elem())
		m.globals[gi.id] = p
	}
	return p
}

// initPackage runs the initialiser of a package on demand; its effects are permanent for this machine.
func (m *Machine) initPackage(p *ssa.Package) {
	m.inited[p] = true
	m.e.buildPkg(p)
	fn := p.Func("init")
	if fn == nil || fn.Blocks == nil {
		return
	}
	if m.e.skipInit[p.Pkg.Path()] {
		return
	}
	m.inInit++
	defer func() { m.inInit-- }()
	savedSteps := m.steps
	saved := m.cur
	g := &G{id: -1, wake: -1}
	m.cur = g
	mark := &syncMarker{}
	fi := m.e.info(fn)
	f := m.newFrame(fi, nil, nil)
	f.initFrame = true
	f.sync = mark
	g.top = f
	m.runSync(g, mark)
	m.cur = saved
	m.steps = savedSteps
}

func (e *Engine) info(fn *ssa.Function) *fnInfo {
	if v, ok := e.fns.Load(fn); ok {
		fi := v.(*fnInfo)
		fi.once.Do(func() { e.compile(fi) })
		return fi
	}
	v, _ := e.fns.LoadOrStore(fn, &fnInfo{fn: fn})
	fi := v.(*fnInfo)
	fi.once.Do(func() { e.compile(fi) })
	return fi
}

func (e *Engine) globalInfo(g *ssa.Global) *globalInfo {
	if v, ok := e.globals.Load(g); ok {
		return v.(*globalInfo)
	}
	e.gmu.Lock()
	defer e.gmu.Unlock()
	if v, ok := e.globals.Load(g); ok {
		return v.(*globalInfo)
	}
	gi := &globalInfo{g: g, id: e.nglobals}
	e.nglobals++
	e.globals.Store(g, gi)
	return gi
}

func (e *Engine) buildPkg(p *ssa.Package) {
	if _, ok := e.built.Load(p); ok {
		return
	}
	e.bmu.Lock()
	defer e.bmu.Unlock()
	p.Build()
	e.built.Store(p, true)
}

func fnKey(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func (e *Engine) compile(fi *fnInfo) {
	fn := fi.fn
	key := fnKey(fn)
	if r, ok := redirects[key]; ok {
		if f := e.rtFunc(r); f != nil {
			fi.redir = f
			return
		}
	}
	if in, ok := intrinsics[key]; ok {
		fi.intr = in
		return
	}
	if fn.Pkg != nil {
		if in := e.pkgIntrinsic(fn); in != nil {
			fi.intr = in
			return
		}
	}
	e.compileBody(fi)
}

func (e *Engine) compileBody(fi *fnInfo) {
	fn := fi.fn
	if fn.Pkg != nil {
		e.buildPkg(fn.Pkg)
	}
	if fn.Blocks == nil {
		fi.err = "no body: " + fn.String()
		return
	}
	fi.isInit = fn.Synthetic == "package initializer"
	fi.regOf = map[ssa.Value]int{}
	n := 0
	for _, p := range fn.Params {
		fi.regOf[p] = n
		n++
	}
	for _, p := range fn.FreeVars {
		fi.regOf[p] = n
		n++
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				fi.regOf[v] = n
				n++
			}
		}
	}
	fi.nregs = n
	fi.blocks = make([][]cinstr, len(fn.Blocks))
	fi.nphi = make([]int, len(fn.Blocks))
	for bi, b := range fn.Blocks {
		cs := make([]cinstr, 0, len(b.Instrs))
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			ci := cinstr{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = fi.regOf[v]
			}
			if _, ok := in.(*ssa.Phi); ok {
				fi.nphi[bi]++
			}
			for _, op := range in.Operands(nil) {
				if *op == nil {
					ci.ops = append(ci.ops, opnd{kind: 3})
					continue
				}
				ci.ops = append(ci.ops, e.operand(fi, *op))
			}
			cs = append(cs, ci)
		}
		fi.blocks[bi] = cs
	}
}

func (e *Engine) operand(fi *fnInfo, v ssa.Value) opnd {
	switch v := v.(type) {
	case *ssa.Const:
		return opnd{kind: 1, v: constVal(v)}
	case *ssa.Global:
		return opnd{kind: 2, g: e.globalInfo(v)}
	case *ssa.Function:
		return opnd{kind: 1, v: &Closure{fn: v}}
	case *ssa.Builtin:
		return opnd{kind: 1, v: v}
	}
	i, ok := fi.regOf[v]
	if !ok {
		panic("operand without register: " + v.String())
	}
	return opnd{kind: 0, idx: i}
}

func constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.UntypedNil {
			return Iface{}
		}
		if tp, ok := t.(*types.TypeParam); ok {
			_ = tp
			return Poison{"type parameter constant"}
		}
		return zero(t)
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return Poison{"constant of " + t.String()}
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return Bool(constant.BoolVal(c.Value))
	case b.Info()&types.IsInteger != 0:
		w, _ := intWidth(b)
		if b.Info()&types.IsUnsigned != 0 {
			u, _ := constant.Uint64Val(constant.ToInt(c.Value))
			return BV(w, u)
		}
		i, _ := constant.Int64Val(constant.ToInt(c.Value))
		return BV(w, uint64(i))
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(c.Value)
		return f
	case b.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return mkStr(constant.StringVal(c.Value))
		}
		i, _ := constant.Int64Val(c.Value)
		return mkStr(string(rune(i)))
	case b.Info()&types.IsComplex != 0:
		return complex128(0)
	}
	return Poison{"constant of " + t.String()}
}

func (m *Machine) get(f *Frame, o *opnd) Value {
	switch o.kind {
	case 0:
		return f.regs[o.idx]
	case 1:
		return o.v
	case 2:
		return m.global(o.g)
	}
	return nil
}

func (m *Machine) newFrame(fi *fnInfo, env, args []Value) *Frame {
	f := &Frame{fi: fi, regs: make([]Value, fi.nregs), dst: -1}
	copy(f.regs, args)
	copy(f.regs[len(args):], env)
	return f
}

func (m *Machine) throw(v Iface) { panic(&goPanic{val: v, where: m.where()}) }

func (m *Machine) runtimeError(msg string) {
	m.rtErr("runtime error: " + msg)
}

func (m *Machine) rtErr(msg string) {
	// the value is a runtime.Error; harness code only prints it
	panic(&goPanic{val: Iface{t: m.e.rtErrType, v: Struct{mkStr(msg)}}, msg: msg, where: m.where()})
}

func (m *Machine) where() string {
	if m.cur == nil || m.cur.top == nil {
		return ""
	}
	var parts []string
	for f, n := m.cur.top, 0; f != nil && n < 6; f, n = f.caller, n+1 {
		pos := ""
		if f.pc < len(f.fi.blocks[f.bi]) {
			p := m.e.prog.Fset.Position(f.fi.blocks[f.bi][f.pc].in.Pos())
			if p.IsValid() {
				pos = fmt.Sprintf("@%s:%d", p.Filename[strings.LastIndex(p.Filename, "/")+1:], p.Line)
			}
		}
		parts = append(parts, f.fi.fn.String()+pos)
	}
	return strings.Join(parts, " < ")
}

// call starts a call; the result goes to register dst of the calling frame. It reports whether the
// calling frame's instruction is finished (false: retry later).
func (m *Machine) call(g *G, caller *Frame, dst int, cl *Closure, args []Value, isDefer bool) bool {
	if cl == nil {
		m.runtimeError("invalid memory address or nil pointer dereference")
	}
	if cl.nat != nil {
		r := cl.nat(m, args)
		if dst >= 0 && caller != nil {
			caller.regs[dst] = r
		}
		return true
	}
	fi := m.e.info(cl.fn)
	if fi.redir != nil {
		fi = m.e.info(fi.redir)
	}
	if fi.intr != nil {
		c := callCtx{g: g, fn: cl.fn, args: args, f: caller}
		if cl.env != nil {
			c.args = append(append([]Value{}, args...), cl.env...)
		}
		r := fi.intr(m, &c)
		switch r.(type) {
		case retryMark:
			return false
		case pushedMark:
			g.top.dst = dst
			g.top.isDefer = isDefer
			return true
		}
		if dst >= 0 && caller != nil {
			caller.regs[dst] = r
		}
		return true
	}
	if fi.err != "" {
		panic(unsupported{fi.err})
	}
	if m.inInit > 0 && fi.isInit {
		return true // dependencies initialise on demand
	}
	if m.covered != nil && !m.covered[fi] {
		m.covered[fi] = true
	}
	f := m.newFrame(fi, cl.env, args)
	f.caller = caller
	f.dst = dst
	f.isDefer = isDefer
	g.top = f
	return true
}

// callSync runs fn to completion on the current goroutine and returns its result.
func (m *Machine) callSync(cl *Closure, args []Value) Value {
	g := m.cur
	if cl == nil {
		m.runtimeError("invalid memory address or nil pointer dereference")
	}
	saved := g.top
	mark := &syncMarker{}
	tmp := &Frame{fi: tmpFi, regs: make([]Value, 1), caller: saved}
	if !m.call(g, tmp, 0, cl, args, false) {
		panic(unsupported{"blocking intrinsic in a nested call"})
	}
	if g.top == saved {
		return tmp.regs[0]
	}
	g.top.sync = mark
	g.top.caller = saved
	m.runSync(g, mark)
	if mark.pan != nil {
		panic(mark.pan)
	}
	return mark.result
}

var tmpFi = &fnInfo{fn: &ssa.Function{}, blocks: [][]cinstr{{}}}

func (m *Machine) runSync(g *G, mark *syncMarker) {
	m.syncDepth++
	defer func() { m.syncDepth-- }()
	for !mark.done {
		m.protectedRun(g, mark)
		if mark.done {
			return
		}
		if g.blocked || g.done {
			if m.inInit > 0 {
				panic(unsupported{"blocked during package initialisation"})
			}
			panic(unsupported{"blocking operation inside a nested call: " + g.why})
		}
	}
}

// protectedRun executes g until it blocks, ends, yields, or mark is done; target panics start unwinding.
func (m *Machine) protectedRun(g *G, mark *syncMarker) {
	defer func() {
		if r := recover(); r != nil {
			switch p := r.(type) {
			case *goPanic:
				if m.inInit > 0 && m.poisonInit(g, mark, "panic: "+p.msg) {
					return
				}
				g.pending = p
			case unsupported:
				if m.inInit > 0 && m.poisonInit(g, mark, p.why) {
					return
				}
				panic(r)
			case error:
				if m.inInit > 0 && m.poisonInit(g, mark, p.Error()) {
					return
				}
				panic(r)
			default:
				panic(r)
			}
		}
	}()
	if g.pending != nil {
		p := g.pending
		g.pending = nil
		m.unwindFrom(g, g.top, p)
		return
	}
	m.run(g, mark)
}

// poisonInit makes the current instruction of the innermost package initialiser yield Poison.
func (m *Machine) poisonInit(g *G, mark *syncMarker, why string) bool {
	f := g.top
	var child *Frame
	for f != nil && !f.initFrame {
		if f.sync != nil && f.sync == mark {
			return false // nested callSync inside init: let the outer recover handle it
		}
		child = f
		f = f.caller
	}
	if f == nil {
		return false
	}
	if child != nil && child.sync == nil {
		f.pc-- // a pushed call has advanced it already
	}
	g.top = f
	g.blocked = false
	g.pending = nil
	ci := &f.fi.blocks[f.bi][f.pc]
	if ci.dst >= 0 {
		f.regs[ci.dst] = Poison{why}
	}
	switch in := ci.in.(type) {
	case *ssa.If:
		// cannot decide: skip to the end
		f.pc = 0
		f.prev = f.bi
		f.bi = in.Block().Succs[1].Index
	case *ssa.Store:
		f.pc++
	default:
		f.pc++
	}
	if m.e.debug {
		fmt.Println("init poison:", f.fi.fn.Pkg.Pkg.Path(), m.e.prog.Fset.Position(ci.in.Pos()), why)
	}
	return true
}

// unwindFrom starts panicking in frame f.
func (m *Machine) unwindFrom(g *G, f *Frame, p *goPanic) {
	for {
		if f == nil {
			g.top = nil
			g.done = true
			m.uncaught(g, p)
			return
		}
		f.unwinding = true
		f.panicking = p
		g.top = f
		if m.continueUnwind(g, f) {
			return
		}
		p = f.panicking
		if f.sync != nil {
			f.sync.done = true
			f.sync.pan = p
			g.top = f.caller
			return
		}
		f = f.caller
	}
}

// continueUnwind runs the remaining defers of f; true when control continues (a frame was pushed or f resumed).
func (m *Machine) continueUnwind(g *G, f *Frame) bool {
	for len(f.defers) > 0 {
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		if d.builtin != nil {
			m.builtin(g, f, d.builtin, d.args, d.call)
			continue
		}
		if !m.call(g, f, -1, d.cl, d.args, true) {
			panic(unsupported{"blocking deferred intrinsic while panicking"})
		}
		if g.top != f {
			return true
		}
	}
	if f.panicking == nil || f.panicking.recovered {
		f.panicking = nil
		f.unwinding = false
		if f.fi.fn.Recover != nil {
			f.prev = f.bi
			f.bi = f.fi.fn.Recover.Index
			f.pc = 0
			return true
		}
		res := f.fi.fn.Signature.Results()
		var v Value
		if res.Len() > 0 {
			v = zero(res)
		}
		m.ret(g, f, v)
		return true
	}
	return false
}

// ret returns v from frame f.
func (m *Machine) ret(g *G, f *Frame, v Value) {
	c := f.caller
	if f.sync != nil {
		f.sync.done = true
		f.sync.result = v
		g.top = c
		return
	}
	if c == nil {
		g.top = nil
		g.done = true
		return
	}
	g.top = c
	if f.isDefer {
		if c.unwinding {
			if !m.continueUnwind(g, c) {
				p := c.panicking
				if c.sync != nil {
					c.sync.done = true
					c.sync.pan = p
					g.top = c.caller
					return
				}
				m.unwindFrom(g, c.caller, p)
			}
		}
		return // RunDefers is executed again
	}
	if f.dst >= 0 {
		c.regs[f.dst] = v
	}
}

func (m *Machine) uncaught(g *G, p *goPanic) {
	msg := p.msg
	if msg == "" {
		msg = "panic: " + m.describe(p.val)
	} else {
		msg = "panic: " + msg
	}
	m.violation("panic", msg+" at "+p.where, nil)
	panic(pathEnd{"uncaught panic"})
}

func (m *Machine) describe(v Value) string {
	switch v := v.(type) {
	case Iface:
		if v.t == nil {
			return "nil"
		}
		if s, ok := v.v.(Str); ok {
			return m.describe(s)
		}
		return v.t.String() + "(" + m.describe(v.v) + ")"
	case Str:
		if v.lazy != nil && !v.lazy.done {
			return "<formatted>"
		}
		if s, ok := v.concrete(); ok {
			return s
		}
		return "<symbolic string>"
	case *Term:
		return v.String()
	case Struct:
		var s []string
		for _, x := range v {
			s = append(s, m.describe(x))
		}
		return "{" + strings.Join(s, " ") + "}"
	case *Value:
		if v == nil {
			return "nil"
		}
		if st, ok := (*v).(Struct); ok && len(st) < 4 {
			return "&" + m.describe(st)
		}
		return "ptr"
	}
	return fmt.Sprintf("%T", v)
}

// ---- scheduling ----

func (m *Machine) spawn(cl *Closure, args []Value) *G {
	g := &G{id: len(m.gs), wake: -1}
	m.gs = append(m.gs, g)
	m.raceSpawn(g)
	if !m.call(g, nil, -1, cl, args, false) {
		panic(unsupported{"go statement on a blocking intrinsic"})
	}
	if g.top == nil {
		g.done = true
	}
	return g
}

func (m *Machine) ready(g *G) bool {
	if g.done {
		return false
	}
	if g.blocked {
		if g.cond != nil && g.cond() {
			return true
		}
		return false
	}
	return true
}

// runAll runs the scheduler until goroutine 0 ends.
func (m *Machine) runAll() {
	main := m.gs[0]
	cur := main
	for !main.done {
		if cur == nil || !m.ready(cur) {
			var rs []*G
			start := 0
			if cur != nil {
				start = cur.id + 1
			}
			for i := range m.gs {
				g := m.gs[(start+i)%len(m.gs)]
				if m.ready(g) {
					rs = append(rs, g)
				}
			}
			if len(rs) == 0 {
				// advance the model clock to the next sleeper
				var best *G
				for _, g := range m.gs {
					if !g.done && g.wake >= 0 && (best == nil || g.wake < best.wake) {
						best = g
					}
				}
				if best == nil {
					m.deadlock()
				}
				if best.wake > m.clock {
					m.clock = best.wake
				}
				best.wake = -1
				best.blocked = false
				cur = best
				continue
			}
			k := 0
			if m.sched && len(rs) > 1 && !(m.delays && m.preempt <= 0) {
				k = m.choose(len(rs))
				if m.delays && k > 0 {
					m.preempt--
				}
			}
			cur = rs[k]
		}
		cur.blocked = false
		cur.cond = nil
		m.cur = cur
		m.protectedRun(cur, nil)
		if nx := m.switchTo; nx != nil {
			m.switchTo = nil
			cur = nx
		}
	}
}

func (m *Machine) deadlock() {
	var why []string
	for _, g := range m.gs {
		if !g.done {
			m.cur = g
			why = append(why, fmt.Sprintf("g%d: %s [%s]", g.id, g.why, m.where()))
		}
	}
	m.violation("deadlock", "all goroutines are blocked: "+strings.Join(why, "; "), nil)
	panic(pathEnd{"deadlock"})
}

// yieldPoint gives the scheduler a chance to preempt g before a synchronisation operation.
// It reports true when another goroutine is to run first.
func (m *Machine) yieldPoint(g *G) bool {
	return !m.schedIO && m.yieldIO(g)
}

// yieldIO is yieldPoint before an operation on the environment.
func (m *Machine) yieldIO(g *G) bool {
	if !m.sched || m.preempt <= 0 || m.inInit > 0 || m.syncDepth > 0 {
		return false
	}
	if g.yielded {
		g.yielded = false
		return false
	}
	var rs []*G
	for _, o := range m.gs {
		if o != g && m.ready(o) {
			rs = append(rs, o)
		}
	}
	if len(rs) == 0 {
		return false
	}
	k := m.choose(len(rs) + 1)
	if k == 0 {
		return false
	}
	m.preempt--
	g.yielded = true
	m.switchTo = rs[k-1]
	return true
}

func (m *Machine) block(g *G, why string, cond func() bool) {
	g.blocked = true
	g.cond = cond
	g.why = why
}

func tokenName(t token.Token) string { return t.String() }
