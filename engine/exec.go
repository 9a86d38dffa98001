package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sync"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func asTerm(v Value) *Term {
	t, ok := v.(*Term)
	if !ok {
		if p, ok := v.(Poison); ok {
			panic(unsupported{"use of value whose initialisation was not supported: " + p.why})
		}
		panic(unsupported{fmt.Sprintf("expected integer, got %T", v)})
	}
	return t
}

func (m *Machine) asPtr(v Value) *Value {
	p, ok := v.(*Value)
	if !ok {
		if p, ok := v.(Poison); ok {
			panic(unsupported{"use of value whose initialisation was not supported: " + p.why})
		}
		panic(unsupported{fmt.Sprintf("expected pointer, got %T", v)})
	}
	if p == nil {
		m.runtimeError("invalid memory address or nil pointer dereference")
	}
	return p
}

// run executes instructions of g until it blocks, ends or mark is done.
func (m *Machine) run(g *G, mark *syncMarker) {
	for {
		f := g.top
		if f == nil {
			g.done = true
			return
		}
		block := f.fi.blocks[f.bi]
		for {
			ci := &block[f.pc]
			m.steps++
			if m.steps > m.maxSteps {
				m.note("step bound reached")
				panic(pathEnd{"steps"})
			}
			adv := m.exec(g, f, ci)
			if adv == stepNext {
				f.pc++
				continue
			}
			if adv == stepNextFrame { // call pushed or returned; pc already handled
				f.pc++
				break
			}
			if adv == stepBlocked {
				return
			}
			break // stepJump: frame or block changed
		}
		if mark != nil && mark.done {
			return
		}
		if g.done || g.blocked || m.switchTo != nil {
			return
		}
	}
}

const (
	stepNext = iota
	stepJump
	stepNextFrame
	stepBlocked
)

func (m *Machine) jump(f *Frame, to *ssa.BasicBlock) {
	f.prev = f.bi
	f.bi = to.Index
	n := f.fi.nphi[to.Index]
	if n > 0 {
		var tmp [8]Value
		vals := tmp[:0]
		pred := -1
		for i, p := range to.Preds {
			if p.Index == f.prev {
				pred = i
				break
			}
		}
		cs := f.fi.blocks[to.Index]
		for i := 0; i < n; i++ {
			vals = append(vals, m.get(f, &cs[i].ops[pred]))
		}
		for i := 0; i < n; i++ {
			f.regs[cs[i].dst] = vals[i]
		}
	}
	f.pc = n
}

func (m *Machine) load(v Value) Value {
	switch p := v.(type) {
	case *Value:
		if p == nil {
			m.runtimeError("invalid memory address or nil pointer dereference")
		}
		return copyVal(*p)
	case *SymPtr:
		return m.selectElem(p.elems, p.idx)
	case Poison:
		panic(unsupported{"load through poison: " + p.why})
	case *Native:
		return p
	}
	panic(unsupported{fmt.Sprintf("load through %T", v)})
}

// selectElem reads elems[idx] for a symbolic in-range idx.
func (m *Machine) selectElem(elems []Value, idx *Term) Value {
	allTerm := len(elems) > 0
	for _, e := range elems {
		if _, ok := e.(*Term); !ok {
			allTerm = false
			break
		}
	}
	if !allTerm {
		i := m.concretize(idx)
		return copyVal(elems[i])
	}
	ts := make([]*Term, len(elems))
	for i, e := range elems {
		ts[i] = e.(*Term)
	}
	return selectConst(ts, idx)
}

// tabled are terms that look an index up in a constant table, so that a lookup of a lookup (say the decoding
// of an encoding) is one lookup.
type tabled struct {
	tab []uint64
	idx *Term
}

var tabledMu sync.RWMutex
var tabledOf = map[*Term]tabled{}

func selectConst(ts []*Term, idx *Term) *Term {
	for _, t := range ts {
		if t.op != OConst {
			return selectTerm(ts, idx, 0)
		}
	}
	if len(ts) > 256 || idx.op == OConst {
		return selectTerm(ts, idx, 0)
	}
	inner := idx
	for inner.op == OZext {
		inner = inner.a
	}
	tabledMu.RLock()
	in, ok := tabledOf[inner]
	tabledMu.RUnlock()
	if ok {
		comp := make([]*Term, len(in.tab))
		id := true
		for i, v := range in.tab {
			if v >= uint64(len(ts)) {
				comp = nil
				break
			}
			comp[i] = ts[v]
			if comp[i].val != uint64(i) {
				id = false
			}
		}
		if comp != nil && id {
			ew := ts[0].w
			switch {
			case in.idx.w > ew:
				return Extract(ew-1, 0, in.idx)
			default:
				return Zext(ew, in.idx)
			}
		}
		if comp != nil {
			return selectConst(comp, in.idx)
		}
	}
	r := selectTerm(ts, idx, 0)
	if r.op == OConst || umax(idx) >= uint64(len(ts)) {
		return r
	}
	tab := make([]uint64, len(ts))
	for i, t := range ts {
		tab[i] = t.val
	}
	tabledMu.Lock()
	tabledOf[r] = tabled{tab, idx}
	tabledMu.Unlock()
	return r
}

// selectTerm builds a balanced decision tree with runs of equal (or constant-offset) elements compressed.
func selectTerm(ts []*Term, idx *Term, base int) *Term {
	type run struct {
		lo, hi int
		t      *Term // value; nil when linear
	}
	var runs []run
	w := idx.w
	ew := ts[0].w
	for i := 0; i < len(ts); {
		j := i + 1
		for j < len(ts) && ts[j] == ts[i] {
			j++
		}
		if j-i >= 2 || ew == 0 || ts[i].op != OConst {
			runs = append(runs, run{i, j, ts[i]})
			i = j
			continue
		}
		// linear run: ts[k] = ts[i] + (k-i)
		for j < len(ts) && ts[j].op == OConst && ts[j].val == (ts[i].val+uint64(j-i))&mask(ew) {
			j++
		}
		if j-i >= 3 {
			var x *Term
			if w >= ew {
				x = Extract(ew-1, 0, idx)
			} else {
				x = Zext(ew, idx)
			}
			runs = append(runs, run{i, j, Add(x, BV(ew, ts[i].val-uint64(i)))})
			i = j
			continue
		}
		runs = append(runs, run{i, i + 1, ts[i]})
		i++
	}
	var build func(lo, hi int) *Term
	build = func(lo, hi int) *Term {
		if hi-lo == 1 {
			return runs[lo].t
		}
		mid := (lo + hi) / 2
		l, r := build(lo, mid), build(mid, hi)
		return Ite(Ult(idx, BV(w, uint64(runs[mid].lo))), l, r)
	}
	return build(0, len(runs))
}

func (m *Machine) storePtr(p Value, v Value) {
	switch p := p.(type) {
	case *Value:
		if p == nil {
			m.runtimeError("invalid memory address or nil pointer dereference")
		}
		m.store(p, v)
	case *SymPtr:
		nv, ok := v.(*Term)
		if !ok {
			i := m.concretize(p.idx)
			m.store(&p.elems[i], v)
			return
		}
		for i := range p.elems {
			old, ok := p.elems[i].(*Term)
			if !ok {
				panic(unsupported{"symbolic store to non-integer"})
			}
			m.setp(&p.elems[i], Ite(Eq(p.idx, BV(p.idx.w, uint64(i))), nv, old))
		}
	case Poison:
		panic(unsupported{"store through poison: " + p.why})
	default:
		panic(unsupported{fmt.Sprintf("store through %T", p)})
	}
}

// boundsCheck returns the index as an int when constant, else -1 after assuming it in range.
func (m *Machine) boundsCheck(idx *Term, signed bool, n int) int {
	if idx.op == OConst {
		i := int64(idx.val)
		if signed {
			i = sx(idx.val, idx.w)
		}
		if i < 0 || i >= int64(n) {
			m.runtimeError(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return int(i)
	}
	var ok *Term
	if uint64(n) > mask(idx.w) {
		ok = True
		if signed {
			ok = Sle(BV(idx.w, 0), idx)
		}
	} else {
		ok = Ult(idx, BV(idx.w, uint64(n)))
		if signed && uint64(n) > mask(idx.w)>>1 {
			ok = And(Sle(BV(idx.w, 0), idx), ok)
		}
	}
	if !m.branch(ok) {
		m.runtimeError(fmt.Sprintf("index out of range [symbolic] with length %d", n))
	}
	return -1
}

func (m *Machine) exec(g *G, f *Frame, ci *cinstr) int {
	switch in := ci.in.(type) {
	case *ssa.BinOp:
		f.regs[ci.dst] = m.binop(in.Op, in.X.Type(), in.Y.Type(), m.get(f, &ci.ops[0]), m.get(f, &ci.ops[1]))
	case *ssa.UnOp:
		x := m.get(f, &ci.ops[0])
		switch in.Op {
		case token.MUL:
			if m.race != nil && m.raced(f.fi) {
				m.racePtr(f.fi, ci.in, x, false)
			}
			f.regs[ci.dst] = m.load(x)
		case token.ARROW:
			if m.yieldPoint(g) {
				return stepBlocked
			}
			return m.recvInstr(g, f, ci, x, in.CommaOk, in.X.Type())
		case token.NOT:
			f.regs[ci.dst] = Not(asTerm(x))
		case token.SUB:
			switch x := x.(type) {
			case float64:
				f.regs[ci.dst] = -x
			case FloatSym:
				f.regs[ci.dst] = x
			default:
				f.regs[ci.dst] = Neg(asTerm(x))
			}
		case token.XOR:
			f.regs[ci.dst] = BNot(asTerm(x))
		default:
			panic(unsupported{"unop " + in.Op.String()})
		}
	case *ssa.Call:
		return m.callInstr(g, f, ci, &in.Call)
	case *ssa.ChangeInterface:
		f.regs[ci.dst] = m.get(f, &ci.ops[0])
	case *ssa.ChangeType:
		f.regs[ci.dst] = m.get(f, &ci.ops[0])
	case *ssa.Convert:
		f.regs[ci.dst] = m.convert(in.X.Type(), in.Type(), m.get(f, &ci.ops[0]))
	case *ssa.MultiConvert:
		f.regs[ci.dst] = m.convert(in.X.Type(), in.Type(), m.get(f, &ci.ops[0]))
	case *ssa.SliceToArrayPointer:
		s := m.get(f, &ci.ops[0]).(Slice)
		n := int(in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if len(s) < n {
			m.runtimeError(fmt.Sprintf("cannot convert slice with length %d to array or pointer to array with length %d", len(s), n))
		}
		if s == nil {
			f.regs[ci.dst] = (*Value)(nil)
		} else {
			p := new(Value)
			*p = Array(s[:n:n])
			f.regs[ci.dst] = p
		}
	case *ssa.MakeInterface:
		f.regs[ci.dst] = Iface{in.X.Type(), copyVal(m.get(f, &ci.ops[0]))}
	case *ssa.Extract:
		v := m.get(f, &ci.ops[0])
		t, ok := v.(Tuple)
		if !ok {
			if p, ok := v.(Poison); ok {
				f.regs[ci.dst] = p
				return stepNext
			}
			panic(unsupported{fmt.Sprintf("extract from %T", v)})
		}
		f.regs[ci.dst] = t[in.Index]
	case *ssa.Alloc:
		p := new(Value)
		*p = zero(in.Type().Underlying().(*types.Pointer).Elem())
		f.regs[ci.dst] = p
	case *ssa.Store:
		if m.race != nil && m.raced(f.fi) {
			m.racePtr(f.fi, ci.in, m.get(f, &ci.ops[0]), true)
		}
		m.storePtr(m.get(f, &ci.ops[0]), m.get(f, &ci.ops[1]))
	case *ssa.FieldAddr:
		x := m.get(f, &ci.ops[0])
		p := m.asPtr(x)
		st, ok := (*p).(Struct)
		if !ok {
			panic(unsupported{fmt.Sprintf("field address of %T (%s)", *p, in.X.Type())})
		}
		f.regs[ci.dst] = &st[in.Field]
	case *ssa.Field:
		st, ok := m.get(f, &ci.ops[0]).(Struct)
		if !ok {
			panic(unsupported{"field of non-struct value " + in.X.Type().String()})
		}
		f.regs[ci.dst] = copyVal(st[in.Field])
	case *ssa.IndexAddr:
		x := m.get(f, &ci.ops[0])
		idx := asTerm(m.get(f, &ci.ops[1]))
		var elems []Value
		switch x := x.(type) {
		case Slice:
			elems = x
		case *Value:
			a, ok := (*m.asPtr(x)).(Array)
			if !ok {
				panic(unsupported{"index address of non-array"})
			}
			elems = a
		default:
			panic(unsupported{fmt.Sprintf("index address of %T", x)})
		}
		i := m.boundsCheck(idx, isSigned(in.Index.Type()), len(elems))
		if i >= 0 {
			f.regs[ci.dst] = &elems[i]
		} else {
			switch elems[0].(type) {
			case *Term:
				f.regs[ci.dst] = &SymPtr{elems, idx}
			default:
				f.regs[ci.dst] = &elems[m.concretize(idx)]
			}
		}
	case *ssa.Index:
		x := m.get(f, &ci.ops[0])
		idx := asTerm(m.get(f, &ci.ops[1]))
		switch x := x.(type) {
		case Array:
			i := m.boundsCheck(idx, isSigned(in.Index.Type()), len(x))
			if i >= 0 {
				f.regs[ci.dst] = copyVal(x[i])
			} else {
				f.regs[ci.dst] = m.selectElem(x, idx)
			}
		case Str:
			f.regs[ci.dst] = m.strIndex(x, idx, isSigned(in.Index.Type()))
		default:
			panic(unsupported{fmt.Sprintf("index of %T", x)})
		}
	case *ssa.Lookup:
		x := m.get(f, &ci.ops[0])
		k := m.get(f, &ci.ops[1])
		if s, ok := x.(Str); ok {
			f.regs[ci.dst] = m.strIndex(s, asTerm(k), isSigned(in.Index.Type()))
			break
		}
		mp, ok := x.(*Map)
		if !ok {
			panic(unsupported{fmt.Sprintf("lookup in %T", x)})
		}
		if m.race != nil && m.raced(f.fi) {
			m.raceMap(f.fi, ci.in, mp, false)
		}
		e := m.mapFind(mp, k)
		var v Value
		if e != nil {
			v = copyVal(e.val)
		} else {
			v = zero(in.X.Type().Underlying().(*types.Map).Elem())
		}
		if in.CommaOk {
			f.regs[ci.dst] = Tuple{v, Bool(e != nil)}
		} else {
			f.regs[ci.dst] = v
		}
	case *ssa.MapUpdate:
		mp, ok := m.get(f, &ci.ops[0]).(*Map)
		if !ok {
			panic(unsupported{"map update of non-map"})
		}
		if mp == nil {
			m.rtErr("assignment to entry in nil map")
		}
		if m.race != nil && m.raced(f.fi) {
			m.raceMap(f.fi, ci.in, mp, true)
		}
		m.mapSet(mp, m.get(f, &ci.ops[1]), copyVal(m.get(f, &ci.ops[2])))
	case *ssa.MakeMap:
		m.idCtr++
		f.regs[ci.dst] = &Map{index: map[string]*mapEntry{}, id: m.idCtr}
	case *ssa.MakeChan:
		n := int(m.concretize(asTerm(m.get(f, &ci.ops[0]))))
		m.idCtr++
		f.regs[ci.dst] = &Chan{cap: n, id: m.idCtr}
	case *ssa.MakeSlice:
		n := int64(m.concretize(asTerm(m.get(f, &ci.ops[0]))))
		c := int64(m.concretize(asTerm(m.get(f, &ci.ops[1]))))
		if n < 0 {
			m.rtErr("runtime error: makeslice: len out of range")
		}
		if c < n {
			m.rtErr("runtime error: makeslice: cap out of range")
		}
		if c > 1<<22 {
			panic(unsupported{"makeslice: too large"})
		}
		f.regs[ci.dst] = makeSlice(in.Type().Underlying().(*types.Slice).Elem(), int(n), int(c))
	case *ssa.MakeClosure:
		env := make([]Value, len(ci.ops)-1)
		for i := range env {
			env[i] = m.get(f, &ci.ops[i+1])
		}
		f.regs[ci.dst] = &Closure{fn: in.Fn.(*ssa.Function), env: env}
	case *ssa.Slice:
		f.regs[ci.dst] = m.sliceOp(f, ci, in)
	case *ssa.TypeAssert:
		f.regs[ci.dst] = m.typeAssert(in, m.get(f, &ci.ops[0]))
	case *ssa.Range:
		x := m.get(f, &ci.ops[0])
		switch x := x.(type) {
		case Str:
			f.regs[ci.dst] = &StrIter{s: x.force()}
		case *Map:
			it := &MapIter{m: x}
			if m.race != nil && m.raced(f.fi) {
				m.raceMap(f.fi, ci.in, x, false)
			}
			if x != nil {
				for _, e := range x.entries {
					if !e.dead {
						it.ents = append(it.ents, e)
					}
				}
			}
			f.regs[ci.dst] = it
		default:
			panic(unsupported{fmt.Sprintf("range over %T", x)})
		}
	case *ssa.Next:
		x := m.get(f, &ci.ops[0])
		if it, ok := x.(*MapIter); ok && m.race != nil && m.raced(f.fi) {
			m.raceMap(f.fi, ci.in, it.m, false)
		}
		f.regs[ci.dst] = m.next(in, x)
	case *ssa.Jump:
		m.jump(f, in.Block().Succs[0])
		return stepJump
	case *ssa.If:
		c := asTerm(m.get(f, &ci.ops[0]))
		if m.branch(c) {
			m.jump(f, in.Block().Succs[0])
		} else {
			m.jump(f, in.Block().Succs[1])
		}
		return stepJump
	case *ssa.Return:
		var v Value
		switch len(ci.ops) {
		case 0:
		case 1:
			v = m.get(f, &ci.ops[0])
		default:
			t := make(Tuple, len(ci.ops))
			for i := range t {
				t[i] = m.get(f, &ci.ops[i])
			}
			v = t
		}
		m.ret(g, f, v)
		return stepJump
	case *ssa.RunDefers:
		if len(f.defers) == 0 {
			return stepNext
		}
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		if d.builtin != nil {
			m.builtin(g, f, d.builtin, d.args, d.call)
			return stepJump
		}
		if !m.call(g, f, -1, d.cl, d.args, true) {
			f.defers = append(f.defers, d)
			return stepBlocked
		}
		return stepJump
	case *ssa.Panic:
		v, ok := m.get(f, &ci.ops[0]).(Iface)
		if !ok {
			panic(unsupported{"panic with a non-interface"})
		}
		m.throw(v)
	case *ssa.Go:
		cl, args, bi := m.prepare(f, ci, &in.Call)
		if bi != nil {
			panic(unsupported{"go with a builtin"})
		}
		m.spawn(cl, args)
	case *ssa.Defer:
		if in.DeferStack != nil {
			panic(unsupported{"defer inside a range-over-func body"})
		}
		cl, args, bi := m.prepare(f, ci, &in.Call)
		f.defers = append(f.defers, deferCall{cl: cl, args: args, builtin: bi, call: &in.Call})
	case *ssa.Send:
		if m.yieldPoint(g) {
			return stepBlocked
		}
		return m.sendInstr(g, f, m.get(f, &ci.ops[0]), copyVal(m.get(f, &ci.ops[1])))
	case *ssa.Select:
		if m.yieldPoint(g) {
			return stepBlocked
		}
		return m.selectInstr(g, f, ci, in)
	default:
		panic(unsupported{fmt.Sprintf("instruction %T", in)})
	}
	return stepNext
}

func makeSlice(elem types.Type, n, c int) Slice {
	s := make(Slice, c)
	if c > 0 {
		z := zero(elem)
		switch z.(type) {
		case Struct, Array:
			for i := range s {
				s[i] = copyVal(z)
			}
		default:
			for i := range s {
				s[i] = z
			}
		}
	}
	return s[:n]
}

func (m *Machine) strIndex(s Str, idx *Term, signed bool) Value {
	s = s.force()
	i := m.boundsCheck(idx, signed, s.length())
	if i >= 0 {
		return s.at(i)
	}
	return selectConst(s.terms(), idx)
}

// prepare resolves callee and arguments of a call.
func (m *Machine) prepare(f *Frame, ci *cinstr, call *ssa.CallCommon) (*Closure, []Value, *ssa.Builtin) {
	if call.IsInvoke() {
		rv := m.get(f, &ci.ops[0])
		recv, ok := rv.(Iface)
		if !ok {
			if p, ok := rv.(Poison); ok {
				panic(unsupported{"method call on poison: " + p.why})
			}
			panic(unsupported{fmt.Sprintf("invoke on %T", rv)})
		}
		if recv.t == nil {
			m.runtimeError("invalid memory address or nil pointer dereference")
		}
		fn := m.e.method(recv.t, call.Method)
		args := make([]Value, len(call.Args)+1) // a defer has one more operand
		args[0] = copyVal(recv.v)
		for i := 1; i < len(args); i++ {
			args[i] = copyVal(m.get(f, &ci.ops[i]))
		}
		return &Closure{fn: fn}, args, nil
	}
	args := make([]Value, len(call.Args))
	for i := range args {
		args[i] = copyVal(m.get(f, &ci.ops[i+1]))
	}
	switch fv := m.get(f, &ci.ops[0]).(type) {
	case *Closure:
		return fv, args, nil
	case *ssa.Builtin:
		return nil, args, fv
	case Poison:
		panic(unsupported{"call of poison: " + fv.why})
	default:
		panic(unsupported{fmt.Sprintf("call of %T", fv)})
	}
}

func (m *Machine) callInstr(g *G, f *Frame, ci *cinstr, call *ssa.CallCommon) int {
	cl, args, bi := m.prepare(f, ci, call)
	if bi != nil {
		f.regs[ci.dst] = m.builtin(g, f, bi, args, call)
		return stepNext
	}
	if !m.call(g, f, ci.dst, cl, args, false) {
		return stepBlocked
	}
	if g.top != f || m.switchTo != nil {
		return stepNextFrame
	}
	return stepNext
}

func (m *Machine) next(in *ssa.Next, x Value) Value {
	switch it := x.(type) {
	case *StrIter:
		n := it.s.length()
		if it.i >= n {
			return Tuple{False, BV(64, 0), BV(32, 0)}
		}
		pos := it.i
		b := it.s.at(pos)
		if b.op == OConst && it.s.b == nil {
			r, sz := utf8.DecodeRuneInString(it.s.s[pos:])
			it.i += sz
			return Tuple{True, BV(64, uint64(pos)), BV(32, uint64(r))}
		}
		if m.branch(Ult(b, BV(8, 0x80))) {
			it.i++
			return Tuple{True, BV(64, uint64(pos)), Zext(32, b)}
		}
		r, sz := m.decodeRune(it.s.slice(pos, n))
		it.i += sz
		return Tuple{True, BV(64, uint64(pos)), r}
	case *MapIter:
		for {
			live := it.ents[:0:0]
			for _, e := range it.ents {
				if !e.dead {
					live = append(live, e)
				}
			}
			it.ents = live
			if len(live) == 0 {
				// entries added during iteration are not visited (permitted by the language)
				t := in.Type().(*types.Tuple)
				zk, zv := Value(nil), Value(nil)
				if b, ok := t.At(1).Type().(*types.Basic); !ok || b.Kind() != types.Invalid {
					zk = zero(t.At(1).Type())
				}
				if b, ok := t.At(2).Type().(*types.Basic); !ok || b.Kind() != types.Invalid {
					zv = zero(t.At(2).Type())
				}
				return Tuple{False, zk, zv}
			}
			k := 0
			if m.mapOrder && len(live) > 1 {
				k = m.choose(len(live))
			}
			e := live[k]
			it.ents = append(append([]*mapEntry{}, live[:k]...), live[k+1:]...)
			return Tuple{True, e.key, copyVal(e.val)}
		}
	}
	panic(unsupported{fmt.Sprintf("next on %T", x)})
}

// decodeRune decodes the first rune of a symbolic string whose first byte is >= 0x80.
func (m *Machine) decodeRune(s Str) (*Term, int) {
	fn := m.e.findFunc("unicode/utf8", "DecodeRuneInString")
	r := m.callSync(&Closure{fn: fn}, []Value{s}).(Tuple)
	return r[0].(*Term), int(m.concretize(r[1].(*Term)))
}

func (m *Machine) sliceOp(f *Frame, ci *cinstr, in *ssa.Slice) Value {
	x := m.get(f, &ci.ops[0])
	arg := func(i int) (int, bool) {
		o := &ci.ops[i]
		if o.kind == 3 {
			return 0, false
		}
		return int(int64(m.concretize(asTerm(m.get(f, o))))), true
	}
	// operands are X, Low, High, Max
	lo, hasLo := arg(1)
	hi, hasHi := arg(2)
	mx, hasMax := arg(3)
	_ = hasLo
	switch v := x.(type) {
	case Str:
		n := v.length()
		if !hasHi {
			hi = n
		}
		if hi < 0 || hi > n {
			m.runtimeError(fmt.Sprintf("slice bounds out of range [:%d] with length %d", hi, n))
		}
		if lo < 0 || lo > hi {
			m.runtimeError(fmt.Sprintf("slice bounds out of range [%d:%d]", lo, hi))
		}
		return v.slice(lo, hi)
	case Slice:
		if !hasHi {
			hi = len(v)
		}
		if !hasMax {
			mx = cap(v)
		}
		if mx < 0 || mx > cap(v) || hi < 0 || hi > mx {
			m.runtimeError(fmt.Sprintf("slice bounds out of range [:%d] with capacity %d", hi, cap(v)))
		}
		if lo < 0 || lo > hi {
			m.runtimeError(fmt.Sprintf("slice bounds out of range [%d:%d]", lo, hi))
		}
		return v[lo:hi:mx]
	case *Value:
		a, ok := (*m.asPtr(v)).(Array)
		if !ok {
			panic(unsupported{"slice of pointer to non-array"})
		}
		if !hasHi {
			hi = len(a)
		}
		if !hasMax {
			mx = len(a)
		}
		if mx < 0 || mx > len(a) || hi < 0 || hi > mx {
			m.runtimeError(fmt.Sprintf("slice bounds out of range [:%d] with length %d", hi, len(a)))
		}
		if lo < 0 || lo > hi {
			m.runtimeError(fmt.Sprintf("slice bounds out of range [%d:%d]", lo, hi))
		}
		return Slice(a)[lo:hi:mx]
	case Poison:
		panic(unsupported{"slice of poison: " + v.why})
	}
	panic(unsupported{fmt.Sprintf("slice of %T", x)})
}

func (m *Machine) typeAssert(in *ssa.TypeAssert, x Value) Value {
	v, ok := x.(Iface)
	if !ok {
		panic(unsupported{fmt.Sprintf("type assertion on %T", x)})
	}
	want := in.AssertedType
	match := false
	var res Value
	if v.t != nil {
		if types.IsInterface(want) {
			match = m.e.implements(v.t, want)
			res = v
		} else {
			match = m.e.identical(v.t, want)
			res = v.v
		}
	}
	if !match {
		if in.CommaOk {
			return Tuple{zero(want), False}
		}
		if v.t == nil {
			m.rtErr(fmt.Sprintf("interface conversion: interface is nil, not %s", want))
		}
		m.rtErr(fmt.Sprintf("interface conversion: interface is %s, not %s", v.t, want))
	}
	res = copyVal(res)
	if in.CommaOk {
		return Tuple{res, True}
	}
	return res
}

// ---- maps ----

func (m *Machine) mapFind(mp *Map, k Value) *mapEntry {
	if mp == nil {
		return nil
	}
	if iv, ok := k.(Iface); ok && iv.t != nil && !types.Comparable(iv.t) {
		m.rtErr("runtime error: hash of unhashable type " + iv.t.String())
	}
	ks, conc := keyStr(k)
	if conc {
		if e := mp.index[ks]; e != nil && !e.dead {
			return e
		}
		if mp.nsym == 0 {
			return nil
		}
	}
	for _, e := range mp.entries {
		if e.dead {
			continue
		}
		if conc {
			if _, c := keyStr(e.key); c {
				continue
			}
		}
		if m.branch(m.equal(k, e.key)) {
			return e
		}
	}
	return nil
}

func (m *Machine) mapSet(mp *Map, k, v Value) {
	if e := m.mapFind(mp, k); e != nil {
		m.store(&e.val, v)
		return
	}
	e := &mapEntry{key: copyVal(k), val: v}
	ks, conc := keyStr(k)
	mp.entries = append(mp.entries, e)
	mp.n++
	if conc {
		mp.index[ks] = e
	} else {
		mp.nsym++
	}
	if m.inInit == 0 {
		m.undo = append(m.undo, undoRec{f: func() {
			mp.entries = mp.entries[:len(mp.entries)-1]
			mp.n--
			if conc {
				delete(mp.index, ks)
			} else {
				mp.nsym--
			}
		}})
	}
}

func (m *Machine) mapDelete(mp *Map, k Value) {
	e := m.mapFind(mp, k)
	if e == nil {
		return
	}
	m.mapKill(mp, e)
}

func (m *Machine) mapKill(mp *Map, e *mapEntry) {
	ks, conc := keyStr(e.key)
	e.dead = true
	mp.n--
	old := mp.entries
	ne := make([]*mapEntry, 0, len(old))
	for _, x := range old {
		if x != e {
			ne = append(ne, x)
		}
	}
	mp.entries = ne
	if conc {
		delete(mp.index, ks)
	} else {
		mp.nsym--
	}
	if m.inInit == 0 {
		m.undo = append(m.undo, undoRec{f: func() {
			e.dead = false
			mp.n++
			mp.entries = old
			if conc {
				mp.index[ks] = e
			} else {
				mp.nsym++
			}
		}})
	}
}

// ---- equality ----

func (m *Machine) equal(x, y Value) *Term {
	switch a := x.(type) {
	case *Term:
		return Eq(a, asTerm(y))
	case Str:
		return strEq(a, y.(Str))
	case float64:
		b, ok := y.(float64)
		if !ok {
			panic(unsupported{"comparison of symbolic float"})
		}
		return Bool(a == b)
	case Struct:
		b := y.(Struct)
		r := True
		for i := range a {
			r = And(r, m.equal(a[i], b[i]))
			if r == False {
				break
			}
		}
		return r
	case Array:
		b := y.(Array)
		r := True
		for i := range a {
			r = And(r, m.equal(a[i], b[i]))
			if r == False {
				break
			}
		}
		return r
	case Iface:
		b, ok := y.(Iface)
		if !ok {
			panic(unsupported{fmt.Sprintf("interface compared with %T", y)})
		}
		if a.t == nil || b.t == nil {
			return Bool(a.t == nil && b.t == nil)
		}
		if !m.e.identical(a.t, b.t) {
			return False
		}
		if !types.Comparable(a.t) {
			m.rtErr("runtime error: comparing uncomparable type " + a.t.String())
		}
		return m.equal(a.v, b.v)
	case *Value:
		if b, ok := y.(*Value); ok {
			return Bool(a == b)
		}
		if _, ok := y.(*Native); ok {
			return False
		}
	case *Native:
		b, ok := y.(*Native)
		return Bool(ok && a == b)
	case *Chan:
		if b, ok := y.(*Chan); ok {
			return Bool(a == b)
		}
	case *Map:
		if b, ok := y.(*Map); ok && (a == nil || b == nil) {
			return Bool(a == b)
		}
	case Slice:
		if b, ok := y.(Slice); ok && (a == nil || b == nil) {
			return Bool(a == nil && b == nil)
		}
	case *Closure:
		if b, ok := y.(*Closure); ok && (a == nil || b == nil) {
			return Bool(a == b)
		}
	}
	panic(unsupported{fmt.Sprintf("comparison of %T and %T", x, y)})
}

func (m *Machine) binop(op token.Token, xt, yt types.Type, x, y Value) Value {
	switch op {
	case token.EQL:
		return m.equal(x, y)
	case token.NEQ:
		return Not(m.equal(x, y))
	}
	switch a := x.(type) {
	case Str:
		b := y.(Str)
		switch op {
		case token.ADD:
			return concat(a, b)
		case token.LSS:
			return strLess(a, b)
		case token.GTR:
			return strLess(b, a)
		case token.LEQ:
			return Not(strLess(b, a))
		case token.GEQ:
			return Not(strLess(a, b))
		}
	case float64:
		b, ok := y.(float64)
		if !ok {
			return m.floatSym(op)
		}
		switch op {
		case token.ADD:
			return a + b
		case token.SUB:
			return a - b
		case token.MUL:
			return a * b
		case token.QUO:
			return a / b
		case token.LSS:
			return Bool(a < b)
		case token.LEQ:
			return Bool(a <= b)
		case token.GTR:
			return Bool(a > b)
		case token.GEQ:
			return Bool(a >= b)
		}
	case FloatSym:
		return m.floatSym(op)
	}
	a, b := asTerm(x), asTerm(y)
	signed := isSigned(xt)
	switch op {
	case token.ADD:
		return Add(a, b)
	case token.SUB:
		return Sub(a, b)
	case token.MUL:
		return Mul(a, b)
	case token.QUO, token.REM:
		if !m.branch(Not(Eq(b, BV(b.w, 0)))) {
			m.runtimeError("integer divide by zero")
		}
		switch {
		case op == token.QUO && signed:
			return Sdiv(a, b)
		case op == token.QUO:
			return Udiv(a, b)
		case signed:
			return Srem(a, b)
		}
		return Urem(a, b)
	case token.AND:
		if a.w == 0 {
			return And(a, b)
		}
		return BAnd(a, b)
	case token.OR:
		if a.w == 0 {
			return Or(a, b)
		}
		return BOr(a, b)
	case token.XOR:
		return BXor(a, b)
	case token.AND_NOT:
		return BAnd(a, BNot(b))
	case token.SHL, token.SHR:
		if isSigned(yt) {
			if !m.branch(Sle(BV(b.w, 0), b)) {
				m.runtimeError("negative shift amount")
			}
		}
		var s *Term
		if b.w > a.w {
			s = Ite(Ult(b, BV(b.w, uint64(a.w))), Extract(a.w-1, 0, b), BV(a.w, uint64(a.w)))
			if a.w == 1 {
				panic(unsupported{"shift of 1-bit value"})
			}
		} else {
			s = Zext(a.w, b)
		}
		if op == token.SHL {
			return Shl(a, s)
		}
		if signed {
			return Ashr(a, s)
		}
		return Lshr(a, s)
	case token.LSS:
		if signed {
			return Slt(a, b)
		}
		return Ult(a, b)
	case token.LEQ:
		if signed {
			return Sle(a, b)
		}
		return Ule(a, b)
	case token.GTR:
		if signed {
			return Slt(b, a)
		}
		return Ult(b, a)
	case token.GEQ:
		if signed {
			return Sle(b, a)
		}
		return Ule(b, a)
	}
	panic(unsupported{"binop " + op.String()})
}

func (m *Machine) floatSym(op token.Token) Value {
	switch op {
	case token.ADD, token.SUB, token.MUL, token.QUO:
		return FloatSym{}
	}
	panic(unsupported{"comparison of symbolic floating point value"})
}

func (m *Machine) convert(from, to types.Type, x Value) Value {
	fu, tu := from.Underlying(), to.Underlying()
	if p, ok := x.(Poison); ok {
		return p
	}
	switch tt := tu.(type) {
	case *types.Basic:
		fb, fok := fu.(*types.Basic)
		switch {
		case tt.Info()&types.IsInteger != 0:
			w, _ := intWidth(tt)
			switch v := x.(type) {
			case *Term:
				if v.w >= w {
					if v.w == w {
						return v
					}
					return Extract(w-1, 0, v)
				}
				if fok && fb.Info()&types.IsUnsigned == 0 {
					return Sext(w, v)
				}
				return Zext(w, v)
			case float64:
				if tt.Info()&types.IsUnsigned != 0 {
					return BV(w, uint64(v))
				}
				return BV(w, uint64(int64(v)))
			case FloatSym:
				panic(unsupported{"conversion of symbolic float to integer"})
			case *Value: // uintptr(unsafe.Pointer)
				panic(unsupported{"pointer to integer conversion"})
			}
		case tt.Info()&types.IsFloat != 0:
			switch v := x.(type) {
			case float64:
				if tt.Kind() == types.Float32 {
					return float64(float32(v))
				}
				return v
			case FloatSym:
				return v
			case *Term:
				if v.op != OConst {
					return FloatSym{}
				}
				if fok && fb.Info()&types.IsUnsigned != 0 {
					return float64(v.val)
				}
				return float64(sx(v.val, v.w))
			}
		case tt.Info()&types.IsString != 0:
			switch v := x.(type) {
			case Str:
				return v
			case *Term:
				if v.op != OConst {
					if m.branch(Ult(v, BV(v.w, 0x80))) {
						return strOfBytes([]*Term{Extract(7, 0, v)})
					}
					v = BV(v.w, m.concretize(v))
				}
				return mkStr(string(rune(sx(v.val, v.w))))
			case Slice:
				if e, ok := fu.(*types.Slice); ok {
					if b, ok := e.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Int32 {
						var r Str
						for _, c := range v {
							r = concat(r, m.convert(types.Typ[types.Int32], to, c).(Str))
						}
						return r
					}
				}
				return strOfBytes(bytesToTerms(v))
			}
		case tt.Kind() == types.UnsafePointer:
			return x
		case tt.Info()&types.IsComplex != 0:
			return complex128(0)
		}
	case *types.Slice:
		if s, ok := x.(Str); ok {
			if b, ok := tt.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Int32 {
				it := &StrIter{s: s.force()}
				var out Slice
				for it.i < it.s.length() {
					r := m.next(nil, it).(Tuple)
					out = append(out, r[2])
				}
				if out == nil {
					out = Slice{}
				}
				return out
			}
			return termsToSlice(s.terms())
		}
		return x
	case *types.Array:
		if s, ok := x.(Slice); ok {
			n := int(tt.Len())
			if len(s) < n {
				m.runtimeError(fmt.Sprintf("cannot convert slice with length %d to array or pointer to array with length %d", len(s), n))
			}
			return copyVal(Array(s[:n]))
		}
	case *types.Pointer:
		if fb, ok := fu.(*types.Basic); ok && fb.Kind() == types.UnsafePointer {
			return x
		}
		return x
	default:
		return x
	}
	panic(unsupported{fmt.Sprintf("conversion of %T from %s to %s", x, from, to)})
}

// ---- builtins ----

func (m *Machine) builtin(g *G, f *Frame, b *ssa.Builtin, args []Value, call *ssa.CallCommon) Value {
	for _, a := range args {
		if p, ok := a.(Poison); ok {
			panic(unsupported{"builtin on poison: " + p.why})
		}
	}
	if m.race != nil && m.raced(f.fi) {
		m.raceBuiltin(f, b.Name(), args)
	}
	switch b.Name() {
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		s := args[0].(Slice)
		var add Slice
		switch x := args[1].(type) {
		case Slice:
			add = x
		case Str:
			add = termsToSlice(x.terms())
		}
		return m.appendSlice(s, add)
	case "copy":
		dst := args[0].(Slice)
		var src Slice
		switch x := args[1].(type) {
		case Slice:
			src = x
		case Str:
			src = termsToSlice(x.terms())
		}
		n := min(len(dst), len(src))
		tmp := make([]Value, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			m.store(&dst[i], tmp[i])
		}
		return BV(64, uint64(n))
	case "len":
		switch x := args[0].(type) {
		case Str:
			return BV(64, uint64(x.length()))
		case Slice:
			return BV(64, uint64(len(x)))
		case *Map:
			if x == nil {
				return BV(64, 0)
			}
			return BV(64, uint64(x.n))
		case *Chan:
			if x == nil {
				return BV(64, 0)
			}
			return BV(64, uint64(len(x.buf)))
		case Array:
			return BV(64, uint64(len(x)))
		case *Value:
			if x == nil {
				t := call.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
				return BV(64, uint64(t.Len()))
			}
			return BV(64, uint64(len((*x).(Array))))
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return BV(64, uint64(cap(x)))
		case *Chan:
			if x == nil {
				return BV(64, 0)
			}
			return BV(64, uint64(x.cap))
		case Array:
			return BV(64, uint64(len(x)))
		case *Value:
			return BV(64, uint64(len((*x).(Array))))
		}
	case "delete":
		mp := args[0].(*Map)
		if mp != nil {
			m.mapDelete(mp, args[1])
		}
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *Map:
			if x != nil {
				for _, e := range append([]*mapEntry{}, x.entries...) {
					m.mapKill(x, e)
				}
			}
		case Slice:
			et := call.Args[0].Type().Underlying().(*types.Slice).Elem()
			for i := range x {
				m.store(&x[i], zero(et))
			}
		}
		return nil
	case "close":
		m.closeChan(args[0].(*Chan))
		return nil
	case "recover":
		// the frame executing recover must have been called by the defer mechanism
		c := f.caller
		if f.isDefer && c != nil && c.unwinding && c.panicking != nil && !c.panicking.recovered {
			c.panicking.recovered = true
			v := c.panicking.val
			if v.t == nil {
				v = Iface{}
			}
			return v
		}
		return Iface{}
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		for _, x := range args[1:] {
			switch a := r.(type) {
			case *Term:
				bt := x.(*Term)
				var lt *Term
				if isSigned(call.Args[0].Type()) {
					lt = Slt(bt, a)
				} else {
					lt = Ult(bt, a)
				}
				if b.Name() == "max" {
					if isSigned(call.Args[0].Type()) {
						lt = Slt(a, bt)
					} else {
						lt = Ult(a, bt)
					}
				}
				r = Ite(lt, bt, a)
			case float64:
				bf := x.(float64)
				if (b.Name() == "min") == (bf < a) {
					r = bf
				}
			case Str:
				lt := strLess(x.(Str), a)
				if b.Name() == "max" {
					lt = strLess(a, x.(Str))
				}
				if m.branch(lt) {
					r = x
				}
			}
		}
		return r
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Value); ok && p == nil {
			m.rtErr("value method called using nil pointer")
		}
		return args[0]
	case "SliceData", "StringData": // unsafe
		return &Native{v: args[0]}
	case "String", "Slice":
		n := int(m.concretize(asTerm(args[1])))
		if nv, ok := args[0].(*Native); ok {
			switch x := nv.v.(type) {
			case Slice:
				if b.Name() == "String" {
					return strOfBytes(bytesToTerms(x[:n]))
				}
				return x[:n]
			case Str:
				if b.Name() == "String" {
					return x.slice(0, n)
				}
				return termsToSlice(x.slice(0, n).terms())
			}
		}
		if p, ok := args[0].(*Value); ok {
			if n == 0 {
				if b.Name() == "String" {
					return Str{}
				}
				return Slice{}
			}
			if n == 1 && p != nil {
				if b.Name() == "String" {
					return strOfBytes([]*Term{asTerm(*p)})
				}
			}
		}
	}
	panic(unsupported{fmt.Sprintf("builtin %s(%T)", b.Name(), args[0])})
}

func (m *Machine) appendSlice(s, add Slice) Slice {
	n := len(s) + len(add)
	if len(add) == 0 {
		return s
	}
	if n <= cap(s) {
		r := s[:n]
		tmp := make([]Value, len(add))
		for i := range add {
			tmp[i] = copyVal(add[i])
		}
		for i := range tmp {
			// slots beyond len may hold stale aggregates: replace rather than write in place
			m.setp(&r[len(s)+i], tmp[i])
		}
		return r
	}
	c := cap(s) * 2
	if cap(s) > 256 {
		c = cap(s) + cap(s)/4 + 192
	}
	if c < n {
		c = n
	}
	r := make(Slice, n, c)
	copy(r, s)
	for i := range s {
		switch s[i].(type) {
		case Struct, Array:
			r[i] = copyVal(s[i])
		}
	}
	for i := range add {
		r[len(s)+i] = copyVal(add[i])
	}
	// spare capacity needs zero values for reslicing
	if n < c {
		z := Value(nil)
		if n > 0 {
			z = zeroLike(r[0])
		}
		full := r[:c]
		for i := n; i < c; i++ {
			full[i] = copyVal(z)
		}
	}
	return r
}

func zeroLike(v Value) Value {
	switch v := v.(type) {
	case *Term:
		if v.w == 0 {
			return False
		}
		return BV(v.w, 0)
	case Str:
		return Str{}
	case Struct:
		r := make(Struct, len(v))
		for i := range v {
			r[i] = zeroLike(v[i])
		}
		return r
	case Array:
		r := make(Array, len(v))
		for i := range v {
			r[i] = zeroLike(v[i])
		}
		return r
	case Slice:
		return Slice(nil)
	case *Value:
		return (*Value)(nil)
	case *Map:
		return (*Map)(nil)
	case *Chan:
		return (*Chan)(nil)
	case *Closure:
		return (*Closure)(nil)
	case Iface:
		return Iface{}
	case float64, FloatSym:
		return float64(0)
	}
	return v
}

// ---- channels ----

func (m *Machine) closeChan(c *Chan) {
	if c == nil {
		m.rtErr("close of nil channel")
	}
	if c.closed {
		m.rtErr("close of closed channel")
	}
	c.closed = true
	if m.race != nil && m.cur != nil {
		o := m.race.obj(c)
		o.w = o.w.join(m.raceMsg(m.cur.id))
	}
	for _, w := range c.recvq {
		if w.taken || w.sel != nil && w.sel.fired {
			continue
		}
		w.taken = true
		if w.sel != nil {
			w.sel.fired = true
		}
		w.g.blocked = false
		if m.race != nil {
			m.race.join(w.g.id, m.race.obj(c).w)
		}
		w.recv(nil, false)
	}
	c.recvq = nil
	for _, w := range c.sendq {
		if w.taken || w.sel != nil && w.sel.fired {
			continue
		}
		w.taken = true
		if w.sel != nil {
			w.sel.fired = true
		}
		w.g.blocked = false
		w.g.pending = &goPanic{msg: "send on closed channel", val: Iface{t: m.e.rtErrType, v: Struct{mkStr("send on closed channel")}}}
	}
	c.sendq = nil
}

func popWaiter(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if w.taken || w.sel != nil && w.sel.fired {
			continue
		}
		return w
	}
	return nil
}

func peekWaiter(q []*waiter) bool {
	for _, w := range q {
		if !(w.taken || w.sel != nil && w.sel.fired) {
			return true
		}
	}
	return false
}

func fire(w *waiter) {
	w.taken = true
	if w.sel != nil {
		w.sel.fired = true
	}
	w.g.blocked = false
}

// trySend attempts a non-blocking send.
func (m *Machine) trySend(c *Chan, v Value) bool {
	if c.closed {
		m.rtErr("send on closed channel")
	}
	if w := popWaiter(&c.recvq); w != nil {
		fire(w)
		m.raceMeet(m.cur.id, w.g.id)
		w.recv(v, true)
		return true
	}
	if len(c.buf) < c.cap {
		c.buf = append(c.buf[:len(c.buf):len(c.buf)], v)
		if m.race != nil {
			// a receive makes room for a later send
			m.race.join(m.cur.id, m.race.obj(c).r)
			m.race.msgs[c] = append(m.race.msgs[c], m.raceMsg(m.cur.id))
		}
		return true
	}
	return false
}

func (m *Machine) tryRecv(c *Chan) (Value, bool, bool) {
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = c.buf[1:]
		if m.race != nil {
			if q := m.race.msgs[c]; len(q) > 0 {
				m.race.join(m.cur.id, q[0])
				m.race.msgs[c] = q[1:]
			}
			o := m.race.obj(c)
			o.r = o.r.join(m.raceMsg(m.cur.id))
		}
		if w := popWaiter(&c.sendq); w != nil {
			fire(w)
			if m.race != nil {
				m.race.join(w.g.id, m.race.obj(c).r)
				m.race.msgs[c] = append(m.race.msgs[c], m.raceMsg(w.g.id))
			}
			c.buf = append(c.buf[:len(c.buf):len(c.buf)], w.val)
			w.send()
		}
		return v, true, true
	}
	if w := popWaiter(&c.sendq); w != nil {
		fire(w)
		m.raceMeet(m.cur.id, w.g.id)
		w.send()
		return w.val, true, true
	}
	if c.closed {
		if m.race != nil {
			m.race.join(m.cur.id, m.race.obj(c).w)
		}
		return nil, false, true
	}
	return nil, false, false
}

func (m *Machine) recvInstr(g *G, f *Frame, ci *cinstr, x Value, commaOk bool, ct types.Type) int {
	c, ok := x.(*Chan)
	if !ok {
		panic(unsupported{fmt.Sprintf("receive from %T", x)})
	}
	et := ct.Underlying().(*types.Chan).Elem()
	set := func(v Value, ok bool) {
		if !ok {
			v = zero(et)
		}
		if commaOk {
			f.regs[ci.dst] = Tuple{v, Bool(ok)}
		} else {
			f.regs[ci.dst] = v
		}
	}
	if c != nil {
		if v, ok, done := m.tryRecv(c); done {
			set(v, ok)
			return stepNext
		}
	}
	m.block(g, "chan receive", nil)
	if c != nil {
		c.recvq = append(c.recvq, &waiter{g: g, recv: func(v Value, ok bool) { set(v, ok); f.pc++ }})
	}
	return stepBlocked
}

func (m *Machine) sendInstr(g *G, f *Frame, x Value, v Value) int {
	c, ok := x.(*Chan)
	if !ok {
		panic(unsupported{fmt.Sprintf("send to %T", x)})
	}
	if c != nil && m.trySend(c, v) {
		return stepNext
	}
	m.block(g, "chan send", nil)
	if c != nil {
		c.sendq = append(c.sendq, &waiter{g: g, val: v, send: func() { f.pc++ }})
	}
	return stepBlocked
}

func (m *Machine) selectInstr(g *G, f *Frame, ci *cinstr, in *ssa.Select) int {
	n := len(in.States)
	// operands: Chan, Send for each state, in order (nil Send omitted as kind 3)
	chans := make([]*Chan, n)
	sends := make([]Value, n)
	k := 0
	for i, st := range in.States {
		c, ok := m.get(f, &ci.ops[k]).(*Chan)
		if !ok {
			panic(unsupported{"select on a non-channel"})
		}
		chans[i] = c
		k++
		if st.Send != nil {
			sends[i] = copyVal(m.get(f, &ci.ops[k]))
		}
		k++
	}
	set := func(idx int, v Value, ok bool) {
		t := Tuple{BV(64, uint64(int64(idx))), Bool(ok)}
		for i, st := range in.States {
			if st.Dir == types.RecvOnly {
				if i == idx && ok {
					t = append(t, v)
				} else {
					t = append(t, zero(st.Chan.Type().Underlying().(*types.Chan).Elem()))
				}
			}
		}
		f.regs[ci.dst] = t
	}
	var readyIdx []int
	for i, st := range in.States {
		c := chans[i]
		if c == nil {
			continue
		}
		if st.Dir == types.SendOnly {
			if c.closed || peekWaiter(c.recvq) || len(c.buf) < c.cap {
				readyIdx = append(readyIdx, i)
			}
		} else if len(c.buf) > 0 || peekWaiter(c.sendq) || c.closed {
			readyIdx = append(readyIdx, i)
		}
	}
	if len(readyIdx) > 0 {
		i := readyIdx[0]
		if len(readyIdx) > 1 {
			i = readyIdx[m.choose(len(readyIdx))]
		}
		if in.States[i].Dir == types.SendOnly {
			if !m.trySend(chans[i], sends[i]) {
				panic("select: send not ready")
			}
			set(i, nil, false)
		} else {
			v, ok, done := m.tryRecv(chans[i])
			if !done {
				panic("select: receive not ready")
			}
			set(i, v, ok)
		}
		return stepNext
	}
	if !in.Blocking {
		set(-1, nil, false)
		return stepNext
	}
	sel := &selState{}
	m.block(g, "select", nil)
	for i, st := range in.States {
		c := chans[i]
		if c == nil {
			continue
		}
		i := i
		if st.Dir == types.SendOnly {
			c.sendq = append(c.sendq, &waiter{g: g, sel: sel, idx: i, val: sends[i], send: func() { set(i, nil, false); f.pc++ }})
		} else {
			c.recvq = append(c.recvq, &waiter{g: g, sel: sel, idx: i, recv: func(v Value, ok bool) { set(i, v, ok); f.pc++ }})
		}
	}
	return stepBlocked
}
