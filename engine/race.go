package main

import (
	"fmt"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Happens-before race detection on the explored schedules (harness option race=1). Goroutines carry vector
// clocks; locks, channels, wait groups, atomics and go statements order them; memory that the module's own
// functions read and write carries the epochs of its last accesses. Operations of the environment models order
// nothing.

type vclock []uint32

func (c vclock) at(i int) uint32 {
	if i < len(c) {
		return c[i]
	}
	return 0
}

func (c vclock) join(o vclock) vclock {
	r := c
	for i, v := range o {
		if i >= len(r) {
			n := make(vclock, len(o))
			copy(n, r)
			r = n
		}
		if r[i] < v {
			r[i] = v
		}
	}
	return r
}

func (c vclock) clone() vclock { return append(vclock(nil), c...) }

type raceAcc struct {
	g   int
	clk uint32
	pos string
	fn  string
}

type raceCell struct {
	w     raceAcc
	reads []raceAcc
}

type rwClock struct{ w, r vclock }

type raceState struct {
	vc    []vclock
	cells map[any]*raceCell
	sync  map[any]*rwClock
	msgs  map[*Chan][]vclock // clocks of the buffered messages
}

func newRaceState() *raceState {
	return &raceState{cells: map[any]*raceCell{}, sync: map[any]*rwClock{}, msgs: map[*Chan][]vclock{}}
}

func (r *raceState) clock(g int) vclock {
	for len(r.vc) <= g {
		r.vc = append(r.vc, nil)
	}
	if len(r.vc[g]) <= g {
		n := make(vclock, g+1)
		copy(n, r.vc[g])
		n[g] = 1
		r.vc[g] = n
	}
	return r.vc[g]
}

func (r *raceState) tick(g int) { r.clock(g)[g]++ }

func (r *raceState) join(g int, c vclock) { r.vc[g] = r.clock(g).join(c) }

func (r *raceState) obj(k any) *rwClock {
	o := r.sync[k]
	if o == nil {
		o = &rwClock{}
		r.sync[k] = o
	}
	return o
}

// hb reports whether happens-before edges of this call count.
func (m *Machine) hb(c *callCtx) bool {
	if m.race == nil || m.inInit > 0 || c.g == nil {
		return false
	}
	return c.f == nil || !strings.HasPrefix(fnPkgPath(c.f.fi.fn), facadeRoot)
}

func (m *Machine) raceAcquire(c *callCtx, k any, readers bool) {
	if m.hb(c) {
		o := m.race.obj(k)
		m.race.join(c.g.id, o.w)
		if readers {
			m.race.join(c.g.id, o.r)
		}
	}
}

func (m *Machine) raceRelease(c *callCtx, k any, reader bool) {
	if m.hb(c) {
		o := m.race.obj(k)
		if reader {
			o.r = o.r.join(m.race.clock(c.g.id).clone())
		} else {
			o.w = o.w.join(m.race.clock(c.g.id).clone())
		}
		m.race.tick(c.g.id)
	}
}

func (m *Machine) raceSpawn(g *G) {
	if m.race == nil || m.inInit > 0 || m.cur == nil {
		return
	}
	m.race.join(g.id, m.race.clock(m.cur.id).clone())
	m.race.tick(m.cur.id)
}

// raceMsg is the clock a message takes along.
func (m *Machine) raceMsg(g int) vclock {
	c := m.race.clock(g).clone()
	m.race.tick(g)
	return c
}

// raceMeet orders both sides of an unbuffered communication (or a hand-over to a waiting receiver).
func (m *Machine) raceMeet(a, b int) {
	if m.race == nil {
		return
	}
	x, y := m.raceMsg(a), m.raceMsg(b)
	m.race.join(a, y)
	m.race.join(b, x)
}

// raceSync makes k an acquire and release operation (atomics).
func (m *Machine) raceSync(c *callCtx, k any) {
	if m.hb(c) {
		o := m.race.obj(k)
		m.race.join(c.g.id, o.w)
		o.w = o.w.join(m.race.clock(c.g.id).clone())
		m.race.tick(c.g.id)
	}
}

func fnPkgPath(fn *ssa.Function) string {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	if fn.Pkg == nil {
		if fn.Object() != nil && fn.Object().Pkg() != nil {
			return fn.Object().Pkg().Path()
		}
		return ""
	}
	return fn.Pkg.Pkg.Path()
}

// raced reports whether the memory accesses of fi count.
func (m *Machine) raced(fi *fnInfo) bool {
	if m.race == nil || len(m.gs) < 2 || m.inInit > 0 {
		return false
	}
	v, ok := m.e.raceFns.Load(fi)
	if !ok {
		p := fnPkgPath(fi.fn)
		r := strings.HasPrefix(p, modPath) && !strings.HasPrefix(p, facadeRoot)
		if r {
			top := fi.fn
			for top.Parent() != nil {
				top = top.Parent()
			}
			if strings.Contains(filepath.Base(m.e.prog.Fset.Position(top.Pos()).Filename), "zz_vf_") {
				r = false
			}
		}
		m.e.raceFns.Store(fi, r)
		v = r
	}
	return v.(bool)
}

func raceName(fn *ssa.Function) string {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn.Name()
}

func (m *Machine) raceAt(fi *fnInfo, in ssa.Instruction) (string, string) {
	p := m.e.prog.Fset.Position(in.Pos())
	return fmt.Sprintf("%s:%d", filepath.Base(p.Filename), p.Line), raceName(fi.fn)
}

// racePtr records an access through p.
func (m *Machine) racePtr(fi *fnInfo, in ssa.Instruction, p Value, write bool) {
	switch p := p.(type) {
	case *Value:
		if p != nil {
			m.raceLeaves(fi, in, p, write)
		}
	case *SymPtr:
		for i := range p.elems {
			m.raceCell(fi, in, &p.elems[i], write)
		}
	}
}

func (m *Machine) raceLeaves(fi *fnInfo, in ssa.Instruction, p *Value, write bool) {
	switch v := (*p).(type) {
	case Struct:
		for i := range v {
			m.raceLeaves(fi, in, &v[i], write)
		}
	case Array:
		for i := range v {
			m.raceLeaves(fi, in, &v[i], write)
		}
	default:
		m.raceCell(fi, in, p, write)
	}
}

func (m *Machine) raceMap(fi *fnInfo, in ssa.Instruction, mp *Map, write bool) {
	if mp != nil {
		m.raceCell(fi, in, mp, write)
	}
}

func (m *Machine) raceCell(fi *fnInfo, in ssa.Instruction, k any, write bool) {
	g := m.cur.id
	vc := m.race.clock(g)
	c := m.race.cells[k]
	if c == nil {
		c = &raceCell{w: raceAcc{g: -1}}
		m.race.cells[k] = c
	}
	if c.w.g >= 0 && c.w.g != g && c.w.clk > vc.at(c.w.g) {
		m.raceFound(fi, in, write, c.w, true)
	}
	if write {
		for _, r := range c.reads {
			if r.g != g && r.clk > vc.at(r.g) {
				m.raceFound(fi, in, true, r, false)
			}
		}
	}
	// positions are only worked out when needed
	if write {
		if c.w.g == g && c.w.clk == vc[g] && len(c.reads) == 0 {
			return
		}
		pos, fn := m.raceAt(fi, in)
		c.w = raceAcc{g, vc[g], pos, fn}
		c.reads = c.reads[:0]
		return
	}
	for i := range c.reads {
		if c.reads[i].g == g {
			if c.reads[i].clk != vc[g] {
				pos, fn := m.raceAt(fi, in)
				c.reads[i] = raceAcc{g, vc[g], pos, fn}
			}
			return
		}
	}
	pos, fn := m.raceAt(fi, in)
	c.reads = append(c.reads, raceAcc{g, vc[g], pos, fn})
}

func (m *Machine) raceFound(fi *fnInfo, in ssa.Instruction, write bool, o raceAcc, owrite bool) {
	pos, fn := m.raceAt(fi, in)
	rw := func(w bool) string {
		if w {
			return "write"
		}
		return "read"
	}
	a, b := fn, o.fn
	if b < a {
		a, b = b, a
	}
	kind := "data race: " + a + " and " + b
	if m.raceSeen[kind] {
		return
	}
	m.raceSeen[kind] = true
	m.violation(kind, fmt.Sprintf("%s in %s (%s) and %s in %s (%s) are not ordered by any synchronisation",
		rw(write), fn, pos, rw(owrite), o.fn, o.pos), nil)
}

// raceDeep records that an encoder reads everything it can reach.
func (m *Machine) raceDeep(c *callCtx, v Value) {
	f := c.f
	for f != nil && strings.HasPrefix(fnPkgPath(f.fi.fn), vfPath) {
		f = f.caller // an encoder redirected there
	}
	if f == nil || !m.raced(f.fi) {
		return
	}
	seen := map[any]bool{}
	var walk func(v Value, d int)
	in := f.fi.blocks[f.bi][f.pc].in
	walk = func(v Value, d int) {
		if d > 12 {
			return
		}
		switch v := v.(type) {
		case Iface:
			if v.t != nil {
				walk(v.v, d+1)
			}
		case *Value:
			if v != nil && !seen[v] {
				seen[v] = true
				m.racePtr(f.fi, in, v, false)
				walk(*v, d+1)
			}
		case Struct:
			for _, x := range v {
				walk(x, d+1)
			}
		case Array:
			for _, x := range v {
				walk(x, d+1)
			}
		case Slice:
			for i := range v {
				m.racePtr(f.fi, in, &v[i], false)
				walk(v[i], d+1)
			}
		case *Map:
			if v != nil && !seen[v] {
				seen[v] = true
				m.raceMap(f.fi, in, v, false)
				for _, e := range v.entries {
					if !e.dead {
						walk(e.key, d+1)
						walk(e.val, d+1)
					}
				}
			}
		}
	}
	walk(v, 0)
}

// raceReport looks for a report of Go's race detector on the functions of a violation.
func raceReport(kind, out string) string {
	fns := strings.Split(strings.TrimPrefix(kind, "data race: "), " and ")
	for _, blk := range strings.Split(out, "==================") {
		if !strings.Contains(blk, "WARNING: DATA RACE") {
			continue
		}
		// the two access stacks come before the goroutine creation stacks
		if i := strings.Index(blk, "\nGoroutine "); i >= 0 {
			blk = blk[:i]
		}
		ok := true
		for _, f := range fns {
			if !strings.Contains(blk, "."+f+"(") && !strings.Contains(blk, "."+f+".") {
				ok = false
			}
		}
		if ok {
			return blk
		}
	}
	return ""
}

func (m *Machine) raceBuiltin(f *Frame, name string, args []Value) {
	in := f.fi.blocks[f.bi][f.pc].in
	switch name {
	case "len":
		if mp, ok := args[0].(*Map); ok {
			m.raceMap(f.fi, in, mp, false)
		}
	case "delete", "clear":
		if mp, ok := args[0].(*Map); ok {
			m.raceMap(f.fi, in, mp, true)
		}
	case "copy":
		if s, ok := args[1].(Slice); ok {
			if d, ok := args[0].(Slice); ok {
				for i := 0; i < len(s) && i < len(d) && i < 256; i++ {
					m.raceCell(f.fi, in, &s[i], false)
					m.raceCell(f.fi, in, &d[i], true)
				}
			}
		}
	}
}
