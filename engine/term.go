package main

import (
	"fmt"
	"math/bits"
	"strings"
	"sync"
	"sync/atomic"
)

// Op is the operator of a solver term. Width 0 means Bool.
type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OIte
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OAdd
	OSub
	OMul
	OUdiv
	OUrem
	OSdiv
	OSrem
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OShl
	OLshr
	OAshr
	OConcat  // a high, b low
	OExtract // val = hi<<8|lo
	OZext
	OSext
	ODec // val = digit index 0..19 of the 20-digit decimal text of a (64 bit)
)

// Term is an immutable hash-consed solver term (bit-vector of width w<=64, or Bool when w==0).
type Term struct {
	op      Op
	w       uint8
	id      uint32
	val     uint64
	a, b, c *Term
	name    string
	rlo     uint64 // cached range
	rhi     uint64
	rok     uint32
}

type tkey struct {
	op      Op
	w       uint8
	a, b, c uint32
	val     uint64
}

const nshard = 256

type shard struct {
	mu   sync.Mutex
	tab  map[tkey]*Term
	vars map[string]*Term
	_    [64]byte
}

var shards [nshard]shard
var termCount uint32

func init() {
	for i := range shards {
		shards[i].tab = map[tkey]*Term{}
		shards[i].vars = map[string]*Term{}
	}
}

func mix(k tkey) uint64 {
	h := uint64(k.op)*0x9E3779B97F4A7C15 ^ uint64(k.w)<<56
	h = (h ^ uint64(k.a)) * 0xff51afd7ed558ccd
	h = (h ^ uint64(k.b)) * 0xc4ceb9fe1a85ec53
	h = (h ^ uint64(k.c)) * 0x9E3779B97F4A7C15
	h = (h ^ k.val) * 0xff51afd7ed558ccd
	return h ^ h>>29
}

func tid(t *Term) uint32 {
	if t == nil {
		return 0
	}
	return t.id
}

func intern(op Op, w uint8, val uint64, a, b, c *Term) *Term {
	k := tkey{op, w, tid(a), tid(b), tid(c), val}
	s := &shards[mix(k)%nshard]
	s.mu.Lock()
	t := s.tab[k]
	if t == nil {
		t = &Term{op: op, w: w, id: atomic.AddUint32(&termCount, 1), val: val, a: a, b: b, c: c}
		s.tab[k] = t
	}
	s.mu.Unlock()
	return t
}

// smallConst caches the common constants.
var smallConst [65][257]*Term

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

var True, False *Term

func init() {
	True = intern(OConst, 0, 1, nil, nil, nil)
	False = intern(OConst, 0, 0, nil, nil, nil)
	for _, w := range []uint8{1, 8, 16, 32, 64} {
		for v := uint64(0); v <= 256; v++ {
			if v <= mask(w) {
				smallConst[w][v] = intern(OConst, w, v, nil, nil, nil)
			}
		}
	}
}

func BV(w uint8, v uint64) *Term {
	v &= mask(w)
	if v <= 256 {
		if t := smallConst[w][v]; t != nil {
			return t
		}
	}
	return intern(OConst, w, v, nil, nil, nil)
}

func Bool(b bool) *Term {
	if b {
		return True
	}
	return False
}

// Var returns the variable of that name; names carry their width so they are never reused at two sorts.
func Var(name string, w uint8) *Term {
	var h uint64 = 14695981039346656037
	for i := 0; i < len(name); i++ {
		h = (h ^ uint64(name[i])) * 1099511628211
	}
	s := &shards[h%nshard]
	s.mu.Lock()
	defer s.mu.Unlock()
	if t := s.vars[name]; t != nil {
		if t.w != w {
			panic("variable " + name + " used at two widths")
		}
		return t
	}
	t := &Term{op: OVar, w: w, id: atomic.AddUint32(&termCount, 1), name: name}
	s.vars[name] = t
	return t
}

// setBound records the largest value of a variable (asserted separately by whoever creates it).
func (t *Term) setBound(hi uint64) {
	if t.val != hi {
		t.val = hi
	}
}

func (t *Term) IsConst() bool { return t.op == OConst }
func (t *Term) IsTrue() bool  { return t == True }
func (t *Term) IsFalse() bool { return t == False }

func sx(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - w
	return int64(v<<s) >> s
}

func Not(a *Term) *Term {
	switch {
	case a == True:
		return False
	case a == False:
		return True
	case a.op == ONot:
		return a.a
	}
	return intern(ONot, 0, 0, a, nil, nil)
}

func And(a, b *Term) *Term {
	switch {
	case a == False || b == False:
		return False
	case a == True:
		return b
	case b == True || a == b:
		return a
	case a.op == ONot && a.a == b, b.op == ONot && b.a == a:
		return False
	}
	return intern(OAnd, 0, 0, a, b, nil)
}

func Or(a, b *Term) *Term {
	switch {
	case a == True || b == True:
		return True
	case a == False:
		return b
	case b == False || a == b:
		return a
	case a.op == ONot && a.a == b, b.op == ONot && b.a == a:
		return True
	}
	return intern(OOr, 0, 0, a, b, nil)
}

func Implies(a, b *Term) *Term { return Or(Not(a), b) }

func Ite(c, a, b *Term) *Term {
	if c == True || a == b {
		return a
	}
	if c == False {
		return b
	}
	if a.w != b.w {
		panic("ite widths")
	}
	if a.w == 0 {
		switch {
		case a == True && b == False:
			return c
		case a == False && b == True:
			return Not(c)
		case a == True:
			return Or(c, b)
		case a == False:
			return And(Not(c), b)
		case b == False:
			return And(c, a)
		case b == True:
			return Or(Not(c), a)
		}
	}
	if c.op == ONot {
		return Ite(c.a, b, a)
	}
	if a.op == OIte && a.a == c {
		return Ite(c, a.b, b)
	}
	if b.op == OIte && b.a == c {
		return Ite(c, a, b.c)
	}
	return intern(OIte, a.w, 0, c, a, b)
}

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.w != b.w {
		panic(fmt.Sprintf("eq widths %d %d", a.w, b.w))
	}
	if a.op == OConst && b.op == OConst {
		return Bool(a.val == b.val)
	}
	if a.op == OConst {
		a, b = b, a
	}
	if a.w == 0 {
		if b == True {
			return a
		}
		if b == False {
			return Not(a)
		}
	}
	if b.op == OConst {
		switch a.op {
		case OIte:
			if a.b.op == OConst || a.c.op == OConst {
				return Ite(a.a, Eq(a.b, b), Eq(a.c, b))
			}
		case OZext:
			if b.val > mask(a.a.w) {
				return False
			}
			return Eq(a.a, BV(a.a.w, b.val))
		case OConcat:
			return And(Eq(a.a, BV(a.a.w, b.val>>a.b.w)), Eq(a.b, BV(a.b.w, b.val)))
		case OAdd:
			if a.b.op == OConst {
				return Eq(a.a, BV(a.w, b.val-a.b.val))
			}
		case OSub:
			if a.b.op == OConst {
				return Eq(a.a, BV(a.w, b.val+a.b.val))
			}
		case OBXor:
			if a.b.op == OConst {
				return Eq(a.a, BV(a.w, b.val^a.b.val))
			}
		case OBNot:
			return Eq(a.a, BV(a.w, ^b.val))
		case OSext:
			if uint64(sx(b.val&mask(a.a.w), a.a.w))&mask(a.w) != b.val {
				return False
			}
			return Eq(a.a, BV(a.a.w, b.val))
		}
	} else {
		if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
			return Eq(a.a, b.a)
		}
		if a.op == OConcat && b.op == OConcat && a.a.w == b.a.w {
			return And(Eq(a.a, b.a), Eq(a.b, b.b))
		}
		if a.id > b.id {
			a, b = b, a
		}
	}
	return intern(OEq, 0, 0, a, b, nil)
}

func Ult(a, b *Term) *Term {
	if a == b {
		return False
	}
	if a.op == OConst && b.op == OConst {
		return Bool(a.val < b.val)
	}
	if b.op == OConst {
		if b.val == 0 {
			return False
		}
		if umax(a) < b.val {
			return True
		}
		if umin(a) >= b.val {
			return False
		}
		if a.op == OZext {
			return Ult(a.a, BV(a.a.w, b.val))
		}
		if b.val == 1 {
			return Eq(a, BV(a.w, 0))
		}
		if a.op == OIte && (a.b.op == OConst && a.c.op == OConst) {
			return Ite(a.a, Ult(a.b, b), Ult(a.c, b))
		}
	}
	if a.op == OConst {
		if a.val == mask(a.w) {
			return False
		}
		if umax(b) <= a.val {
			return False
		}
		if umin(b) > a.val {
			return True
		}
		if b.op == OZext {
			return Ult(BV(b.a.w, a.val), b.a)
		}
		if b.op == OIte && (b.b.op == OConst && b.c.op == OConst) {
			return Ite(b.a, Ult(a, b.b), Ult(a, b.c))
		}
	}
	if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
		return Ult(a.a, b.a)
	}
	if umax(a) < umin(b) {
		return True
	}
	if umin(a) >= umax(b) {
		return False
	}
	if a.op != OConst && b.op != OConst {
		x, k1, ok1 := bounded(a)
		y, k2, ok2 := bounded(b)
		if ok1 && ok2 && k1 >= 0 && k2 >= 0 {
			if r := ltLinear(x, k1, y, k2); r != nil {
				return r
			}
		}
	}
	return intern(OUlt, 0, 0, a, b, nil)
}

func Ule(a, b *Term) *Term { return Not(Ult(b, a)) }

// nonneg reports that t is known to have a clear sign bit.
func nonneg(t *Term) bool { return umax(t) < uint64(1)<<(t.w-1) }

func Slt(a, b *Term) *Term {
	if a == b {
		return False
	}
	if a.op == OConst && b.op == OConst {
		return Bool(sx(a.val, a.w) < sx(b.val, b.w))
	}
	if nonneg(a) && nonneg(b) {
		return Ult(a, b)
	}
	if a.op == OSext && b.op == OConst {
		nv := sx(b.val, b.w)
		w := a.a.w
		if nv > int64(mask(w)>>1) {
			return True
		}
		if nv < -int64(mask(w)>>1)-1 {
			return False
		}
		return Slt(a.a, BV(w, b.val))
	}
	alo, ahi, ok1 := srange(a)
	blo, bhi, ok2 := srange(b)
	if ok1 && ok2 {
		if ahi < blo {
			return True
		}
		if alo >= bhi {
			return False
		}
		x, k1, ok1 := bounded(a)
		y, k2, ok2 := bounded(b)
		if ok1 && ok2 {
			if r := ltLinear(x, k1, y, k2); r != nil {
				return r
			}
		}
	}
	return intern(OSlt, 0, 0, a, b, nil)
}

// bounded splits t as x + k, with x and k small enough for sums and differences not to wrap.
func bounded(t *Term) (x *Term, k int64, ok bool) {
	if t.op == OConst {
		return nil, 0, false
	}
	b, kv := baseConst(t)
	k = sx(kv, t.w)
	lim := int64(1) << (t.w - 2)
	return b, k, t.w >= 4 && umax(b) < uint64(lim)/2 && k < lim/2 && k > -lim/2
}

// srange is the signed range of t when known to be small.
func srange(t *Term) (lo, hi int64, ok bool) {
	if t.op == OConst {
		v := sx(t.val, t.w)
		return v, v, true
	}
	if t.op == ONeg && nonneg(t.a) {
		return -int64(umax(t.a)), -int64(umin(t.a)), true
	}
	if x, k, ok := bounded(t); ok {
		return int64(umin(x)) + k, int64(umax(x)) + k, true
	}
	if nonneg(t) {
		return int64(umin(t)), int64(umax(t)), true
	}
	return 0, 0, false
}

// ltLinear decides x+k1 < y+k2 over the integers, where nothing wraps; nil when nothing is gained.
func ltLinear(x *Term, k1 int64, y *Term, k2 int64) *Term {
	if x == y {
		return Bool(k1 < k2)
	}
	d := k2 - k1 // x < y + d
	// y = c*floor(x/c): x-c < y <= x
	if z, c := floorOf(y); z == x {
		if d <= 0 {
			return False
		}
		if d >= int64(c) {
			return True
		}
	}
	if z, c := floorOf(x); z == y {
		if d > 0 {
			return True
		}
		if d <= -int64(c) {
			return False
		}
	}
	if k1 == 0 && k2 >= 0 || k2 == 0 && k1 >= 0 {
		return nil
	}
	if d >= 0 {
		return Ult(x, Add(y, BV(y.w, uint64(d))))
	}
	return Ult(Add(x, BV(x.w, uint64(-d))), y)
}

// floorOf recognises c*(z/c).
func floorOf(t *Term) (z *Term, c uint64) {
	if t.op == OMul && t.b.op == OConst && t.a.op == OUdiv && t.a.b == t.b {
		return t.a.a, t.b.val
	}
	return nil, 0
}

func Sle(a, b *Term) *Term { return Not(Slt(b, a)) }

func Add(a, b *Term) *Term {
	if a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst {
		if a.op == OConst {
			return BV(a.w, a.val+b.val)
		}
		if b.val == 0 {
			return a
		}
		if a.op == OAdd && a.b.op == OConst {
			return Add(a.a, BV(a.w, a.b.val+b.val))
		}
		if a.op == OSub && a.a.op == OConst {
			return Sub(BV(a.w, a.a.val+b.val), a.b)
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	if b.op == ONeg {
		return Sub(a, b.a)
	}
	if a.op == ONeg {
		return Sub(b, a.a)
	}
	if b.op == OSub && b.b == a {
		return b.a
	}
	if a.op == OSub && a.b == b {
		return a.a
	}
	return intern(OAdd, a.w, 0, a, b, nil)
}

func Sub(a, b *Term) *Term {
	if a == b {
		return BV(a.w, 0)
	}
	if b.op == OConst {
		return Add(a, BV(a.w, -b.val))
	}
	if a.op == OAdd {
		if a.a == b {
			return a.b
		}
		if a.b == b {
			return a.a
		}
		// (x + k) - (x) handled above; (x+k) - (y) keep
	}
	if b.op == OUrem && b.b.op == OConst && b.b.val != 0 {
		ab, ak := baseConst(a)
		bb, bk := baseConst(b.a)
		if ab == bb {
			return Add(Mul(Udiv(b.a, b.b), b.b), BV(a.w, ak-bk))
		}
	}
	if b.op == ONeg {
		return Add(a, b.a)
	}
	if b.op == OAdd {
		if b.a == a {
			return Neg(b.b)
		}
		if a.op == OAdd && a.a == b.a {
			return Sub(a.b, b.b)
		}
	}
	return intern(OSub, a.w, 0, a, b, nil)
}

func Neg(a *Term) *Term {
	if a.op == OConst {
		return BV(a.w, -a.val)
	}
	if a.op == ONeg {
		return a.a
	}
	return intern(ONeg, a.w, 0, a, nil, nil)
}

func Mul(a, b *Term) *Term {
	if a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst {
		if a.op == OConst {
			return BV(a.w, a.val*b.val)
		}
		switch b.val {
		case 0:
			return b
		case 1:
			return a
		}
		if b.val&(b.val-1) == 0 {
			return Shl(a, BV(a.w, uint64(bits.TrailingZeros64(b.val))))
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	return intern(OMul, a.w, 0, a, b, nil)
}

func Udiv(a, b *Term) *Term {
	if a.op == OConst && b.op == OConst && b.val != 0 {
		return BV(a.w, a.val/b.val)
	}
	if b.op == OConst {
		if b.val == 1 {
			return a
		}
		if b.val != 0 && b.val&(b.val-1) == 0 {
			return Lshr(a, BV(a.w, uint64(bits.TrailingZeros64(b.val))))
		}
		if b.val != 0 && umax(a) < b.val {
			return BV(a.w, 0)
		}
		if b.val != 0 && umin(a)/b.val == umax(a)/b.val {
			return BV(a.w, umin(a)/b.val)
		}
		if b.val != 0 {
			if r := divRules(a, b); r != nil {
				return r
			}
			if q, _ := divLinear(a, b.val); q != nil {
				return q
			}
		}
	}
	return intern(OUdiv, a.w, 0, a, b, nil)
}

func Urem(a, b *Term) *Term {
	if a.op == OConst && b.op == OConst && b.val != 0 {
		return BV(a.w, a.val%b.val)
	}
	if b.op == OConst && b.val != 0 {
		if b.val&(b.val-1) == 0 {
			return BAnd(a, BV(a.w, b.val-1))
		}
		if umax(a) < b.val {
			return a
		}
		if umin(a)/b.val == umax(a)/b.val {
			return Sub(a, BV(a.w, umin(a)/b.val*b.val))
		}
		if r := remRules(a, b); r != nil {
			return r
		}
		if _, r := divLinear(a, b.val); r != nil {
			return r
		}
	}
	return intern(OUrem, a.w, 0, a, b, nil)
}

// baseConst splits t as base + constant.
func baseConst(t *Term) (*Term, uint64) {
	if t.op == OAdd && t.b.op == OConst {
		return t.a, t.b.val
	}
	return t, 0
}

// linear splits t as y*k + c with a constant k>0 when that does not overflow.
func linear(t *Term) (y *Term, k, c uint64) {
	if t.op == OAdd && t.b.op == OConst {
		x := umax(t.a)
		if x+t.b.val < x || x+t.b.val > mask(t.w) {
			return t, 1, 0
		}
		c, t = t.b.val, t.a
	}
	if t.op == OMul && t.b.op == OConst && t.b.val != 0 {
		h, l := bits.Mul64(umax(t.a), t.b.val)
		if h == 0 && l <= mask(t.w) {
			return t.a, t.b.val, c
		}
	}
	if t.op == OShl && t.b.op == OConst && t.b.val < uint64(t.w) {
		if umax(t.a) <= mask(t.w)>>t.b.val {
			return t.a, 1 << t.b.val, c
		}
	}
	return t, 1, c
}

func divRules(a, b *Term) *Term {
	w, d := a.w, b.val
	if a.op == OUdiv && a.b.op == OConst && a.b.val != 0 {
		h, l := bits.Mul64(a.b.val, d)
		if h == 0 && l <= mask(w) {
			return Udiv(a.a, BV(w, l))
		}
	}
	y, k, c := linear(a)
	if c >= d {
		return Add(Udiv(Add(Mul(y, BV(w, k)), BV(w, c%d)), b), BV(w, c/d))
	}
	if k == 1 {
		return nil
	}
	if k%d == 0 { // c < d
		return Mul(y, BV(w, k/d))
	}
	if d%k == 0 {
		return Udiv(Add(y, BV(w, c/k)), BV(w, d/k))
	}
	return nil
}

func remRules(a, b *Term) *Term {
	w, d := a.w, b.val
	y, k, c := linear(a)
	if c >= d {
		return Urem(Add(Mul(y, BV(w, k)), BV(w, c%d)), b)
	}
	if k == 1 {
		return nil
	}
	if k%d == 0 {
		return BV(w, c)
	}
	if d%k == 0 {
		return Add(Mul(Urem(Add(y, BV(w, c/k)), BV(w, d/k)), BV(w, k)), BV(w, c%k))
	}
	return nil
}

func Sdiv(a, b *Term) *Term {
	if a.op == OConst && b.op == OConst && b.val != 0 {
		x, y := sx(a.val, a.w), sx(b.val, b.w)
		if y == -1 {
			return Neg(a)
		}
		return BV(a.w, uint64(x/y))
	}
	if nonneg(a) && nonneg(b) && b.op == OConst && b.val != 0 {
		return Udiv(a, b)
	}
	if a.op == ONeg && nonneg(a.a) && nonneg(b) && b.op == OConst && b.val != 0 {
		return Neg(Udiv(a.a, b))
	}
	return intern(OSdiv, a.w, 0, a, b, nil)
}

func Srem(a, b *Term) *Term {
	if a.op == OConst && b.op == OConst && b.val != 0 {
		x, y := sx(a.val, a.w), sx(b.val, b.w)
		if y == -1 {
			return BV(a.w, 0)
		}
		return BV(a.w, uint64(x%y))
	}
	if nonneg(a) && nonneg(b) && b.op == OConst && b.val != 0 {
		return Urem(a, b)
	}
	if a.op == ONeg && nonneg(a.a) && nonneg(b) && b.op == OConst && b.val != 0 {
		return Neg(Urem(a.a, b))
	}
	return intern(OSrem, a.w, 0, a, b, nil)
}

// seg is a run of bits: bits [lo,lo+w) of src, or constant val when src is nil.
type seg struct {
	src *Term
	lo  uint8
	w   uint8
	val uint64
}

func segsOf(t *Term, out []seg) []seg {
	switch t.op {
	case OConst:
		return append(out, seg{nil, 0, t.w, t.val})
	case OConcat:
		return segsOf(t.a, segsOf(t.b, out))
	case OZext:
		out = segsOf(t.a, out)
		return append(out, seg{nil, 0, t.w - t.a.w, 0})
	case OExtract:
		hi, lo := uint8(t.val>>8), uint8(t.val)
		return append(out, seg{t.a, lo, hi - lo + 1, 0})
	}
	return append(out, seg{t, 0, t.w, 0})
}

func fromSegs(ss []seg) *Term {
	// coalesce
	out := ss[:0:0]
	for _, s := range ss {
		if s.w == 0 {
			continue
		}
		if n := len(out); n > 0 {
			p := &out[n-1]
			if p.src == nil && s.src == nil {
				p.val |= s.val << p.w
				p.w += s.w
				continue
			}
			if p.src != nil && p.src == s.src && p.lo+p.w == s.lo {
				p.w += s.w
				continue
			}
		}
		out = append(out, s)
	}
	mk := func(s seg) *Term {
		if s.src == nil {
			return BV(s.w, s.val)
		}
		if s.lo == 0 && s.w == s.src.w {
			return s.src
		}
		return intern(OExtract, s.w, uint64(s.lo+s.w-1)<<8|uint64(s.lo), s.src, nil, nil)
	}
	t := mk(out[0])
	for i, s := range out[1:] {
		if i == len(out)-2 && s.src == nil && s.val == 0 {
			return intern(OZext, t.w+s.w, 0, t, nil, nil)
		}
		t = intern(OConcat, t.w+s.w, 0, mk(s), t, nil)
	}
	return t
}

func Extract(hi, lo uint8, t *Term) *Term {
	if lo == 0 && hi == t.w-1 {
		return t
	}
	w := hi - lo + 1
	switch t.op {
	case OConst:
		return BV(w, t.val>>lo)
	case OConcat, OZext, OExtract:
		var out []seg
		pos := uint8(0)
		for _, s := range segsOf(t, nil) {
			s0, s1 := pos, pos+s.w
			pos = s1
			b0, b1 := max(s0, lo), min(s1, hi+1)
			if b0 >= b1 {
				continue
			}
			n := s
			n.w = b1 - b0
			if s.src == nil {
				n.val = (s.val >> (b0 - s0)) & mask(n.w)
			} else {
				n.lo = s.lo + (b0 - s0)
			}
			out = append(out, n)
		}
		return fromSegs(out)
	case OIte:
		if t.b.op == OConst || t.c.op == OConst {
			return Ite(t.a, Extract(hi, lo, t.b), Extract(hi, lo, t.c))
		}
	case OSext:
		if hi < t.a.w {
			return Extract(hi, lo, t.a)
		}
	case OBAnd:
		return BAnd(Extract(hi, lo, t.a), Extract(hi, lo, t.b))
	case OBOr:
		return BOr(Extract(hi, lo, t.a), Extract(hi, lo, t.b))
	case OBXor:
		return BXor(Extract(hi, lo, t.a), Extract(hi, lo, t.b))
	case OAdd:
		if lo == 0 {
			return Add(Extract(hi, 0, t.a), Extract(hi, 0, t.b))
		}
	case OMul:
		if lo == 0 && t.b.op == OConst {
			return Mul(Extract(hi, 0, t.a), Extract(hi, 0, t.b))
		}
	case OSub:
		if lo == 0 {
			return Sub(Extract(hi, 0, t.a), Extract(hi, 0, t.b))
		}
	}
	if l, h := rng(t); l>>lo == h>>lo {
		return BV(w, l>>lo)
	}
	return intern(OExtract, w, uint64(hi)<<8|uint64(lo), t, nil, nil)
}

func Concat(a, b *Term) *Term {
	return fromSegs(segsOf(a, segsOf(b, nil)))
}

func Zext(w uint8, t *Term) *Term {
	if w == t.w {
		return t
	}
	if t.op == OIte && t.b.op == OConst && t.c.op == OConst {
		return Ite(t.a, Zext(w, t.b), Zext(w, t.c))
	}
	return fromSegs(append(segsOf(t, nil), seg{nil, 0, w - t.w, 0}))
}

func Sext(w uint8, t *Term) *Term {
	if w == t.w {
		return t
	}
	if t.op == OConst {
		return BV(w, uint64(sx(t.val, t.w)))
	}
	if nonneg(t) {
		return Zext(w, t)
	}
	return intern(OSext, w, 0, t, nil, nil)
}

// disjointOr merges a|b when at every bit one of them is a constant zero.
func disjointOr(a, b *Term) *Term {
	sa, sb := segsOf(a, nil), segsOf(b, nil)
	if len(sa) == 1 && len(sb) == 1 {
		return nil
	}
	var out []seg
	i, j := 0, 0
	var ca, cb seg
	for {
		if ca.w == 0 {
			if i == len(sa) {
				break
			}
			ca = sa[i]
			i++
		}
		if cb.w == 0 {
			cb = sb[j]
			j++
		}
		w := min(ca.w, cb.w)
		cut := func(s *seg) seg {
			r := *s
			r.w = w
			if s.src == nil {
				r.val &= mask(w)
				s.val >>= w
			} else {
				s.lo += w
			}
			s.w -= w
			return r
		}
		x, y := cut(&ca), cut(&cb)
		switch {
		case x.src == nil && y.src == nil:
			out = append(out, seg{nil, 0, w, x.val | y.val})
		case x.src == nil && x.val == 0:
			out = append(out, y)
		case y.src == nil && y.val == 0:
			out = append(out, x)
		default:
			return nil
		}
	}
	return fromSegs(out)
}

func BOr(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst {
		if a.op == OConst {
			return BV(a.w, a.val|b.val)
		}
		if b.val == 0 {
			return a
		}
		if b.val == mask(a.w) {
			return b
		}
		if t := orLow(a, b.val); t != nil {
			return t
		}
	}
	if t := disjointOr(a, b); t != nil {
		return t
	}
	if b.op != OConst && a.id > b.id {
		a, b = b, a
	}
	return intern(OBOr, a.w, 0, a, b, nil)
}

func BAnd(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst {
		if a.op == OConst {
			return BV(a.w, a.val&b.val)
		}
		if b.val == 0 {
			return b
		}
		if b.val == mask(a.w) {
			return a
		}
		// mask made of few runs: rewrite as segments
		var out []seg
		v, pos, runs := b.val, uint8(0), 0
		for pos < a.w {
			var n uint8
			one := v&1 == 1
			if one {
				n = uint8(bits.TrailingZeros64(^v))
			} else {
				n = uint8(bits.TrailingZeros64(v))
			}
			n = min(n, a.w-pos)
			if one {
				out = segsOf(Extract(pos+n-1, pos, a), out)
			} else {
				out = append(out, seg{nil, 0, n, 0})
			}
			v >>= n
			pos += n
			runs++
		}
		if runs <= 3 {
			return fromSegs(out)
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	return intern(OBAnd, a.w, 0, a, b, nil)
}

func BXor(a, b *Term) *Term {
	if a == b {
		return BV(a.w, 0)
	}
	if a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst {
		if a.op == OConst {
			return BV(a.w, a.val^b.val)
		}
		if b.val == 0 {
			return a
		}
		if b.val == mask(a.w) {
			return BNot(a)
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	if t := disjointOr(a, b); t != nil {
		return t
	}
	return intern(OBXor, a.w, 0, a, b, nil)
}

func BNot(a *Term) *Term {
	if a.op == OConst {
		return BV(a.w, ^a.val)
	}
	if a.op == OBNot {
		return a.a
	}
	return intern(OBNot, a.w, 0, a, nil, nil)
}

// Shl, Lshr and Ashr take a shift amount of the same width; amounts >= w give 0 (or the sign).
func Shl(a, s *Term) *Term {
	if s.op == OConst {
		if s.val == 0 {
			return a
		}
		if s.val >= uint64(a.w) {
			return BV(a.w, 0)
		}
		if a.op == OConst {
			return BV(a.w, a.val<<s.val)
		}
		k := uint8(s.val)
		return fromSegs(segsOf(Extract(a.w-1-k, 0, a), []seg{{nil, 0, k, 0}}))
	}
	return intern(OShl, a.w, 0, a, s, nil)
}

func Lshr(a, s *Term) *Term {
	if s.op == OConst {
		if s.val == 0 {
			return a
		}
		if s.val >= uint64(a.w) {
			return BV(a.w, 0)
		}
		if a.op == OConst {
			return BV(a.w, a.val>>s.val)
		}
		k := uint8(s.val)
		return Zext(a.w, Extract(a.w-1, k, a))
	}
	return intern(OLshr, a.w, 0, a, s, nil)
}

func Ashr(a, s *Term) *Term {
	if s.op == OConst {
		if s.val == 0 {
			return a
		}
		k := s.val
		if k >= uint64(a.w) {
			k = uint64(a.w) - 1
		}
		if a.op == OConst {
			return BV(a.w, uint64(sx(a.val, a.w)>>k))
		}
		if nonneg(a) {
			return Lshr(a, BV(a.w, k))
		}
		return Sext(a.w, Extract(a.w-1, uint8(k), a))
	}
	return intern(OAshr, a.w, 0, a, s, nil)
}

// Dec is digit i (0 = most significant of 20) of the zero-padded decimal text of x, as an ASCII byte.
func Dec(x *Term, i int) *Term {
	if x.op == OConst {
		return BV(8, uint64(fmt.Sprintf("%020d", x.val)[i]))
	}
	return intern(ODec, 8, uint64(i), x, nil, nil)
}

var pow10 [20]uint64

func init() {
	p := uint64(1)
	for i := 0; i < 20; i++ {
		pow10[i] = p
		p *= 10
	}
}

// eval evaluates t under a model; missing variables are 0.
func eval(t *Term, m map[*Term]uint64, memo map[*Term]uint64) uint64 {
	switch t.op {
	case OConst:
		return t.val
	case OVar:
		return m[t]
	}
	if v, ok := memo[t]; ok {
		return v
	}
	var r uint64
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	ev := func(x *Term) uint64 { return eval(x, m, memo) }
	switch t.op {
	case ONot:
		r = 1 - ev(t.a)
	case OAnd:
		r = ev(t.a)
		if r == 1 {
			r = ev(t.b)
		}
	case OOr:
		r = ev(t.a)
		if r == 0 {
			r = ev(t.b)
		}
	case OIte:
		if ev(t.a) == 1 {
			r = ev(t.b)
		} else {
			r = ev(t.c)
		}
	case OEq:
		r = b2u(ev(t.a) == ev(t.b))
	case OUlt:
		r = b2u(ev(t.a) < ev(t.b))
	case OSlt:
		r = b2u(sx(ev(t.a), t.a.w) < sx(ev(t.b), t.a.w))
	case OAdd:
		r = ev(t.a) + ev(t.b)
	case OSub:
		r = ev(t.a) - ev(t.b)
	case OMul:
		r = ev(t.a) * ev(t.b)
	case OUdiv:
		if d := ev(t.b); d == 0 {
			r = mask(t.w)
		} else {
			r = ev(t.a) / d
		}
	case OUrem:
		if d := ev(t.b); d == 0 {
			r = ev(t.a)
		} else {
			r = ev(t.a) % d
		}
	case OSdiv:
		x, y := sx(ev(t.a), t.w), sx(ev(t.b), t.w)
		switch {
		case y == 0 && x < 0:
			r = 1
		case y == 0:
			r = mask(t.w)
		case y == -1:
			r = -uint64(x)
		default:
			r = uint64(x / y)
		}
	case OSrem:
		x, y := sx(ev(t.a), t.w), sx(ev(t.b), t.w)
		switch {
		case y == 0:
			r = uint64(x)
		case y == -1:
			r = 0
		default:
			r = uint64(x % y)
		}
	case OBAnd:
		r = ev(t.a) & ev(t.b)
	case OBOr:
		r = ev(t.a) | ev(t.b)
	case OBXor:
		r = ev(t.a) ^ ev(t.b)
	case OBNot:
		r = ^ev(t.a)
	case ONeg:
		r = -ev(t.a)
	case OShl:
		if s := ev(t.b); s < uint64(t.w) {
			r = ev(t.a) << s
		}
	case OLshr:
		if s := ev(t.b); s < uint64(t.w) {
			r = ev(t.a) >> s
		}
	case OAshr:
		s := min(ev(t.b), uint64(t.w)-1)
		r = uint64(sx(ev(t.a), t.w) >> s)
	case OConcat:
		r = ev(t.a)<<t.b.w | ev(t.b)
	case OExtract:
		r = ev(t.a) >> uint8(t.val)
	case OZext:
		r = ev(t.a)
	case OSext:
		r = uint64(sx(ev(t.a), t.a.w))
	case ODec:
		r = (ev(t.a)/pow10[19-t.val])%10 + '0'
	default:
		panic("eval: op")
	}
	if t.w == 0 {
		r &= 1
	} else {
		r &= mask(t.w)
	}
	memo[t] = r
	return r
}

var smtOp = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=", OUlt: "bvult", OSlt: "bvslt",
	OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUdiv: "bvudiv", OUrem: "bvurem", OSdiv: "bvsdiv", OSrem: "bvsrem",
	OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OBNot: "bvnot", ONeg: "bvneg", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OConcat: "concat"}

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

// smtRef names a term whose definition has been emitted (leaf terms are written out).
func smtRef(t *Term) string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.val == 1 {
				return "true"
			}
			return "false"
		}
		if t.w%4 == 0 {
			return fmt.Sprintf("#x%0*x", t.w/4, t.val)
		}
		return fmt.Sprintf("(_ bv%d %d)", t.val, t.w)
	case OVar:
		return fmt.Sprintf("v%d", t.id)
	}
	return fmt.Sprintf("t%d", t.id)
}

func smtBody(t *Term) string {
	switch t.op {
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", t.val>>8, t.val&255, smtRef(t.a))
	case OZext:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, smtRef(t.a))
	case OSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, smtRef(t.a))
	case OUdiv, OUrem:
		if t.b.op == OConst && t.b.val != 0 {
			if k := narrowDiv(t.a, t.b); k != 0 {
				x := smtRef(t.a)
				if t.a.op == OZext && t.a.a.w <= k {
					x = smtRef(t.a.a)
					if t.a.a.w < k {
						x = fmt.Sprintf("((_ zero_extend %d) %s)", k-t.a.a.w, x)
					}
				} else {
					x = fmt.Sprintf("((_ extract %d 0) %s)", k-1, x)
				}
				return fmt.Sprintf("((_ zero_extend %d) (%s %s (_ bv%d %d)))", t.w-k, smtOp[t.op], x, t.b.val, k)
			}
		}
	case ODec:
		return fmt.Sprintf("((_ extract 7 0) (bvadd #x0000000000000030 (bvurem (bvudiv %s #x%016x) #x000000000000000a)))", smtRef(t.a), pow10[19-t.val])
	}
	var sb strings.Builder
	sb.WriteByte('(')
	sb.WriteString(smtOp[t.op])
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			sb.WriteByte(' ')
			sb.WriteString(smtRef(x))
		}
	}
	sb.WriteByte(')')
	return sb.String()
}

func (t *Term) String() string { return termStr(t, 6) }

func termStr(t *Term, d int) string {
	if t == nil {
		return "nil"
	}
	switch t.op {
	case OConst:
		if t.w == 0 {
			return smtRef(t)
		}
		return fmt.Sprintf("%d", t.val)
	case OVar:
		return t.name
	}
	if d == 0 {
		return "..."
	}
	n := smtOp[t.op]
	switch t.op {
	case OExtract:
		n = fmt.Sprintf("ext%d:%d", t.val>>8, t.val&255)
	case OZext:
		n = "zext"
	case OSext:
		n = "sext"
	case ODec:
		n = fmt.Sprintf("dec%d", t.val)
	}
	s := "(" + n
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			s += " " + termStr(x, d-1)
		}
	}
	return s + ")"
}
