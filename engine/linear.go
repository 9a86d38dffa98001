package main

import (
	"math/bits"
	"sync/atomic"
)

// lin is a term written as c + sum k[i]*b[i], modulo 2^w.
type lin struct {
	w uint8
	b []*Term
	k []uint64
	c uint64
}

const linMax = 12

func (l *lin) add(t *Term, f uint64, depth int) bool {
	f &= mask(l.w)
	if f == 0 {
		return true
	}
	if depth < 12 {
		switch t.op {
		case OConst:
			l.c = (l.c + f*t.val) & mask(l.w)
			return true
		case OAdd:
			return l.add(t.a, f, depth+1) && l.add(t.b, f, depth+1)
		case OSub:
			return l.add(t.a, f, depth+1) && l.add(t.b, -f, depth+1)
		case ONeg:
			return l.add(t.a, -f, depth+1)
		case OMul:
			if t.b.op == OConst {
				return l.add(t.a, f*t.b.val, depth+1)
			}
		case OShl:
			if t.b.op == OConst {
				if t.b.val >= uint64(l.w) {
					return true
				}
				return l.add(t.a, f<<t.b.val, depth+1)
			}
		case OConcat:
			if t.b.op == OConst && t.a.op != OConst {
				l.c = (l.c + f*t.b.val) & mask(l.w)
				return l.add(Zext(t.w, t.a), f<<t.b.w, depth+1)
			}
		case OZext:
			// a sum that does not wrap in its own width is the same sum when widened
			if t.a.op == OAdd || t.a.op == OMul || t.a.op == OSub || t.a.op == OConcat || t.a.op == OShl {
				if i := linOf(t.a); i != nil {
					if r, ok := i.exact(); ok {
						for j, b := range i.b {
							if !l.add(Zext(t.w, b), f*uint64(sx(i.k[j], i.w)), depth+1) {
								return false
							}
						}
						l.c = (l.c + f*uint64(r.c)) & mask(l.w)
						return true
					}
				}
			}
		}
	}
	for i, b := range l.b {
		if b == t {
			l.k[i] = (l.k[i] + f) & mask(l.w)
			return true
		}
	}
	if len(l.b) >= linMax {
		return false
	}
	l.b = append(l.b, t)
	l.k = append(l.k, f)
	return true
}

// linOf is the linear form of t (at most 63 bits wide coefficients are used exactly by exact), nil when too large.
func linOf(t *Term) *lin {
	l := &lin{w: t.w}
	if !l.add(t, 1, 0) {
		return nil
	}
	n := 0
	for i := range l.b {
		if l.k[i] != 0 {
			l.b[n], l.k[n] = l.b[i], l.k[i]
			n++
		}
	}
	l.b, l.k = l.b[:n], l.k[:n]
	return l
}

// i128 is a signed 128-bit integer.
type i128 struct {
	hi int64
	lo uint64
}

func i128of(v int64) i128 { return i128{v >> 63, uint64(v)} }

func (a i128) add(b i128) i128 {
	lo, c := bits.Add64(a.lo, b.lo, 0)
	return i128{a.hi + b.hi + int64(c), lo}
}

func mulS(k int64, u uint64) i128 {
	neg := k < 0
	m := uint64(k)
	if neg {
		m = -m
	}
	h, l := bits.Mul64(m, u)
	r := i128{int64(h), l}
	if neg {
		r.lo = ^r.lo + 1
		r.hi = ^r.hi
		if r.lo == 0 {
			r.hi++
		}
	}
	return r
}

// shr is the arithmetic right shift (floor of division by 2^w), w<=64.
func (a i128) shr(w uint8) i128 {
	if w == 64 {
		return i128{a.hi >> 63, uint64(a.hi)}
	}
	return i128{a.hi >> w, a.lo>>w | uint64(a.hi)<<(64-w)}
}

// exactForm describes the integer value of a linear form: the constant to use over the integers, and the range.
type exactForm struct {
	c      int64
	lo, hi uint64
}

// exact reports whether the form, with coefficients read as signed numbers, is an integer sum which equals the
// unsigned value of the term once a constant is adjusted by a multiple of 2^w.
func (l *lin) exact() (r exactForm, ok bool) {
	lo, hi := i128{0, l.c}, i128{0, l.c}
	for i, b := range l.b {
		k := sx(l.k[i], l.w)
		x, y := rng(b)
		if k >= 0 {
			lo, hi = lo.add(mulS(k, x)), hi.add(mulS(k, y))
		} else {
			lo, hi = lo.add(mulS(k, y)), hi.add(mulS(k, x))
		}
		if hi.hi > 1<<60 || lo.hi < -(1<<60) {
			return r, false
		}
	}
	m := lo.shr(l.w)
	if m != hi.shr(l.w) || m.hi != m.hi>>63 || int64(m.lo)>>63 != m.hi {
		return r, false
	}
	// constant c - m*2^w must be representable
	if l.w == 64 {
		switch int64(m.lo) {
		case 0:
			if int64(l.c) < 0 {
				return r, false
			}
		case 1:
			if int64(l.c) >= 0 {
				return r, false
			}
		default:
			return r, false
		}
		r.c = int64(l.c)
	} else {
		if int64(m.lo) > 1<<20 || int64(m.lo) < -(1<<20) || l.w > 40 && m.lo != 0 && m.lo != 1 {
			return r, false
		}
		r.c = int64(l.c) - int64(m.lo)<<l.w
	}
	r.lo, r.hi = lo.lo&mask(l.w), hi.lo&mask(l.w)
	return r, true
}

func (l *lin) term(k []uint64, c uint64) *Term {
	t := BV(l.w, c)
	for i, b := range l.b {
		if k[i] != 0 {
			t = Add(t, Mul(b, BV(l.w, k[i])))
		}
	}
	return t
}

func floorDiv(a, d int64) int64 {
	q := a / d
	if a%d < 0 {
		q--
	}
	return q
}

// divLinear divides an exact linear form by a constant: what is divisible comes out, the rest is divided.
func divLinear(a *Term, d uint64) (q, r *Term) {
	if d == 0 || d > 1<<62 {
		return nil, nil
	}
	l := linOf(a)
	if l == nil || len(l.b) == 0 {
		return nil, nil
	}
	ex, ok := l.exact()
	if !ok {
		return nil, nil
	}
	qc := floorDiv(ex.c, int64(d))
	rc := uint64(ex.c - qc*int64(d))
	qk := make([]uint64, len(l.b))
	rk := make([]uint64, len(l.b))
	moved := qc != 0
	for i := range l.b {
		k := sx(l.k[i], l.w)
		if k%int64(d) == 0 {
			qk[i] = uint64(k / int64(d))
			moved = true
		} else {
			rk[i] = uint64(k)
			if k < 0 {
				return nil, nil
			}
		}
	}
	rest := &lin{w: l.w, b: l.b, k: rk, c: rc}
	// range of the rest over the integers; all coefficients are nonnegative
	lo, hi := i128{0, rc}, i128{0, rc}
	for i, b := range l.b {
		x, y := rng(b)
		lo, hi = lo.add(mulS(int64(rk[i]), x)), hi.add(mulS(int64(rk[i]), y))
	}
	if hi.hi != 0 || hi.lo > mask(l.w) {
		return nil, nil
	}
	if m := lo.lo / d; m == hi.lo/d {
		q = l.term(qk, uint64(qc)+m)
		r = rest.term(rk, rc-m*d)
		return q, r
	}
	if !moved {
		return nil, nil
	}
	rt := rest.term(rk, rc)
	q = Add(l.term(qk, uint64(qc)), Udiv(rt, BV(l.w, d)))
	r = Urem(rt, BV(l.w, d))
	return q, r
}

// orLow simplifies t|m for a run of low ones.
func orLow(t *Term, m uint64) *Term {
	if m&(m+1) != 0 {
		return nil
	}
	l := linOf(t)
	if l == nil {
		return nil
	}
	for _, k := range l.k {
		if k&m != 0 {
			return nil
		}
	}
	return Add(t, BV(t.w, m-l.c&m))
}

// rng is the cached unsigned range of t.
func rng(t *Term) (uint64, uint64) {
	if t.op == OConst {
		return t.val, t.val
	}
	if atomic.LoadUint32(&t.rok) == 1 {
		return atomic.LoadUint64(&t.rlo), atomic.LoadUint64(&t.rhi)
	}
	lo, hi := rangeOf(t)
	atomic.StoreUint64(&t.rlo, lo)
	atomic.StoreUint64(&t.rhi, hi)
	atomic.StoreUint32(&t.rok, 1)
	return lo, hi
}

func umax(t *Term) uint64 { _, h := rng(t); return h }
func umin(t *Term) uint64 { l, _ := rng(t); return l }

func rangeOf(t *Term) (uint64, uint64) {
	m := mask(t.w)
	switch t.op {
	case OVar:
		if t.w > 0 && t.val != 0 {
			return 0, t.val
		}
	case OZext:
		return rng(t.a)
	case OIte:
		a, b := rng(t.b)
		c, d := rng(t.c)
		return min(a, c), max(b, d)
	case OUrem:
		if t.b.op == OConst && t.b.val > 0 {
			_, h := rng(t.a)
			return 0, min(h, t.b.val-1)
		}
	case OBAnd:
		return 0, min(umax(t.a), umax(t.b))
	case OBOr:
		a, b := rng(t.a)
		c, d := rng(t.b)
		return max(a, c), 1<<bits.Len64(b|d) - 1
	case OConcat:
		a, b := rng(t.a)
		c, d := rng(t.b)
		return a<<t.b.w | c, b<<t.b.w | d
	case OExtract:
		hi, lo := uint8(t.val>>8), uint8(t.val&255)
		a, b := rng(t.a)
		if hi < 63 && a>>(hi+1) != b>>(hi+1) {
			return 0, m
		}
		return a >> lo & m, b >> lo & m
	case ODec:
		return '0', '9'
	case OAdd:
		a, b := rng(t.a)
		c, d := rng(t.b)
		l, cl := bits.Add64(a, c, 0)
		h, ch := bits.Add64(b, d, 0)
		if cl == ch && (t.w == 64 || l>>t.w == h>>t.w) {
			return l & m, h & m
		}
	case OSub:
		a, b := rng(t.a)
		c, d := rng(t.b)
		if a >= d || b < c {
			return (a - d) & m, (b - c) & m
		}
	case OMul:
		a, b := rng(t.a)
		c, d := rng(t.b)
		h, l := bits.Mul64(b, d)
		if h == 0 && l <= m {
			return a * c, l
		}
	case OShl:
		if t.b.op == OConst && t.b.val < 64 {
			a, b := rng(t.a)
			if b <= m>>t.b.val {
				return a << t.b.val, b << t.b.val
			}
		}
	case OUdiv:
		if t.b.op == OConst && t.b.val > 0 {
			a, b := rng(t.a)
			return a / t.b.val, b / t.b.val
		}
	case OLshr:
		if t.b.op == OConst && t.b.val < 64 {
			a, b := rng(t.a)
			return a >> t.b.val, b >> t.b.val
		}
	}
	return 0, m
}

// narrowDiv returns a width at which dividing a by the constant b is exact, or 0.
func narrowDiv(a, b *Term) uint8 {
	k := uint8(bits.Len64(umax(a) | b.val))
	if k+4 <= a.w && k > 0 {
		return k
	}
	return 0
}
