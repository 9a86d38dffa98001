package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Value is a symbolic run-time value:
//
//	*Term (integers, bools), float64, Str, Slice, Array, Struct, *Value (pointer), *SymPtr, *Map, *Chan,
//	*Closure, Iface, Tuple, Poison, *Native, *MapIter, *StrIter.
type Value = any

type (
	Slice  []Value
	Array  []Value
	Struct []Value
	Tuple  []Value
)

// Poison is the result of an unsupported computation in a package initialiser.
type Poison struct{ why string }

// FloatSym is an unknown floating point value.
type FloatSym struct{}

// Native wraps an engine-side object standing for a Go object.
type Native struct{ v any }

type Iface struct {
	t types.Type
	v Value
}

type Closure struct {
	fn  *ssa.Function
	env []Value
	nat func(m *Machine, args []Value) Value
}

// Str is a string: concrete (b==nil && lazy==nil), symbolic bytes, or lazily formatted.
type Str struct {
	s    string
	b    []*Term
	lazy *lazyStr
}

type lazyStr struct {
	f    func() Str
	done bool
	val  Str
}

type SymPtr struct {
	elems []Value
	idx   *Term
}

type mapEntry struct {
	key  Value
	val  Value
	dead bool
}

type Map struct {
	entries []*mapEntry
	index   map[string]*mapEntry
	nsym    int
	n       int
	id      int
}

type Chan struct {
	buf    []Value
	cap    int
	closed bool
	recvq  []*waiter
	sendq  []*waiter
	id     int
}

type waiter struct {
	g     *G
	val   Value // value to send
	sel   *selState
	idx   int // select case index
	taken bool
	recv  func(v Value, ok bool) // completes a receive
	send  func()                 // completes a send
}

type selState struct{ fired bool }

type MapIter struct {
	m    *Map
	i    int
	ents []*mapEntry
}

type StrIter struct {
	s Str
	i int
}

func mkStr(s string) Str { return Str{s: s} }

func strOfBytes(b []*Term) Str {
	for _, t := range b {
		if t.op != OConst {
			return Str{b: b}
		}
	}
	r := make([]byte, len(b))
	for i, t := range b {
		r[i] = byte(t.val)
	}
	return Str{s: string(r)}
}

func (s Str) force() Str {
	if s.lazy != nil {
		if !s.lazy.done {
			s.lazy.val = s.lazy.f().force()
			s.lazy.done = true
		}
		return s.lazy.val
	}
	return s
}

func (s Str) length() int {
	s = s.force()
	if s.b != nil {
		return len(s.b)
	}
	return len(s.s)
}

func (s Str) at(i int) *Term {
	if s.b != nil {
		return s.b[i]
	}
	return BV(8, uint64(s.s[i]))
}

func (s Str) concrete() (string, bool) {
	s = s.force()
	if s.b != nil {
		return "", false
	}
	return s.s, true
}

func (s Str) terms() []*Term {
	s = s.force()
	if s.b != nil {
		return s.b
	}
	r := make([]*Term, len(s.s))
	for i := range r {
		r[i] = BV(8, uint64(s.s[i]))
	}
	return r
}

func (s Str) slice(i, j int) Str {
	s = s.force()
	if s.b != nil {
		return strOfBytes(s.b[i:j:j])
	}
	return Str{s: s.s[i:j]}
}

func concat(a, b Str) Str {
	if a.lazy != nil && !a.lazy.done || b.lazy != nil && !b.lazy.done {
		return Str{lazy: &lazyStr{f: func() Str { return concat(a.force(), b.force()) }}}
	}
	a, b = a.force(), b.force()
	if a.b == nil && b.b == nil {
		return Str{s: a.s + b.s}
	}
	if a.length() == 0 {
		return b
	}
	if b.length() == 0 {
		return a
	}
	return strOfBytes(append(append([]*Term{}, a.terms()...), b.terms()...))
}

func hasDec(b []*Term) bool {
	for _, t := range b {
		if t.op == ODec {
			return true
		}
	}
	return false
}

// decRun recognises the text of a number at the start of b.
func decRun(b []*Term) *Term {
	if len(b) < decLen || b[0].op != ODec {
		return nil
	}
	for i := 0; i < decLen; i++ {
		if b[i].op != ODec || b[i].val != uint64(i) || b[i].a != b[0].a {
			panic(unsupported{"comparison of a part of a formatted number"})
		}
	}
	return b[0].a
}

// decEq compares texts with formatted numbers in them. (A formatted number stands for its decimal text, whatever
// its length.)
func decEq(a, b []*Term) *Term {
	r := True
	ends := func(b []*Term) {
		if len(b) > 0 && (b[0].op != OConst || b[0].val >= '0' && b[0].val <= '9') {
			panic(unsupported{"comparison of a formatted number next to a symbolic text"})
		}
	}
	for len(a) > 0 && len(b) > 0 && r != False {
		x, y := decRun(a), decRun(b)
		if x == nil && y == nil {
			if a[0].op == ODec || b[0].op == ODec {
				panic(unsupported{"comparison of a part of a formatted number"})
			}
			r = And(r, Eq(a[0], b[0]))
			a, b = a[1:], b[1:]
			continue
		}
		if x != nil && y != nil {
			a, b = a[decLen:], b[decLen:]
			if x == y && (len(a) == 0) == (len(b) == 0) && (len(a) == 0 || a[0] == b[0]) {
				continue
			}
			ends(a)
			ends(b)
			r = And(r, Eq(x, y))
			continue
		}
		if x == nil {
			a, b, x = b, a, y
		}
		a = a[decLen:]
		ends(a)
		n := 0
		var v uint64
		over := false
		for n < len(b) && b[n].op == OConst && b[n].val >= '0' && b[n].val <= '9' {
			d := b[n].val - '0'
			if v > (math.MaxUint64-d)/10 {
				over = true
			}
			v = v*10 + d
			n++
		}
		if n < len(b) && b[n].op != OConst {
			panic(unsupported{"comparison of a formatted number with a symbolic text"})
		}
		if n == 0 || over || n > 1 && b[0].val == '0' {
			return False
		}
		r = And(r, Eq(x, BV(x.w, v)))
		b = b[n:]
	}
	if len(a) != len(b) {
		return False
	}
	return r
}

func strEq(a, b Str) *Term {
	a, b = a.force(), b.force()
	if a.b == nil && b.b == nil {
		return Bool(a.s == b.s)
	}
	if hasDec(a.b) || hasDec(b.b) {
		return decEq(a.terms(), b.terms())
	}
	if a.length() != b.length() {
		return False
	}
	r := True
	for i, n := 0, a.length(); i < n; i++ {
		if i+32 <= n && a.b != nil && b.b != nil {
			if ra, rb := digestAt(a.b, i), digestAt(b.b, i); ra != nil && rb != nil {
				// equal digests mean equal messages
				if ra != rb {
					r = And(r, strEq(Str{b: ra.msg}, Str{b: rb.msg}))
				}
				if r == False {
					return r
				}
				i += 31
				continue
			}
		}
		r = And(r, Eq(a.at(i), b.at(i)))
		if r == False {
			return r
		}
	}
	return r
}

type digestByte struct {
	rec *digestRec
	idx int
}

type digestRec struct {
	msg []*Term
	out []*Term
}

var digestBytes sync.Map // *Term -> digestByte

// digestAt returns the digest occupying ts[i:i+32], if one does.
func digestAt(ts []*Term, i int) *digestRec {
	if ts[i].op != OVar {
		return nil
	}
	v, ok := digestBytes.Load(ts[i])
	if !ok {
		return nil
	}
	d := v.(digestByte)
	if d.idx != 0 {
		return nil
	}
	for k := range d.rec.out {
		if ts[i+k] != d.rec.out[k] {
			return nil
		}
	}
	return d.rec
}

// strLess is the term a < b in byte order.
func strLess(a, b Str) *Term {
	if hasDec(a.force().b) || hasDec(b.force().b) {
		panic(unsupported{"ordering of formatted numbers"})
	}
	a, b = a.force(), b.force()
	if a.b == nil && b.b == nil {
		return Bool(a.s < b.s)
	}
	n := min(a.length(), b.length())
	r := Bool(a.length() < b.length())
	for i := n - 1; i >= 0; i-- {
		x, y := a.at(i), b.at(i)
		r = Or(Ult(x, y), And(Eq(x, y), r))
	}
	return r
}

func bytesToTerms(s Slice) []*Term {
	r := make([]*Term, len(s))
	for i, v := range s {
		t, ok := v.(*Term)
		if !ok {
			panic(unsupported{fmt.Sprintf("byte slice element %T", v)})
		}
		r[i] = t
	}
	return r
}

func termsToSlice(ts []*Term) Slice {
	r := make(Slice, len(ts))
	for i, t := range ts {
		r[i] = t
	}
	return r
}

func bytesSlice(b []byte) Slice {
	r := make(Slice, len(b))
	for i, c := range b {
		r[i] = BV(8, uint64(c))
	}
	return r
}

// copyVal makes an independent copy of structs and arrays.
func copyVal(v Value) Value {
	switch v := v.(type) {
	case Struct:
		r := make(Struct, len(v))
		for i, x := range v {
			r[i] = copyVal(x)
		}
		return r
	case Array:
		r := make(Array, len(v))
		if len(v) > 0 {
			switch v[0].(type) {
			case Struct, Array:
				for i, x := range v {
					r[i] = copyVal(x)
				}
			default:
				copy(r, v)
			}
		}
		return r
	}
	return v
}

func intWidth(b *types.Basic) (uint8, bool) {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8, true
	case types.Int16, types.Uint16:
		return 16, true
	case types.Int32, types.Uint32:
		return 32, true
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.UntypedInt:
		return 64, true
	case types.UntypedRune:
		return 32, true
	}
	return 0, false
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}

func zero(t types.Type) Value {
	switch t := t.Underlying().(type) {
	case *types.Basic:
		if t.Kind() == types.UntypedNil {
			panic("zero of untyped nil")
		}
		switch {
		case t.Info()&types.IsBoolean != 0:
			return False
		case t.Info()&types.IsInteger != 0:
			w, _ := intWidth(t)
			return BV(w, 0)
		case t.Info()&types.IsFloat != 0:
			return float64(0)
		case t.Info()&types.IsComplex != 0:
			return complex128(0)
		case t.Info()&types.IsString != 0:
			return Str{}
		case t.Kind() == types.UnsafePointer:
			return (*Value)(nil)
		}
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Slice:
		return Slice(nil)
	case *types.Map:
		return (*Map)(nil)
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Array:
		n := int(t.Len())
		r := make(Array, n)
		if n > 0 {
			z := zero(t.Elem())
			switch z.(type) {
			case Struct, Array:
				for i := range r {
					r[i] = copyVal(z)
				}
			default:
				for i := range r {
					r[i] = z
				}
			}
		}
		return r
	case *types.Struct:
		r := make(Struct, t.NumFields())
		for i := range r {
			r[i] = zero(t.Field(i).Type())
		}
		return r
	case *types.Tuple:
		if t.Len() == 1 {
			return zero(t.At(0).Type())
		}
		r := make(Tuple, t.Len())
		for i := range r {
			r[i] = zero(t.At(i).Type())
		}
		return r
	}
	panic(unsupported{"zero of " + t.String()})
}

// keyString canonicalises a concrete map key.
func keyString(v Value, sb *strings.Builder) bool {
	switch v := v.(type) {
	case *Term:
		if v.op != OConst {
			return false
		}
		fmt.Fprintf(sb, "i%d;", v.val)
	case Str:
		s, ok := v.concrete()
		if !ok {
			return false
		}
		fmt.Fprintf(sb, "s%d:%s;", len(s), s)
	case float64:
		fmt.Fprintf(sb, "f%v;", v)
	case Struct:
		for _, x := range v {
			if !keyString(x, sb) {
				return false
			}
		}
	case Array:
		for _, x := range v {
			if !keyString(x, sb) {
				return false
			}
		}
	case Iface:
		if v.t == nil {
			sb.WriteString("nil;")
			return true
		}
		sb.WriteString(v.t.String() + "|")
		return keyString(v.v, sb)
	case *Value:
		fmt.Fprintf(sb, "p%p;", v)
	case *Chan:
		fmt.Fprintf(sb, "c%p;", v)
	case *Native:
		fmt.Fprintf(sb, "n%p;", v)
	case nil:
		sb.WriteString("nil;")
	default:
		panic(unsupported{fmt.Sprintf("map key of type %T", v)})
	}
	return true
}

func keyStr(v Value) (string, bool) {
	var sb strings.Builder
	ok := keyString(v, &sb)
	return sb.String(), ok
}
