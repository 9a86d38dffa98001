package main

import (
	"fmt"
	"go/types"
	"reflect"
	"strings"
	"sync"

	"golang.org/x/tools/go/types/typeutil"
)

// RVal is a reflect.Value: addressable when p is set.
type RVal struct {
	t  types.Type
	v  Value
	p  *Value
	ro bool // reached through an unexported field
}

func (r RVal) get() Value {
	if r.p != nil {
		return *r.p
	}
	return r.v
}

var (
	rtypeMu  sync.Mutex
	rtypeMap typeutil.Map
)

// rtype is the canonical reflect.Type of t.
func (m *Machine) rtype(t types.Type) Iface {
	if t == nil {
		return Iface{}
	}
	rtypeMu.Lock()
	defer rtypeMu.Unlock()
	p, _ := rtypeMap.At(t).(*Value)
	if p == nil {
		p = new(Value)
		*p = &Native{t}
		rtypeMap.Set(t, p)
	}
	return Iface{types.NewPointer(m.e.namedType("reflect", "rtype")), p}
}

func rtypeOf(v Value) types.Type {
	if iv, ok := v.(Iface); ok {
		v = iv.v
	}
	p, ok := v.(*Value)
	if !ok || p == nil {
		panic(unsupported{"reflect.Type expected"})
	}
	return (*p).(*Native).v.(types.Type)
}

func rkind(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Array:
		return reflect.Array
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	case *types.Map:
		return reflect.Map
	case *types.Pointer:
		return reflect.Pointer
	case *types.Slice:
		return reflect.Slice
	case *types.Struct:
		return reflect.Struct
	}
	panic(unsupported{"reflect kind of " + t.String()})
}

func rv(v Value) RVal {
	switch x := v.(type) {
	case RVal:
		return x
	case Struct:
		return RVal{}
	}
	panic(unsupported{fmt.Sprintf("reflect.Value expected, got %T", v)})
}

func isNilVal(v Value) bool {
	switch x := v.(type) {
	case *Value:
		return x == nil
	case Slice:
		return x == nil
	case *Map:
		return x == nil
	case *Chan:
		return x == nil
	case *Closure:
		return x == nil
	case Iface:
		return x.t == nil
	case nil:
		return true
	}
	return false
}

func elemOf(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	case *types.Chan:
		return u.Elem()
	}
	panic(unsupported{"reflect Elem of " + t.String()})
}

func (m *Machine) rpanic(s string) { m.rtErr("reflect: " + s) }

func (m *Machine) rset(r RVal, v Value) {
	if r.p == nil || r.ro {
		m.rpanic("reflect.Value.Set using unaddressable or unexported value")
	}
	m.store(r.p, v)
}

// toIface boxes a value of static type t.
func toIface(t types.Type, v Value) Iface {
	if iv, ok := v.(Iface); ok && types.IsInterface(t) {
		return iv
	}
	return Iface{t, copyVal(v)}
}

func (m *Machine) rassign(dst types.Type, src RVal) Value {
	v := copyVal(src.get())
	if types.IsInterface(dst) && !types.IsInterface(src.t) {
		return Iface{src.t, v}
	}
	return v
}

func (m *Machine) rcoerceInt(t types.Type, x *Term) *Term {
	w, _ := intWidth(t.Underlying().(*types.Basic))
	if w < x.w {
		return Extract(w-1, 0, x)
	}
	return x
}

func registerReflect() {
	in := intrinsics
	val := func(name string, f func(m *Machine, r RVal, a []Value) Value) {
		in["(reflect.Value)."+name] = func(m *Machine, c *callCtx) Value { return f(m, rv(c.args[0]), c.args[1:]) }
	}
	typ := func(name string, f func(m *Machine, t types.Type, a []Value) Value) {
		in["(*reflect.rtype)."+name] = func(m *Machine, c *callCtx) Value { return f(m, rtypeOf(c.args[0]), c.args[1:]) }
	}
	fun := func(name string, f func(m *Machine, a []Value) Value) {
		in["reflect."+name] = func(m *Machine, c *callCtx) Value { return f(m, c.args) }
	}
	kindT := func(k reflect.Kind) Value { return BV(64, uint64(k)) }

	fun("ValueOf", func(m *Machine, a []Value) Value {
		iv := a[0].(Iface)
		if iv.t == nil {
			return RVal{}
		}
		return RVal{t: iv.t, v: iv.v}
	})
	fun("TypeOf", func(m *Machine, a []Value) Value { return m.rtype(a[0].(Iface).t) })
	in["reflect.TypeFor"] = func(m *Machine, c *callCtx) Value { return m.rtype(c.fn.TypeArgs()[0]) }
	fun("Zero", func(m *Machine, a []Value) Value { t := rtypeOf(a[0]); return RVal{t: t, v: zero(t)} })
	fun("New", func(m *Machine, a []Value) Value {
		t := rtypeOf(a[0])
		p := new(Value)
		*p = zero(t)
		return RVal{t: types.NewPointer(t), v: p}
	})
	fun("PointerTo", func(m *Machine, a []Value) Value { return m.rtype(types.NewPointer(rtypeOf(a[0]))) })
	in["reflect.PtrTo"] = in["reflect.PointerTo"]
	fun("SliceOf", func(m *Machine, a []Value) Value { return m.rtype(types.NewSlice(rtypeOf(a[0]))) })
	fun("MakeSlice", func(m *Machine, a []Value) Value {
		t := rtypeOf(a[0])
		n, k := int(m.concretize(asTerm(a[1]))), int(m.concretize(asTerm(a[2])))
		if n < 0 || k < n {
			m.rpanic("reflect.MakeSlice: bad length")
		}
		s := make(Slice, n, k)
		for i := range s[:k] {
			s[:k][i] = zero(elemOf(t))
		}
		return RVal{t: t, v: s}
	})
	fun("MakeMapWithSize", func(m *Machine, a []Value) Value {
		m.idCtr++
		return RVal{t: rtypeOf(a[0]), v: &Map{index: map[string]*mapEntry{}, id: m.idCtr}}
	})
	in["reflect.MakeMap"] = in["reflect.MakeMapWithSize"]
	appendAll := func(m *Machine, s RVal, xs []Value) Value {
		old := sl(s.get())
		n := make(Slice, 0, len(old)+len(xs))
		for _, x := range old {
			n = append(n, copyVal(x))
		}
		return RVal{t: s.t, v: append(n, xs...)}
	}
	fun("Append", func(m *Machine, a []Value) Value {
		s := rv(a[0])
		var xs []Value
		for _, x := range sl(a[1]) {
			xs = append(xs, m.rassign(elemOf(s.t), rv(x)))
		}
		return appendAll(m, s, xs)
	})
	fun("AppendSlice", func(m *Machine, a []Value) Value {
		var xs []Value
		for _, x := range sl(rv(a[1]).get()) {
			xs = append(xs, copyVal(x))
		}
		return appendAll(m, rv(a[0]), xs)
	})
	fun("Copy", func(m *Machine, a []Value) Value {
		d, s := rv(a[0]), rv(a[1])
		var ds, ss Slice
		switch x := d.get().(type) {
		case Slice:
			ds = x
		case Array:
			ds = Slice(x)
		}
		switch x := s.get().(type) {
		case Slice:
			ss = x
		case Array:
			ss = Slice(x)
		case Str:
			ss = termsToSlice(x.terms())
		}
		n := min(len(ds), len(ss))
		for i := 0; i < n; i++ {
			m.store(&ds[i], copyVal(ss[i]))
		}
		return mkInt(n)
	})
	fun("Indirect", func(m *Machine, a []Value) Value {
		r := rv(a[0])
		if r.t == nil || rkind(r.t) != reflect.Pointer {
			return r
		}
		p := r.get().(*Value)
		if p == nil {
			return RVal{}
		}
		return RVal{t: elemOf(r.t), p: p}
	})

	val("IsValid", func(m *Machine, r RVal, a []Value) Value { return Bool(r.t != nil) })
	val("Kind", func(m *Machine, r RVal, a []Value) Value {
		if r.t == nil {
			return kindT(reflect.Invalid)
		}
		return kindT(rkind(r.t))
	})
	val("Type", func(m *Machine, r RVal, a []Value) Value { return m.rtype(r.t) })
	val("IsNil", func(m *Machine, r RVal, a []Value) Value { return Bool(isNilVal(r.get())) })
	val("IsZero", func(m *Machine, r RVal, a []Value) Value { return m.deepEqual(r.get(), zero(r.t)) })
	val("CanSet", func(m *Machine, r RVal, a []Value) Value { return Bool(r.p != nil && !r.ro) })
	val("CanAddr", func(m *Machine, r RVal, a []Value) Value { return Bool(r.p != nil) })
	val("CanInterface", func(m *Machine, r RVal, a []Value) Value { return Bool(!r.ro) })
	val("Addr", func(m *Machine, r RVal, a []Value) Value {
		return RVal{t: types.NewPointer(r.t), v: r.p, ro: r.ro}
	})
	val("Elem", func(m *Machine, r RVal, a []Value) Value {
		switch x := r.get().(type) {
		case *Value:
			if x == nil {
				return RVal{}
			}
			return RVal{t: elemOf(r.t), p: x, ro: r.ro}
		case Iface:
			if x.t == nil {
				return RVal{}
			}
			return RVal{t: x.t, v: x.v, ro: r.ro}
		}
		panic(unsupported{"reflect.Value.Elem"})
	})
	val("NumField", func(m *Machine, r RVal, a []Value) Value {
		return mkInt(r.t.Underlying().(*types.Struct).NumFields())
	})
	val("Field", func(m *Machine, r RVal, a []Value) Value {
		st := r.t.Underlying().(*types.Struct)
		i := int(m.concretize(asTerm(a[0])))
		f := st.Field(i)
		o := RVal{t: f.Type(), ro: r.ro || !f.Exported()}
		if r.p != nil {
			o.p = &(*r.p).(Struct)[i]
		} else {
			o.v = r.v.(Struct)[i]
		}
		return o
	})
	val("FieldByName", func(m *Machine, r RVal, a []Value) Value {
		st := r.t.Underlying().(*types.Struct)
		n := m.argStr(a[0])
		for i := 0; i < st.NumFields(); i++ {
			if f := st.Field(i); f.Name() == n {
				o := RVal{t: f.Type(), ro: r.ro || !f.Exported()}
				if r.p != nil {
					o.p = &(*r.p).(Struct)[i]
				} else {
					o.v = r.v.(Struct)[i]
				}
				return o
			}
		}
		return RVal{}
	})
	val("Len", func(m *Machine, r RVal, a []Value) Value {
		switch x := r.get().(type) {
		case Slice:
			return mkInt(len(x))
		case Array:
			return mkInt(len(x))
		case Str:
			return mkInt(x.length())
		case *Map:
			if x == nil {
				return mkInt(0)
			}
			return mkInt(x.n)
		}
		panic(unsupported{"reflect.Value.Len"})
	})
	val("Cap", func(m *Machine, r RVal, a []Value) Value { return mkInt(cap(sl(r.get()))) })
	val("Index", func(m *Machine, r RVal, a []Value) Value {
		i := int(m.concretize(asTerm(a[0])))
		switch x := r.get().(type) {
		case Slice:
			if i < 0 || i >= len(x) {
				m.rpanic("slice index out of range")
			}
			return RVal{t: elemOf(r.t), p: &x[i], ro: r.ro}
		case Array:
			if i < 0 || i >= len(x) {
				m.rpanic("array index out of range")
			}
			if r.p != nil {
				return RVal{t: elemOf(r.t), p: &x[i], ro: r.ro}
			}
			return RVal{t: elemOf(r.t), v: x[i], ro: r.ro}
		case Str:
			return RVal{t: types.Typ[types.Uint8], v: x.at(i)}
		}
		panic(unsupported{"reflect.Value.Index"})
	})
	val("Slice", func(m *Machine, r RVal, a []Value) Value {
		i, j := int(m.concretize(asTerm(a[0]))), int(m.concretize(asTerm(a[1])))
		switch x := r.get().(type) {
		case Slice:
			return RVal{t: r.t, v: x[i:j]}
		case Str:
			return RVal{t: r.t, v: x.slice(i, j)}
		}
		panic(unsupported{"reflect.Value.Slice"})
	})
	val("Set", func(m *Machine, r RVal, a []Value) Value { m.rset(r, m.rassign(r.t, rv(a[0]))); return nil })
	val("SetZero", func(m *Machine, r RVal, a []Value) Value { m.rset(r, zero(r.t)); return nil })
	val("SetInt", func(m *Machine, r RVal, a []Value) Value { m.rset(r, m.rcoerceInt(r.t, asTerm(a[0]))); return nil })
	val("SetUint", func(m *Machine, r RVal, a []Value) Value { m.rset(r, m.rcoerceInt(r.t, asTerm(a[0]))); return nil })
	val("SetFloat", func(m *Machine, r RVal, a []Value) Value { m.rset(r, a[0]); return nil })
	val("SetBool", func(m *Machine, r RVal, a []Value) Value { m.rset(r, a[0]); return nil })
	val("SetString", func(m *Machine, r RVal, a []Value) Value { m.rset(r, a[0]); return nil })
	val("SetBytes", func(m *Machine, r RVal, a []Value) Value { m.rset(r, a[0]); return nil })
	val("SetLen", func(m *Machine, r RVal, a []Value) Value {
		m.rset(r, sl(r.get())[:int(m.concretize(asTerm(a[0])))])
		return nil
	})
	val("Int", func(m *Machine, r RVal, a []Value) Value { return Sext(64, asTerm(r.get())) })
	val("Uint", func(m *Machine, r RVal, a []Value) Value { return Zext(64, asTerm(r.get())) })
	val("Bool", func(m *Machine, r RVal, a []Value) Value { return r.get() })
	val("Float", func(m *Machine, r RVal, a []Value) Value { return r.get() })
	val("Bytes", func(m *Machine, r RVal, a []Value) Value {
		if x, ok := r.get().(Array); ok {
			return Slice(x)
		}
		return r.get()
	})
	val("String", func(m *Machine, r RVal, a []Value) Value {
		if r.t == nil {
			return mkStr("<invalid Value>")
		}
		if s, ok := r.get().(Str); ok {
			return s
		}
		return mkStr("<" + typeString(r.t) + " Value>")
	})
	val("Interface", func(m *Machine, r RVal, a []Value) Value {
		if r.t == nil || r.ro {
			m.rpanic("reflect.Value.Interface: cannot return value obtained from unexported field or method")
		}
		return toIface(r.t, r.get())
	})
	val("NumMethod", func(m *Machine, r RVal, a []Value) Value { return mkInt(types.NewMethodSet(r.t).Len()) })
	val("MapIndex", func(m *Machine, r RVal, a []Value) Value {
		e := m.mapFind(r.get().(*Map), rv(a[0]).get())
		if e == nil {
			return RVal{}
		}
		return RVal{t: elemOf(r.t), v: e.val}
	})
	val("SetMapIndex", func(m *Machine, r RVal, a []Value) Value {
		mp, k, v := r.get().(*Map), rv(a[0]).get(), rv(a[1])
		if v.t == nil {
			m.mapDelete(mp, k)
		} else {
			m.mapSet(mp, k, m.rassign(elemOf(r.t), v))
		}
		return nil
	})
	val("MapKeys", func(m *Machine, r RVal, a []Value) Value {
		var s Slice
		if mp := r.get().(*Map); mp != nil {
			for _, e := range mp.entries {
				if !e.dead {
					s = append(s, RVal{t: r.t.Underlying().(*types.Map).Key(), v: e.key})
				}
			}
		}
		return s
	})
	val("Convert", func(m *Machine, r RVal, a []Value) Value {
		t := rtypeOf(a[0])
		if types.Identical(r.t.Underlying(), t.Underlying()) {
			return RVal{t: t, v: copyVal(r.get())}
		}
		panic(unsupported{"reflect.Value.Convert"})
	})

	typ("Kind", func(m *Machine, t types.Type, a []Value) Value { return kindT(rkind(t)) })
	typ("Elem", func(m *Machine, t types.Type, a []Value) Value { return m.rtype(elemOf(t)) })
	typ("Key", func(m *Machine, t types.Type, a []Value) Value { return m.rtype(t.Underlying().(*types.Map).Key()) })
	typ("Len", func(m *Machine, t types.Type, a []Value) Value {
		return mkInt(int(t.Underlying().(*types.Array).Len()))
	})
	typ("NumField", func(m *Machine, t types.Type, a []Value) Value {
		return mkInt(t.Underlying().(*types.Struct).NumFields())
	})
	typ("Field", func(m *Machine, t types.Type, a []Value) Value {
		st := t.Underlying().(*types.Struct)
		i := int(m.concretize(asTerm(a[0])))
		f := st.Field(i)
		pkg := ""
		if !f.Exported() && f.Pkg() != nil {
			pkg = f.Pkg().Path()
		}
		return Struct{mkStr(f.Name()), mkStr(pkg), m.rtype(f.Type()), mkStr(st.Tag(i)), BV(64, 0), Slice{mkInt(i)}, Bool(f.Embedded())}
	})
	typ("Name", func(m *Machine, t types.Type, a []Value) Value {
		switch u := types.Unalias(t).(type) {
		case *types.Named:
			return mkStr(u.Obj().Name())
		case *types.Basic:
			return mkStr(u.Name())
		}
		return mkStr("")
	})
	typ("String", func(m *Machine, t types.Type, a []Value) Value { return mkStr(typeString(t)) })
	typ("PkgPath", func(m *Machine, t types.Type, a []Value) Value {
		if u, ok := types.Unalias(t).(*types.Named); ok && u.Obj().Pkg() != nil {
			return mkStr(u.Obj().Pkg().Path())
		}
		return mkStr("")
	})
	typ("NumMethod", func(m *Machine, t types.Type, a []Value) Value {
		if it, ok := t.Underlying().(*types.Interface); ok {
			return mkInt(it.NumMethods())
		}
		return mkInt(types.NewMethodSet(t).Len())
	})
	typ("Size", func(m *Machine, t types.Type, a []Value) Value {
		return BV(64, uint64(types.SizesFor("gc", "amd64").Sizeof(t)))
	})
	typ("Bits", func(m *Machine, t types.Type, a []Value) Value {
		w, _ := intWidth(t.Underlying().(*types.Basic))
		return mkInt(int(w))
	})
	typ("Implements", func(m *Machine, t types.Type, a []Value) Value { return Bool(m.e.implements(t, rtypeOf(a[0]))) })
	typ("AssignableTo", func(m *Machine, t types.Type, a []Value) Value { return Bool(types.AssignableTo(t, rtypeOf(a[0]))) })
	typ("ConvertibleTo", func(m *Machine, t types.Type, a []Value) Value { return Bool(types.ConvertibleTo(t, rtypeOf(a[0]))) })
	typ("Comparable", func(m *Machine, t types.Type, a []Value) Value { return Bool(types.Comparable(t)) })
}

func typeString(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string {
		if i := strings.LastIndexByte(p.Path(), '/'); i >= 0 {
			return p.Path()[i+1:]
		}
		return p.Path()
	})
}
