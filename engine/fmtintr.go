package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
)

const decLen = 20

// decimal renders an integer; a symbolic one becomes a 20-digit zero-padded token (see DESIGN.md).
func (m *Machine) decimal(t *Term, signed bool) Str {
	if t.op == OConst {
		if signed {
			return mkStr(strconv.FormatInt(sx(t.val, t.w), 10))
		}
		return mkStr(strconv.FormatUint(t.val, 10))
	}
	if signed {
		if m.branch(Slt(t, BV(t.w, 0))) {
			return concat(mkStr("-"), decToken(Zext(64, Neg(t))))
		}
	}
	return decToken(Zext(64, t))
}

func decToken(x *Term) Str {
	if x.op == OConst {
		return mkStr(strconv.FormatUint(x.val, 10))
	}
	b := make([]*Term, decLen)
	for i := range b {
		b[i] = Dec(x, i)
	}
	return strOfBytes(b)
}

// parseDecToken recognises a token made by decToken at b[0:20].
func parseDecToken(b []*Term) *Term {
	if len(b) < decLen || b[0].op != ODec || b[0].val != 0 {
		return nil
	}
	x := b[0].a
	for i := 0; i < decLen; i++ {
		if b[i].op != ODec || b[i].val != uint64(i) || b[i].a != x {
			return nil
		}
	}
	return x
}

func hexDigit(n *Term, upper bool) *Term {
	// n is a 4-bit term
	w := Zext(8, n)
	base := uint64('a' - 10)
	if upper {
		base = 'A' - 10
	}
	if n.op == OConst {
		if n.val < 10 {
			return BV(8, '0'+n.val)
		}
		return BV(8, base+n.val)
	}
	return Ite(Ult(n, BV(4, 10)), Add(w, BV(8, '0')), Add(w, BV(8, base)))
}

func hexBytes(ts []*Term, upper bool) Str {
	var out []*Term
	for _, t := range ts {
		out = append(out, hexDigit(Extract(7, 4, t), upper), hexDigit(Extract(3, 0, t), upper))
	}
	if out == nil {
		return Str{}
	}
	return strOfBytes(out)
}

func simpleArg(v Value) bool {
	iv, ok := v.(Iface)
	if !ok {
		return false
	}
	if iv.t == nil {
		return true
	}
	if _, ok := iv.t.(*types.Basic); !ok {
		if s, ok := iv.t.Underlying().(*types.Slice); !ok || !isByte(s.Elem()) {
			return false
		}
		if _, named := iv.t.(*types.Named); named {
			return false
		}
	}
	switch x := iv.v.(type) {
	case *Term, float64, FloatSym:
		return true
	case Str:
		return x.lazy == nil || x.lazy.done
	case Slice:
		return true
	}
	return false
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (m *Machine) sprintfV(format Str, args Slice) Str {
	eager := true
	for _, a := range args {
		if !simpleArg(a) {
			eager = false
			break
		}
	}
	cp := append(Slice{}, args...)
	if eager {
		return m.format(m.argStr(format), cp)
	}
	return Str{lazy: &lazyStr{f: func() Str { return m.format(m.argStr(format), cp) }}}
}

func (m *Machine) format(format string, args Slice) Str {
	var out Str
	lit := func(s string) { out = concat(out, mkStr(s)) }
	ai := 0
	for i := 0; i < len(format); {
		j := strings.IndexByte(format[i:], '%')
		if j < 0 {
			lit(format[i:])
			break
		}
		lit(format[i : i+j])
		i += j + 1
		if i >= len(format) {
			lit("%!(NOVERB)")
			break
		}
		flags := ""
		for i < len(format) && strings.IndexByte("+-# 0", format[i]) >= 0 {
			flags += format[i : i+1]
			i++
		}
		width, prec := -1, -1
		num := func() int {
			if i < len(format) && format[i] == '*' {
				i++
				if ai < len(args) {
					v := int(asConst(args[ai].(Iface).v))
					ai++
					return v
				}
			}
			k := i
			for i < len(format) && format[i] >= '0' && format[i] <= '9' {
				i++
			}
			if k == i {
				return -1
			}
			n, _ := strconv.Atoi(format[k:i])
			return n
		}
		width = num()
		if i < len(format) && format[i] == '.' {
			i++
			prec = num()
			if prec < 0 {
				prec = 0
			}
		}
		if i < len(format) && format[i] == '[' {
			k := strings.IndexByte(format[i:], ']')
			n, _ := strconv.Atoi(format[i+1 : i+k])
			ai = n - 1
			i += k + 1
		}
		if i >= len(format) {
			lit("%!(NOVERB)")
			break
		}
		verb := format[i]
		i++
		if verb == '%' {
			lit("%")
			continue
		}
		if ai >= len(args) {
			lit("%!" + string(verb) + "(MISSING)")
			continue
		}
		a := args[ai].(Iface)
		ai++
		out = concat(out, m.fmtArg(a, verb, flags, width, prec))
	}
	if ai < len(args) {
		lit("%!(EXTRA ...)")
	}
	return out
}

func (m *Machine) fmtArg(a Iface, verb byte, flags string, width, prec int) Str {
	if verb == 'T' {
		if a.t == nil {
			return mkStr("<nil>")
		}
		return mkStr(a.t.String())
	}
	if a.t == nil {
		return mkStr("<nil>")
	}
	if verb == 'w' {
		verb = 'v'
	}
	var s Str
	switch verb {
	case 'v', 's', 'q', 'x', 'X':
		if !strings.Contains(flags, "#") {
			if fn := m.e.methodByName(a.t, "Error"); fn != nil && fn.Signature.Params().Len() == 0 {
				s = m.callSync(&Closure{fn: fn}, []Value{a.v}).(Str)
				return m.fmtStr(s, verb, flags, width, prec)
			}
			if fn := m.e.methodByName(a.t, "String"); fn != nil && fn.Signature.Params().Len() == 0 && fn.Signature.Results().Len() == 1 {
				if p, ok := a.v.(*Value); ok && p == nil {
					return mkStr("<nil>")
				}
				s = m.callSync(&Closure{fn: fn}, []Value{a.v}).(Str)
				return m.fmtStr(s, verb, flags, width, prec)
			}
		}
	}
	return m.fmtVal(a.t, a.v, verb, flags, width, prec, 0)
}

func (m *Machine) pad(s Str, flags string, width int, zeroOK bool) Str {
	n := s.length()
	if width <= n {
		return s
	}
	fill := strings.Repeat(" ", width-n)
	if strings.Contains(flags, "-") {
		return concat(s, mkStr(fill))
	}
	if zeroOK && strings.Contains(flags, "0") {
		z := strings.Repeat("0", width-n)
		if c, ok := s.concrete(); ok && strings.HasPrefix(c, "-") {
			return mkStr("-" + z + c[1:])
		}
		return concat(mkStr(z), s)
	}
	return concat(mkStr(fill), s)
}

func (m *Machine) fmtStr(s Str, verb byte, flags string, width, prec int) Str {
	s = s.force()
	switch verb {
	case 'x', 'X':
		return m.pad(hexBytes(s.terms(), verb == 'X'), flags, width, false)
	case 'q':
		if c, ok := s.concrete(); ok {
			return m.pad(mkStr(strconv.Quote(c)), flags, width, false)
		}
		return concat(concat(mkStr(`"`), s), mkStr(`"`)) // approximate: no escaping of symbolic text
	}
	if prec >= 0 && prec < s.length() {
		s = s.slice(0, prec)
	}
	return m.pad(s, flags, width, false)
}

func (m *Machine) fmtVal(t types.Type, v Value, verb byte, flags string, width, prec, depth int) Str {
	if depth > 0 {
		// nested values use their methods too
		if _, ok := t.Underlying().(*types.Interface); ok {
			iv := v.(Iface)
			return m.fmtArg(iv, verb, flags, -1, -1)
		}
		if fn := m.e.methodByName(t, "Error"); fn != nil && (verb == 'v' || verb == 's') {
			return m.callSync(&Closure{fn: fn}, []Value{v}).(Str)
		}
		if fn := m.e.methodByName(t, "String"); fn != nil && (verb == 'v' || verb == 's') && fn.Signature.Params().Len() == 0 {
			return m.callSync(&Closure{fn: fn}, []Value{v}).(Str)
		}
	}
	switch x := v.(type) {
	case *Term:
		if x.w == 0 {
			if m.branch(x) {
				return m.pad(mkStr("true"), flags, width, false)
			}
			return m.pad(mkStr("false"), flags, width, false)
		}
		signed := isSigned(t)
		switch verb {
		case 'v', 'd', 's':
			s := m.decimal(x, signed)
			if strings.Contains(flags, "+") && (x.op != OConst || sx(x.val, x.w) >= 0) {
				s = concat(mkStr("+"), s)
			}
			return m.pad(s, flags, width, true)
		case 'x', 'X':
			if x.op == OConst {
				f := "%" + string(verb)
				var s string
				if signed {
					s = fmt.Sprintf(f, sx(x.val, x.w))
				} else {
					s = fmt.Sprintf(f, x.val)
				}
				return m.pad(mkStr(s), flags, width, true)
			}
			neg := false
			if signed && m.branch(Slt(x, BV(x.w, 0))) {
				neg = true
				x = Neg(x)
			}
			nd := int(x.w) / 4
			digs := make([]*Term, nd)
			for i := range digs {
				hi := x.w - 1 - uint8(4*i)
				digs[i] = hexDigit(Extract(hi, hi-3, x), verb == 'X')
			}
			need := 1
			if width > 0 && strings.Contains(flags, "0") {
				need = min(width, nd)
			}
			start := 0
			for nd-start > need {
				hi := x.w - 1 - uint8(4*start)
				if !m.branch(Eq(Extract(hi, hi-3, x), BV(4, 0))) {
					break
				}
				start++
			}
			s := strOfBytes(digs[start:])
			if neg {
				s = concat(mkStr("-"), s)
			}
			return m.pad(s, flags, width, true)
		case 'c':
			return m.pad(m.convert(types.Typ[types.Int32], types.Typ[types.String], Sext(32, x)).(Str), flags, width, false)
		case 'b', 'o', 'U', 'q':
			return mkStr(fmt.Sprintf("%"+string(verb), asConst(x)))
		}
		return mkStr("%!" + string(verb) + "(int)")
	case float64:
		f := "%" + flags
		if width >= 0 {
			f += strconv.Itoa(width)
		}
		if prec >= 0 {
			f += "." + strconv.Itoa(prec)
		}
		return mkStr(fmt.Sprintf(f+string(verb), x))
	case FloatSym:
		return mkStr("<float>")
	case Str:
		if depth > 0 && verb == 'v' || verb == 's' || verb == 'v' {
			return m.fmtStr(x, 's', flags, width, prec)
		}
		return m.fmtStr(x, verb, flags, width, prec)
	case Slice:
		if et, ok := t.Underlying().(*types.Slice); ok && isByte(et.Elem()) {
			if verb == 's' || verb == 'x' || verb == 'X' || verb == 'q' {
				return m.fmtStr(strOfBytes(bytesToTerms(x)), verb, flags, width, prec)
			}
		}
		return m.fmtList(t.Underlying().(*types.Slice).Elem(), x, verb, flags, depth)
	case Array:
		et := t.Underlying().(*types.Array).Elem()
		if isByte(et) && (verb == 's' || verb == 'x' || verb == 'X') {
			return m.fmtStr(strOfBytes(bytesToTerms(Slice(x))), verb, flags, width, prec)
		}
		return m.fmtList(et, Slice(x), verb, flags, depth)
	case Struct:
		st := t.Underlying().(*types.Struct)
		out := mkStr("{")
		for i, f := range x {
			if i > 0 {
				out = concat(out, mkStr(" "))
			}
			if strings.Contains(flags, "+") {
				out = concat(out, mkStr(st.Field(i).Name()+":"))
			}
			out = concat(out, m.fmtVal(st.Field(i).Type(), f, verb, flags, -1, -1, depth+1))
		}
		return concat(out, mkStr("}"))
	case Iface:
		return m.fmtArg(x, verb, flags, width, prec)
	case *Value:
		if x == nil {
			return mkStr("<nil>")
		}
		if depth == 0 {
			if pt, ok := t.Underlying().(*types.Pointer); ok {
				switch (*x).(type) {
				case Struct, Array:
					return concat(mkStr("&"), m.fmtVal(pt.Elem(), *x, verb, flags, -1, -1, depth+1))
				}
			}
		}
		return mkStr("0xc000000000")
	case *Map:
		if x == nil {
			return mkStr("map[]")
		}
		mt := t.Underlying().(*types.Map)
		out := mkStr("map[")
		first := true
		for _, e := range x.entries {
			if !first {
				out = concat(out, mkStr(" "))
			}
			first = false
			out = concat(out, m.fmtVal(mt.Key(), e.key, verb, flags, -1, -1, depth+1))
			out = concat(out, mkStr(":"))
			out = concat(out, m.fmtVal(mt.Elem(), e.val, verb, flags, -1, -1, depth+1))
		}
		return concat(out, mkStr("]"))
	}
	return mkStr(fmt.Sprintf("<%T>", v))
}

func (m *Machine) fmtList(et types.Type, xs Slice, verb byte, flags string, depth int) Str {
	out := mkStr("[")
	for i, x := range xs {
		if i > 0 {
			out = concat(out, mkStr(" "))
		}
		out = concat(out, m.fmtVal(et, x, verb, flags, -1, -1, depth+1))
	}
	return concat(out, mkStr("]"))
}

func (m *Machine) sprint(args Slice, ln bool) Str {
	var out Str
	for i, a := range args {
		iv := a.(Iface)
		if i > 0 {
			_, s1 := args[i-1].(Iface).v.(Str)
			_, s2 := iv.v.(Str)
			if ln || !s1 && !s2 {
				out = concat(out, mkStr(" "))
			}
		}
		out = concat(out, m.fmtArg(iv, 'v', "", -1, -1))
	}
	if ln {
		out = concat(out, mkStr("\n"))
	}
	return out
}

func (m *Machine) sprintLazy(args Slice, ln bool) Str {
	cp := append(Slice{}, args...)
	for _, a := range args {
		if !simpleArg(a) {
			return Str{lazy: &lazyStr{f: func() Str { return m.sprint(cp, ln) }}}
		}
	}
	return m.sprint(cp, ln)
}

// writeTo pushes a call of w.Write(text); its (n, err) is the result of the intrinsic.
func (m *Machine) writeTo(c *callCtx, w Value, text Str) Value {
	iw := w.(Iface)
	if iw.t == nil {
		m.runtimeError("invalid memory address or nil pointer dereference")
	}
	fn := m.e.methodByName(iw.t, "Write")
	if fn == nil {
		panic(unsupported{"no Write method on " + iw.t.String()})
	}
	top := c.g.top
	tmp := &Frame{fi: tmpFi, regs: make([]Value, 1)}
	if !m.call(c.g, c.f, -1, &Closure{fn: fn}, []Value{copyVal(iw.v), termsToSlice(text.terms())}, false) {
		panic(unsupported{"blocking Write intrinsic"})
	}
	_ = tmp
	if c.g.top == top {
		return Tuple{mkInt(text.length()), Iface{}}
	}
	return pushedMark{}
}

func sl(v Value) Slice {
	s, _ := v.(Slice)
	return s
}

func registerFmt() {
	in := intrinsics
	in["fmt.Sprintf"] = func(m *Machine, c *callCtx) Value { return m.sprintfV(c.args[0].(Str), sl(c.args[1])) }
	in["fmt.Sprint"] = func(m *Machine, c *callCtx) Value { return m.sprintLazy(sl(c.args[0]), false) }
	in["fmt.Sprintln"] = func(m *Machine, c *callCtx) Value { return m.sprintLazy(sl(c.args[0]), true) }
	in["fmt.Fprintf"] = func(m *Machine, c *callCtx) Value {
		return m.writeTo(c, c.args[0], m.sprintfV(c.args[1].(Str), sl(c.args[2])).force())
	}
	in["fmt.Fprint"] = func(m *Machine, c *callCtx) Value { return m.writeTo(c, c.args[0], m.sprint(sl(c.args[1]), false)) }
	in["fmt.Fprintln"] = func(m *Machine, c *callCtx) Value { return m.writeTo(c, c.args[0], m.sprint(sl(c.args[1]), true)) }
	pr := func(m *Machine, c *callCtx) Value { return Tuple{mkInt(0), Iface{}} }
	in["fmt.Printf"], in["fmt.Println"], in["fmt.Print"] = pr, pr, pr
	in["fmt.Appendf"] = func(m *Machine, c *callCtx) Value {
		return m.appendSlice(c.args[0].(Slice), termsToSlice(m.sprintfV(c.args[1].(Str), sl(c.args[2])).terms()))
	}
	in["fmt.Errorf"] = func(m *Machine, c *callCtx) Value {
		format := m.argStr(c.args[0])
		args := sl(c.args[1])
		msg := m.sprintfV(c.args[0].(Str), args)
		var wrapped []Iface
		n := 0
		for i := 0; i < len(format); i++ {
			if format[i] != '%' {
				continue
			}
			i++
			for i < len(format) && strings.IndexByte("+-# 0123456789.", format[i]) >= 0 {
				i++
			}
			if i < len(format) && format[i] == '%' {
				continue
			}
			if i < len(format) && format[i] == 'w' && n < len(args) {
				if iv := args[n].(Iface); iv.t != nil {
					wrapped = append(wrapped, iv)
				}
			}
			n++
		}
		p := new(Value)
		switch len(wrapped) {
		case 0:
			*p = Struct{msg}
			return Iface{types.NewPointer(m.e.namedType("errors", "errorString")), p}
		case 1:
			*p = Struct{msg, wrapped[0]}
			return Iface{types.NewPointer(m.e.namedType("fmt", "wrapError")), p}
		}
		var es Slice
		for _, w := range wrapped {
			es = append(es, w)
		}
		*p = Struct{msg, es}
		return Iface{types.NewPointer(m.e.namedType("fmt", "wrapErrors")), p}
	}
	// strconv on symbolic integers
	in["strconv.Itoa"] = func(m *Machine, c *callCtx) Value { return m.decimal(asTerm(c.args[0]), true) }
	in["strconv.FormatInt"] = func(m *Machine, c *callCtx) Value {
		t, b := asTerm(c.args[0]), int(asConst(c.args[1]))
		if t.op == OConst {
			return mkStr(strconv.FormatInt(int64(t.val), b))
		}
		if b == 16 {
			return m.fmtVal(types.Typ[types.Int64], t, 'x', "", -1, -1, 0)
		}
		if b != 10 {
			panic(unsupported{"FormatInt base"})
		}
		return m.decimal(t, true)
	}
	in["strconv.FormatUint"] = func(m *Machine, c *callCtx) Value {
		t, b := asTerm(c.args[0]), int(asConst(c.args[1]))
		if t.op == OConst {
			return mkStr(strconv.FormatUint(t.val, b))
		}
		if b == 16 {
			return m.fmtVal(types.Typ[types.Uint64], t, 'x', "", -1, -1, 0)
		}
		if b != 10 {
			panic(unsupported{"FormatUint base"})
		}
		return m.decimal(t, false)
	}
	parse := func(signed bool) Intrinsic {
		name := "ParseUint"
		if signed {
			name = "ParseInt"
		}
		return func(m *Machine, c *callCtx) Value {
			s := c.args[0].(Str).force()
			base, bits := asConst(c.args[1]), asConst(c.args[2])
			if s.b != nil && (base == 10 || base == 0) {
				if x, neg := tokenOf(s); x != nil {
					w := uint8(bits)
					if w == 0 {
						w = 64
					}
					if v, ok := m.tokenToInt(x, neg, signed, w); ok {
						if signed {
							v = Sext(64, v)
						} else {
							v = Zext(64, v)
						}
						return Tuple{v, Iface{}}
					}
					// out of range: take the library's own path with a concrete witness
					return m.callReal(c, "strconv", name, []Value{mkStr("99999999999999999999999"), c.args[1], c.args[2]})
				}
			}
			return m.callReal(c, "strconv", name, c.args)
		}
	}
	in["strconv.ParseUint"] = parse(false)
	in["strconv.ParseInt"] = parse(true)
	in["strconv.Atoi"] = func(m *Machine, c *callCtx) Value {
		s := c.args[0].(Str).force()
		if s.b != nil {
			if x, neg := tokenOf(s); x != nil {
				if v, ok := m.tokenToInt(x, neg, true, 64); ok {
					return Tuple{v, Iface{}}
				}
				return m.callReal(c, "strconv", "Atoi", []Value{mkStr("99999999999999999999999")})
			}
		}
		return m.callReal(c, "strconv", "Atoi", c.args)
	}
}

// tokenOf recognises "[-]<decimal token>".
func tokenOf(s Str) (*Term, bool) {
	b := s.b
	neg := false
	if len(b) == decLen+1 && b[0].op == OConst && b[0].val == '-' {
		neg = true
		b = b[1:]
	}
	if len(b) != decLen {
		return nil, false
	}
	return parseDecToken(b), neg
}

// tokenToInt converts a decimal token to a w-bit integer; false when out of range.
func (m *Machine) tokenToInt(x *Term, neg, signed bool, w uint8) (*Term, bool) {
	var ok *Term
	switch {
	case neg && !signed:
		return nil, false
	case neg:
		ok = Ule(x, BV(64, uint64(1)<<(w-1)))
	case signed:
		ok = Ule(x, BV(64, uint64(1)<<(w-1)-1))
	default:
		ok = Ule(x, BV(64, mask(w)))
	}
	if !m.branch(ok) {
		return nil, false
	}
	v := x
	if w < 64 {
		v = Extract(w-1, 0, x)
	}
	if neg {
		v = Neg(v)
	}
	return v, true
}

// callReal runs the body of a function that has an intrinsic.
func (m *Machine) callReal(c *callCtx, pkg, name string, args []Value) Value {
	fn := m.e.findFunc(pkg, name)
	fi := m.e.realInfo(fn)
	f := m.newFrame(fi, nil, args)
	f.caller = c.f
	c.g.top = f
	return pushedMark{}
}

func (e *Engine) realInfo(fn any) *fnInfo {
	return e.compileReal(fn)
}
