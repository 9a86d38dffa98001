package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

// JSON is encoded and decoded structurally, following encoding/json's rules for Go types; symbolic integers
// are written as 20-digit tokens which the decoder recognises.

type jsonErr struct{ e Iface }

func (m *Machine) mkErr(msg string) Iface {
	p := new(Value)
	*p = Struct{mkStr(msg)}
	return Iface{types.NewPointer(m.e.namedType("errors", "errorString")), p}
}

type jfield struct {
	name      string
	idx       []int
	typ       types.Type
	omitempty bool
	str       bool
}

func jsonFields(st *types.Struct) []jfield {
	var out []jfield
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		tag := reflect.StructTag(st.Tag(i)).Get("json")
		if tag == "-" {
			continue
		}
		parts := strings.Split(tag, ",")
		if f.Embedded() && parts[0] == "" {
			t := f.Type()
			if est, ok := t.Underlying().(*types.Struct); ok {
				for _, g := range jsonFields(est) {
					g.idx = append([]int{i}, g.idx...)
					out = append(out, g)
				}
				continue
			}
			if _, ok := t.Underlying().(*types.Pointer); ok {
				panic(unsupported{"json: embedded pointer"})
			}
		}
		if !f.Exported() {
			continue
		}
		jf := jfield{name: f.Name(), idx: []int{i}, typ: f.Type()}
		if parts[0] != "" {
			jf.name = parts[0]
		}
		for _, o := range parts[1:] {
			switch o {
			case "omitempty":
				jf.omitempty = true
			case "string":
				jf.str = true
			case "omitzero":
				panic(unsupported{"json omitzero"})
			}
		}
		out = append(out, jf)
	}
	// outer names win over embedded ones
	best := map[string]int{}
	for _, f := range out {
		if d, ok := best[f.name]; !ok || len(f.idx) < d {
			best[f.name] = len(f.idx)
		}
	}
	var res []jfield
	for _, f := range out {
		if best[f.name] == len(f.idx) {
			res = append(res, f)
		}
	}
	return res
}

func isTimeTime(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" && n.Obj().Name() == "Time"
}

func hasSym(v Value) bool {
	switch v := v.(type) {
	case *Term:
		return v.op != OConst
	case Struct:
		for _, x := range v {
			if hasSym(x) {
				return true
			}
		}
	}
	return false
}

func (m *Machine) jsonString(s Str) Str {
	s = s.force()
	if c, ok := s.concrete(); ok {
		b, _ := json.Marshal(c)
		return mkStr(string(b))
	}
	out := mkStr(`"`)
	for i := 0; i < len(s.b); {
		t := s.b[i]
		j := i
		for j < len(s.b) && s.b[j].op == OConst {
			j++
		}
		if j > i {
			c, _ := strOfBytes(s.b[i:j:j]).concrete()
			b, _ := json.Marshal(c)
			out = concat(out, mkStr(string(b[1:len(b)-1])))
			i = j
			continue
		}
		i++
		if t.op == ODec {
			out = concat(out, strOfBytes(s.b[i-1:i:i]))
			continue
		}
		p := And(Ule(BV(8, 0x20), t), Ult(t, BV(8, 0x80)))
		for _, c := range []byte{'"', '\\', '<', '>', '&'} {
			p = And(p, Not(Eq(t, BV(8, uint64(c)))))
		}
		if m.branch(p) {
			out = concat(out, strOfBytes(s.b[i-1:i:i]))
			continue
		}
		done := false
		for _, c := range []byte{'"', '\\', '<', '>', '&'} {
			if m.branch(Eq(t, BV(8, uint64(c)))) {
				b, _ := json.Marshal(string(rune(c)))
				out = concat(out, mkStr(string(b[1:len(b)-1])))
				done = true
				break
			}
		}
		if !done {
			panic(unsupported{"json: symbolic control or non-ASCII character"})
		}
	}
	return concat(out, mkStr(`"`))
}

func (m *Machine) marshalErr(e Iface) { panic(jsonErr{e}) }

func (m *Machine) jsonEnc(t types.Type, v Value, addr *Value) Str {
	if isTimeTime(t) && hasSym(v) {
		st := v.(Struct)
		out := mkStr(`"vftime`)
		out = concat(out, Str{b: decToken20(Zext(64, st[0].(*Term)))})
		out = concat(out, Str{b: decToken20(st[1].(*Term))})
		return concat(out, mkStr(`"`))
	}
	if _, isIf := t.Underlying().(*types.Interface); !isIf {
		call := func(rt types.Type, rv Value, name string) (Str, bool) {
			fn := m.e.methodByName(rt, name)
			if fn == nil || fn.Signature.Params().Len() != 0 || fn.Signature.Results().Len() != 2 {
				return Str{}, false
			}
			r := m.callSync(&Closure{fn: fn}, []Value{rv}).(Tuple)
			if e := r[1].(Iface); e.t != nil {
				m.marshalErr(e)
			}
			s := strOfBytes(bytesToTerms(sl(r[0])))
			if name == "MarshalText" {
				return m.jsonString(s), true
			}
			return s, true
		}
		for _, name := range []string{"MarshalJSON", "MarshalText"} {
			if p, ok := v.(*Value); ok && p == nil {
				if _, isP := t.Underlying().(*types.Pointer); isP {
					break
				}
			}
			if s, ok := call(t, v, name); ok {
				return s
			}
			if addr != nil {
				if s, ok := call(types.NewPointer(t), addr, name); ok {
					return s
				}
			}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch x := v.(type) {
		case *Term:
			if x.w == 0 {
				if m.branch(x) {
					return mkStr("true")
				}
				return mkStr("false")
			}
			return m.decimal(x, isSigned(t))
		case Str:
			return m.jsonString(x)
		case float64:
			b, err := json.Marshal(x)
			if err != nil {
				m.marshalErr(m.mkErr("json: unsupported value"))
			}
			return mkStr(string(b))
		}
	case *types.Struct:
		st := v.(Struct)
		out := mkStr("{")
		first := true
		for _, f := range jsonFields(u) {
			fv := Value(st)
			var fp *Value
			for _, i := range f.idx {
				fp = &fv.(Struct)[i]
				fv = *fp
			}
			if addr == nil {
				fp = nil
			}
			if f.omitempty && m.jsonEmpty(fv) {
				continue
			}
			if !first {
				out = concat(out, mkStr(","))
			}
			first = false
			kb, _ := json.Marshal(f.name)
			out = concat(out, mkStr(string(kb)+":"))
			s := m.jsonEnc(f.typ, fv, fp)
			if f.str {
				s = concat(concat(mkStr(`"`), s), mkStr(`"`))
			}
			out = concat(out, s)
		}
		return concat(out, mkStr("}"))
	case *types.Map:
		mp := v.(*Map)
		if mp == nil {
			return mkStr("null")
		}
		type kv struct {
			k Str
			v Value
		}
		var kvs []kv
		for _, e := range mp.entries {
			kvs = append(kvs, kv{m.jsonKey(u.Key(), e.key), e.val})
		}
		// keys are sorted; symbolic keys are compared by forking
		sort.SliceStable(kvs, func(i, j int) bool { return m.branch(strLess(kvs[i].k, kvs[j].k)) })
		out := mkStr("{")
		for i, e := range kvs {
			if i > 0 {
				out = concat(out, mkStr(","))
			}
			out = concat(out, m.jsonString(e.k))
			out = concat(out, mkStr(":"))
			out = concat(out, m.jsonEnc(u.Elem(), e.v, nil))
		}
		return concat(out, mkStr("}"))
	case *types.Slice:
		s := v.(Slice)
		if s == nil {
			return mkStr("null")
		}
		if isByte(u.Elem()) {
			out := mkStr(`"`)
			fn := m.e.findFunc(vfPath, "RTBase64")
			out = concat(out, m.callSync(&Closure{fn: fn}, []Value{s}).(Str))
			return concat(out, mkStr(`"`))
		}
		return m.jsonList(u.Elem(), s, true)
	case *types.Array:
		return m.jsonList(u.Elem(), Slice(v.(Array)), addr != nil)
	case *types.Pointer:
		p := v.(*Value)
		if p == nil {
			return mkStr("null")
		}
		return m.jsonEnc(u.Elem(), *p, p)
	case *types.Interface:
		iv := v.(Iface)
		if iv.t == nil {
			return mkStr("null")
		}
		return m.jsonEnc(iv.t, iv.v, nil)
	}
	m.marshalErr(m.mkErr("json: unsupported type: " + t.String()))
	return Str{}
}

func decToken20(x *Term) []*Term {
	b := make([]*Term, decLen)
	for i := range b {
		b[i] = Dec(x, i)
	}
	return b
}

func (m *Machine) jsonList(et types.Type, s Slice, addressable bool) Str {
	out := mkStr("[")
	for i := range s {
		if i > 0 {
			out = concat(out, mkStr(","))
		}
		var p *Value
		if addressable {
			p = &s[i]
		}
		out = concat(out, m.jsonEnc(et, s[i], p))
	}
	return concat(out, mkStr("]"))
}

func (m *Machine) jsonKey(t types.Type, k Value) Str {
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		return k.(Str).force()
	}
	if fn := m.e.methodByName(t, "MarshalText"); fn != nil {
		r := m.callSync(&Closure{fn: fn}, []Value{k}).(Tuple)
		if e := r[1].(Iface); e.t != nil {
			m.marshalErr(e)
		}
		return strOfBytes(bytesToTerms(sl(r[0])))
	}
	if x, ok := k.(*Term); ok {
		return m.decimal(x, isSigned(t))
	}
	m.marshalErr(m.mkErr("json: unsupported type: map key " + t.String()))
	return Str{}
}

func (m *Machine) jsonEmpty(v Value) bool {
	switch x := v.(type) {
	case *Term:
		if x.w == 0 {
			return m.branch(Not(x))
		}
		return m.branch(Eq(x, BV(x.w, 0)))
	case Str:
		return x.length() == 0
	case Slice:
		return len(x) == 0
	case Array:
		return len(x) == 0
	case *Map:
		return x == nil || x.n == 0
	case *Value:
		return x == nil
	case Iface:
		return x.t == nil
	case float64:
		return x == 0
	}
	return false
}

// ---- decoding ----

type jdec struct {
	m   *Machine
	b   []*Term
	i   int
	err *Iface // first type mismatch, reported at the end
}

func (d *jdec) fail(msg string) { panic(jsonErr{d.m.mkErr("json: " + msg)}) }

func (d *jdec) peek() (byte, bool) {
	if d.i >= len(d.b) {
		return 0, false
	}
	t := d.b[d.i]
	if t.op == ODec {
		return '0', true
	}
	if t.op != OConst {
		v := d.m.concretize(t)
		d.b[d.i] = BV(8, v)
		return byte(v), true
	}
	return byte(t.val), true
}

func (d *jdec) ws() {
	for {
		c, ok := d.peek()
		if !ok || c != ' ' && c != '\t' && c != '\n' && c != '\r' {
			return
		}
		d.i++
	}
}

func (d *jdec) expect(c byte) {
	d.ws()
	x, ok := d.peek()
	if !ok {
		d.fail("unexpected end of JSON input")
	}
	if x != c {
		d.fail(fmt.Sprintf("invalid character %q", x))
	}
	d.i++
}

// jval is a parsed value: kind and content, with the raw bytes.
type jval struct {
	kind byte // s string, n number, t true, f false, z null, o object, a array
	str  Str
	num  string
	tok  *Term
	neg  bool
	keys []Str
	vals []*jval
	raw  []*Term
}

func (d *jdec) value(depth int) *jval {
	d.ws()
	start := d.i
	c, ok := d.peek()
	if !ok {
		d.fail("unexpected end of JSON input")
	}
	v := &jval{}
	word := func(w string, k byte) {
		for j := 0; j < len(w); j++ {
			x, ok := d.peek()
			if !ok {
				d.fail("unexpected end of JSON input")
			}
			if x != w[j] {
				d.fail("invalid character in literal")
			}
			d.i++
		}
		v.kind = k
	}
	switch {
	case c == '{':
		d.i++
		v.kind = 'o'
		d.ws()
		if x, ok := d.peek(); ok && x == '}' {
			d.i++
			break
		}
		for {
			d.ws()
			x, ok := d.peek()
			if !ok {
				d.fail("unexpected end of JSON input")
			}
			if x != '"' {
				d.fail("invalid character looking for beginning of object key string")
			}
			k := d.str()
			d.expect(':')
			v.keys = append(v.keys, k)
			v.vals = append(v.vals, d.value(depth+1))
			d.ws()
			x, ok = d.peek()
			if !ok {
				d.fail("unexpected end of JSON input")
			}
			d.i++
			if x == '}' {
				break
			}
			if x != ',' {
				d.fail("invalid character after object key:value pair")
			}
		}
	case c == '[':
		d.i++
		v.kind = 'a'
		d.ws()
		if x, ok := d.peek(); ok && x == ']' {
			d.i++
			break
		}
		for {
			v.vals = append(v.vals, d.value(depth+1))
			d.ws()
			x, ok := d.peek()
			if !ok {
				d.fail("unexpected end of JSON input")
			}
			d.i++
			if x == ']' {
				break
			}
			if x != ',' {
				d.fail("invalid character after array element")
			}
		}
	case c == '"':
		v.kind = 's'
		v.str = d.str()
	case c == 't':
		word("true", 't')
	case c == 'f':
		word("false", 'f')
	case c == 'n':
		word("null", 'z')
	case c == '-' || c >= '0' && c <= '9':
		v.kind = 'n'
		if c == '-' && d.i+1 < len(d.b) && d.b[d.i+1].op == ODec {
			v.neg = true
			d.i++
		}
		if d.b[d.i].op == ODec {
			v.tok = parseDecToken(d.b[d.i:])
			if v.tok == nil {
				panic(unsupported{"json: cut decimal token"})
			}
			d.i += decLen
			break
		}
		for {
			x, ok := d.peek()
			if !ok || !(x >= '0' && x <= '9' || x == '-' || x == '+' || x == '.' || x == 'e' || x == 'E') {
				break
			}
			v.num += string(x)
			d.i++
		}
		if !json.Valid([]byte(v.num)) {
			d.fail("invalid number literal")
		}
	default:
		d.fail(fmt.Sprintf("invalid character %q looking for beginning of value", c))
	}
	v.raw = d.b[start:d.i]
	return v
}

func (d *jdec) str() Str {
	d.i++ // opening quote
	start := d.i
	esc := false
	for {
		if d.i >= len(d.b) {
			d.fail("unexpected end of JSON input")
		}
		t := d.b[d.i]
		if t.op == OConst {
			c := byte(t.val)
			if c == '"' {
				break
			}
			if c < 0x20 {
				d.fail("invalid character in string literal")
			}
			if c == '\\' {
				esc = true
				d.i++
			}
			d.i++
			continue
		}
		if t.op == ODec {
			d.i++
			continue
		}
		if d.m.branch(Eq(t, BV(8, '"'))) {
			break
		}
		if !d.m.branch(And(And(Ule(BV(8, 0x20), t), Ult(t, BV(8, 0x80))), Not(Eq(t, BV(8, '\\'))))) {
			if d.m.branch(Ult(t, BV(8, 0x20))) {
				d.fail("invalid character in string literal")
			}
			panic(unsupported{"json: escape or non-ASCII in symbolic string"})
		}
		d.i++
	}
	s := strOfBytes(d.b[start:d.i:d.i])
	if len(d.b[start:d.i]) == 0 {
		s = Str{}
	}
	d.i++
	if esc {
		c, ok := s.concrete()
		if !ok {
			return d.unescape(d.b[start : d.i-1])
		}
		var out string
		if err := json.Unmarshal([]byte(`"`+c+`"`), &out); err != nil {
			d.fail("invalid escape in string literal")
		}
		return mkStr(out)
	}
	if c, ok := s.concrete(); ok {
		var out string
		if err := json.Unmarshal([]byte(`"`+c+`"`), &out); err == nil {
			return mkStr(out) // replaces invalid UTF-8
		}
	}
	return s
}

// unescape decodes a string literal that has both symbolic bytes and (concrete) escapes.
func (d *jdec) unescape(b []*Term) Str {
	out := Str{}
	for i := 0; i < len(b); {
		if b[i].op != OConst || byte(b[i].val) != '\\' {
			out = concat(out, strOfBytes(b[i:i+1:i+1]))
			i++
			continue
		}
		n := 2
		if i+1 < len(b) && b[i+1].op == OConst && byte(b[i+1].val) == 'u' {
			n = 6
		}
		if i+n > len(b) {
			d.fail("invalid escape in string literal")
		}
		c, ok := strOfBytes(b[i : i+n : i+n]).concrete()
		if !ok {
			panic(unsupported{"json: symbolic escape"})
		}
		var x string
		if err := json.Unmarshal([]byte(`"`+c+`"`), &x); err != nil {
			d.fail("invalid escape in string literal")
		}
		out = concat(out, mkStr(x))
		i += n
	}
	return out
}

func (d *jdec) mismatch(v *jval, t types.Type) {
	if d.err == nil {
		e := d.m.mkErr(fmt.Sprintf("json: cannot unmarshal %c into Go value of type %s", v.kind, t))
		d.err = &e
	}
}

// into decodes v into *p of type t.
func (d *jdec) into(v *jval, t types.Type, p *Value) {
	m := d.m
	if isTimeTime(t) && v.kind == 's' {
		b := v.str.terms()
		if len(b) == 6+2*decLen && b[6].op == ODec {
			w, x := parseDecToken(b[6:]), parseDecToken(b[6+decLen:])
			if w != nil && x != nil {
				m.store(p, Struct{w, x, (*Value)(nil)})
				return
			}
		}
	}
	if _, isP := t.Underlying().(*types.Pointer); !isP {
		if fn := m.e.methodByName(types.NewPointer(t), "UnmarshalJSON"); fn != nil {
			if v.kind == 'z' && false {
				return
			}
			r := m.callSync(&Closure{fn: fn}, []Value{p, termsToSlice(v.raw)})
			if e := r.(Iface); e.t != nil {
				panic(jsonErr{e})
			}
			return
		}
		if fn := m.e.methodByName(types.NewPointer(t), "UnmarshalText"); fn != nil && v.kind != 'z' {
			if v.kind != 's' {
				d.mismatch(v, t)
				return
			}
			r := m.callSync(&Closure{fn: fn}, []Value{p, termsToSlice(v.str.terms())})
			if e := r.(Iface); e.t != nil {
				panic(jsonErr{e})
			}
			return
		}
	}
	if v.kind == 'z' {
		switch t.Underlying().(type) {
		case *types.Pointer, *types.Map, *types.Slice, *types.Interface:
			m.store(p, zero(t))
		}
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		pp := (*p).(*Value)
		if pp == nil {
			pp = new(Value)
			*pp = zero(u.Elem())
			m.store(p, pp)
		}
		d.into(v, u.Elem(), pp)
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			if v.kind != 's' {
				d.mismatch(v, t)
				return
			}
			m.store(p, v.str)
		case u.Info()&types.IsBoolean != 0:
			if v.kind != 't' && v.kind != 'f' {
				d.mismatch(v, t)
				return
			}
			m.store(p, Bool(v.kind == 't'))
		case u.Info()&types.IsInteger != 0:
			w, _ := intWidth(u)
			if v.kind != 'n' {
				d.mismatch(v, t)
				return
			}
			if v.tok != nil {
				x, ok := m.tokenToInt(v.tok, v.neg, isSigned(t), w)
				if !ok {
					d.mismatch(v, t)
					return
				}
				m.store(p, x)
				return
			}
			if isSigned(t) {
				x, err := strconv.ParseInt(v.num, 10, int(w))
				if err != nil {
					d.mismatch(v, t)
					return
				}
				m.store(p, BV(w, uint64(x)))
			} else {
				x, err := strconv.ParseUint(v.num, 10, int(w))
				if err != nil {
					d.mismatch(v, t)
					return
				}
				m.store(p, BV(w, x))
			}
		case u.Info()&types.IsFloat != 0:
			if v.kind != 'n' {
				d.mismatch(v, t)
				return
			}
			if v.tok != nil {
				m.store(p, FloatSym{})
				return
			}
			f, _ := strconv.ParseFloat(v.num, 64)
			m.store(p, f)
		}
	case *types.Interface:
		if u.NumMethods() > 0 {
			d.mismatch(v, t)
			return
		}
		m.store(p, d.generic(v))
	case *types.Struct:
		if v.kind != 'o' {
			d.mismatch(v, t)
			return
		}
		fs := jsonFields(u)
		for i, k := range v.keys {
			ks, ok := k.concrete()
			if !ok {
				// a symbolic key may name any field
				for _, f := range fs {
					if len(f.name) == k.length() && m.branch(strEq(k, mkStr(f.name))) {
						ks = f.name
						ok = true
						break
					}
				}
				if !ok {
					continue
				}
			}
			var best *jfield
			for j := range fs {
				if fs[j].name == ks {
					best = &fs[j]
					break
				}
			}
			if best == nil {
				for j := range fs {
					if strings.EqualFold(fs[j].name, ks) {
						best = &fs[j]
						break
					}
				}
			}
			if best == nil {
				continue
			}
			fp := p
			for _, ix := range best.idx {
				fp = &(*fp).(Struct)[ix]
			}
			if best.str {
				panic(unsupported{"json ,string"})
			}
			d.into(v.vals[i], best.typ, fp)
		}
	case *types.Map:
		if v.kind != 'o' {
			d.mismatch(v, t)
			return
		}
		mp := (*p).(*Map)
		if mp == nil {
			m.idCtr++
			mp = &Map{index: map[string]*mapEntry{}, id: m.idCtr}
			m.store(p, mp)
		}
		for i, k := range v.keys {
			ev := new(Value)
			*ev = zero(u.Elem())
			d.into(v.vals[i], u.Elem(), ev)
			kb, isB := u.Key().Underlying().(*types.Basic)
			switch {
			case m.e.methodByName(types.NewPointer(u.Key()), "UnmarshalText") != nil:
				kp := new(Value)
				*kp = zero(u.Key())
				r := m.callSync(&Closure{fn: m.e.methodByName(types.NewPointer(u.Key()), "UnmarshalText")}, []Value{kp, termsToSlice(k.terms())})
				if e := r.(Iface); e.t != nil {
					panic(jsonErr{e})
				}
				m.mapSet(mp, *kp, *ev)
			case isB && kb.Info()&types.IsString != 0:
				m.mapSet(mp, k, *ev)
			case isB && kb.Info()&types.IsInteger != 0:
				w, _ := intWidth(kb)
				kt := k.terms()
				if tok, neg := tokenOf(Str{b: kt}); tok != nil {
					x, ok := m.tokenToInt(tok, neg, isSigned(u.Key()), w)
					if !ok {
						d.mismatch(v, t)
						continue
					}
					m.mapSet(mp, x, *ev)
					continue
				}
				ks, ok := k.concrete()
				if !ok {
					panic(unsupported{"json: symbolic integer map key"})
				}
				x, err := strconv.ParseInt(ks, 10, 64)
				if err != nil {
					d.mismatch(v, t)
					continue
				}
				m.mapSet(mp, BV(w, uint64(x)), *ev)
			default:
				panic(unsupported{"json: map key type " + u.Key().String()})
			}
		}
	case *types.Slice:
		if v.kind == 's' && isByte(u.Elem()) {
			c, ok := v.str.concrete()
			if ok {
				b, err := base64.StdEncoding.DecodeString(c)
				if err != nil {
					panic(jsonErr{m.mkErr("illegal base64 data")})
				}
				m.store(p, bytesSlice(b))
				return
			}
			fn := m.e.findFunc(vfPath, "RTUnbase64")
			r := m.callSync(&Closure{fn: fn}, []Value{v.str}).(Tuple)
			if e := r[1].(Iface); e.t != nil {
				panic(jsonErr{e})
			}
			m.store(p, r[0])
			return
		}
		if v.kind != 'a' {
			d.mismatch(v, t)
			return
		}
		out := makeSlice(u.Elem(), len(v.vals), len(v.vals))
		old, _ := (*p).(Slice)
		for i := range v.vals {
			if i < len(old) {
				// encoding/json decodes into the existing elements
				out[i] = copyVal(old[i])
			}
			d.into(v.vals[i], u.Elem(), &out[i])
		}
		if out == nil {
			out = Slice{}
		}
		m.store(p, out)
	case *types.Array:
		if v.kind != 'a' {
			d.mismatch(v, t)
			return
		}
		a := (*p).(Array)
		for i := range a {
			if i < len(v.vals) {
				d.into(v.vals[i], u.Elem(), &a[i])
			} else {
				m.store(&a[i], zero(u.Elem()))
			}
		}
	default:
		d.mismatch(v, t)
	}
}

var emptyIface = types.NewInterfaceType(nil, nil)

func (d *jdec) generic(v *jval) Iface {
	m := d.m
	switch v.kind {
	case 's':
		return Iface{types.Typ[types.String], v.str}
	case 't', 'f':
		return Iface{types.Typ[types.Bool], Bool(v.kind == 't')}
	case 'n':
		if v.tok != nil {
			return Iface{types.Typ[types.Float64], FloatSym{}}
		}
		f, _ := strconv.ParseFloat(v.num, 64)
		return Iface{types.Typ[types.Float64], f}
	case 'a':
		s := Slice{}
		for _, x := range v.vals {
			s = append(s, d.generic(x))
		}
		return Iface{types.NewSlice(emptyIface), s}
	case 'o':
		m.idCtr++
		mp := &Map{index: map[string]*mapEntry{}, id: m.idCtr}
		for i, k := range v.keys {
			m.mapSet(mp, k, d.generic(v.vals[i]))
		}
		return Iface{types.NewMap(types.Typ[types.String], emptyIface), mp}
	}
	return Iface{}
}

func (m *Machine) jsonUnmarshal(data Slice, target Iface) (err Iface) {
	defer func() {
		if r := recover(); r != nil {
			if je, ok := r.(jsonErr); ok {
				err = je.e
				return
			}
			panic(r)
		}
	}()
	d := &jdec{m: m, b: append([]*Term{}, bytesToTerms(data)...)}
	v := d.value(0)
	d.ws()
	if d.i != len(d.b) {
		d.fail("invalid character after top-level value")
	}
	pt, ok := target.t.(*types.Pointer)
	if target.t == nil {
		return m.mkErr("json: Unmarshal(nil)")
	}
	if !ok {
		if pt, ok = target.t.Underlying().(*types.Pointer); !ok {
			return m.mkErr("json: Unmarshal(non-pointer)")
		}
	}
	p := target.v.(*Value)
	if p == nil {
		return m.mkErr("json: Unmarshal(nil pointer)")
	}
	d.into(v, pt.Elem(), p)
	if d.err != nil {
		return *d.err
	}
	return Iface{}
}

func (m *Machine) jsonMarshal(v Iface) (out Value, err Iface) {
	defer func() {
		if r := recover(); r != nil {
			if je, ok := r.(jsonErr); ok {
				out, err = Slice(nil), je.e
				return
			}
			panic(r)
		}
	}()
	if v.t == nil {
		return bytesSlice([]byte("null")), Iface{}
	}
	return termsToSlice(m.jsonEnc(v.t, v.v, nil).terms()), Iface{}
}

func registerJSON() {
	in := intrinsics
	in["encoding/json.Marshal"] = func(m *Machine, c *callCtx) Value {
		m.raceDeep(c, c.args[0])
		b, err := m.jsonMarshal(c.args[0].(Iface))
		return Tuple{b, err}
	}
	in["encoding/json.Unmarshal"] = func(m *Machine, c *callCtx) Value {
		return m.jsonUnmarshal(sl(c.args[0]), c.args[1].(Iface))
	}
	in["encoding/json.Valid"] = func(m *Machine, c *callCtx) Value {
		return Bool(m.jsonScan(sl(c.args[0]), false) >= 0)
	}
	// rtJSONScan returns the length of the first JSON value, -1 when incomplete, -2 when malformed.
	in[vfPath+".rtJSONScan"] = func(m *Machine, c *callCtx) Value { return mkInt(m.jsonScan(sl(c.args[0]), true)) }
}

func (m *Machine) jsonScan(data Slice, prefix bool) (n int) {
	d := &jdec{m: m, b: append([]*Term{}, bytesToTerms(data)...)}
	defer func() {
		if r := recover(); r != nil {
			if je, ok := r.(jsonErr); ok {
				n = -2
				if s, ok := (*je.e.v.(*Value)).(Struct)[0].(Str).concrete(); ok && strings.Contains(s, "unexpected end") {
					n = -1
				}
				return
			}
			panic(r)
		}
	}()
	d.value(0)
	n = d.i
	if !prefix {
		d.ws()
		if d.i != len(d.b) {
			return -2
		}
	}
	return n
}
