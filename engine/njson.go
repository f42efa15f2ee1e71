package main

import (
	"encoding/json"
	"go/types"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// encoding/json over symbolic values: strings and byte slices may hold
// symbolic bytes; structure and numbers are concrete.

type jfield struct {
	name      string
	idx       []int
	t         types.Type
	omitempty bool
	quoted    bool
}

func (w *Worker) jfields(t types.Type) []jfield {
	st := t.Underlying().(*types.Struct)
	var r []jfield
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		tag := reflect.StructTag(st.Tag(i)).Get("json")
		if tag == "-" {
			continue
		}
		name, opts, _ := strings.Cut(tag, ",")
		ft := f.Type()
		if f.Anonymous() && name == "" {
			et := ft
			if p, ok := et.Underlying().(*types.Pointer); ok {
				et = p.Elem()
			}
			if _, ok := et.Underlying().(*types.Struct); ok {
				if _, ptr := ft.Underlying().(*types.Pointer); ptr {
					panic(engErr("json: embedded pointer"))
				}
				for _, sf := range w.jfields(et) {
					sf.idx = append([]int{i}, sf.idx...)
					r = append(r, sf)
				}
				continue
			}
		}
		if !f.Exported() {
			continue
		}
		if name == "" {
			name = f.Name()
		}
		r = append(r, jfield{name: name, idx: []int{i}, t: ft, omitempty: strings.Contains(opts, "omitempty"), quoted: strings.Contains(opts, "string")})
	}
	// shallower fields win over promoted ones
	seen := map[string]int{}
	var out []jfield
	for _, f := range r {
		if j, ok := seen[f.name]; ok {
			if len(f.idx) < len(out[j].idx) {
				out[j] = f
			}
			continue
		}
		seen[f.name] = len(out)
		out = append(out, f)
	}
	return out
}

func fieldCell(p *Value, idx []int) *Value {
	for _, i := range idx {
		s := (*p).(Struct)
		p = &s[i]
	}
	return p
}

type jenc struct {
	w *Worker
	g *G
	o outBuf
}

type jsonErr struct{ err Value }

func (e *jenc) fail(err Value) { panic(jsonErr{err}) }

func (w *Worker) hasMethod(t types.Type, name string) *ssa.Function { return w.methodByName(t, name) }

func (e *jenc) str(s Value) {
	w := e.w
	e.o.s(`"`)
	n := strLen(s)
	for i := 0; i < n; {
		b := strAt(s, i)
		switch b := b.(type) {
		case uint64:
			if b < 0x80 {
				q, _ := json.Marshal(string(rune(b)))
				e.o.s(string(q[1 : len(q)-1]))
				i++
				continue
			}
		case *Term:
			tc := w.tc
			plain := tc.And(tc.Cmp(OUle, tc.BV(8, 0x20), b), tc.Cmp(OUlt, b, tc.BV(8, 0x7f)))
			for _, c := range `"\<>&` {
				plain = tc.And(plain, tc.Not(tc.Eq(b, tc.BV(8, uint64(c)))))
			}
			if w.decide(plain) {
				e.o.b = append(e.o.b, b)
				i++
				continue
			}
			if w.decide(tc.Cmp(OUlt, b, tc.BV(8, 0x80))) {
				c := w.concretize(b)
				q, _ := json.Marshal(string(rune(c)))
				e.o.s(string(q[1 : len(q)-1]))
				i++
				continue
			}
		}
		// multi-byte: decode; invalid sequences become U+FFFD
		r, sz := w.decodeRune(e.g, s, i)
		var ru uint64
		switch r := r.(type) {
		case uint64:
			ru = r
		case *Term:
			ru = w.concretize(r)
		}
		if ru == 0xFFFD && sz == 1 {
			e.o.s(`\ufffd`)
		} else {
			q, _ := json.Marshal(string(rune(ru)))
			e.o.s(string(q[1 : len(q)-1]))
		}
		i += sz
	}
	e.o.s(`"`)
}

func (w *Worker) b64enc(g *G, s Slice) Value {
	cell := w.b64Std()
	f := w.methodByName(w.namedPtr("encoding/base64", "Encoding"), "EncodeToString")
	return w.callFn(g, g.top, f, []Value{cell, s}, nil)
}

func (w *Worker) b64Std() Value {
	gl := w.p.byPath["encoding/base64"].Var("StdEncoding")
	return *w.global(w.p.globalIdx(gl), gl)
}

// enc encodes the value at cell p of type t; addr says the cell is addressable.
func (e *jenc) enc(t types.Type, v Value, p *Value, quoted bool) {
	w := e.w
	if it, ok := t.Underlying().(*types.Interface); ok && it != nil {
		ifc := v.(Iface)
		if ifc.T == nil {
			e.o.s("null")
			return
		}
		e.enc(ifc.T, ifc.V, nil, false)
		return
	}
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		c, _ := v.(*Value)
		if c == nil {
			e.o.s("null")
			return
		}
		if m := w.hasMethod(t, "MarshalJSON"); m != nil {
			e.marshaler(m, v)
			return
		}
		if m := w.hasMethod(t, "MarshalText"); m != nil {
			e.textMarshaler(m, v)
			return
		}
		e.enc(pt.Elem(), *c, c, quoted)
		return
	}
	if m := w.hasMethod(t, "MarshalJSON"); m != nil {
		e.marshaler(m, copyVal(v))
		return
	}
	if p != nil {
		if m := w.hasMethod(types.NewPointer(t), "MarshalJSON"); m != nil {
			e.marshaler(m, p)
			return
		}
	}
	if m := w.hasMethod(t, "MarshalText"); m != nil {
		e.textMarshaler(m, copyVal(v))
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			e.str(v)
			return
		case u.Info()&types.IsBoolean != 0:
			if w.boolOf(v) {
				e.o.s("true")
			} else {
				e.o.s("false")
			}
			return
		case u.Info()&types.IsInteger != 0:
			wd, signed, _ := sizeOf(u)
			var x uint64
			switch y := v.(type) {
			case uint64:
				x = y
			case *Term:
				x = w.concretize(y)
			}
			q := ""
			if quoted {
				q = `"`
			}
			if signed {
				e.o.s(q + strconv.FormatInt(sx(x, wd), 10) + q)
			} else {
				e.o.s(q + strconv.FormatUint(x, 10) + q)
			}
			return
		case u.Info()&types.IsFloat != 0:
			b, err := json.Marshal(v.(float64))
			if err != nil {
				e.fail(w.errNew(e.g, err.Error()))
			}
			e.o.s(string(b))
			return
		}
	case *types.Struct:
		s := v.(Struct)
		tmp := new(Value)
		*tmp = s
		if p == nil {
			p = nil
		}
		e.o.s("{")
		first := true
		for _, f := range w.jfields(t) {
			c := fieldCell(tmp, f.idx)
			if f.omitempty && w.jempty(*c) {
				continue
			}
			if !first {
				e.o.s(",")
			}
			first = false
			q, _ := json.Marshal(f.name)
			e.o.s(string(q) + ":")
			var fp *Value
			if p != nil {
				fp = c
			}
			e.enc(f.t, *c, fp, f.quoted)
		}
		e.o.s("}")
		return
	case *types.Map:
		m, _ := v.(*MapV)
		if m == nil {
			e.o.s("null")
			return
		}
		w.raceMap(e.g, m, false)
		type ent struct{ k, v Value }
		var es []ent
		for i := range m.keys {
			if _, dead := m.keys[i].(tombstone); dead {
				continue
			}
			k := m.keys[i]
			if mt := w.hasMethod(u.Key(), "MarshalText"); mt != nil && !isStringT(u.Key()) {
				r := w.callFn(e.g, e.g.top, mt, []Value{copyVal(k)}, nil).(Tuple)
				if er := r[1].(Iface); er.T != nil {
					e.fail(er)
				}
				k = mkStr(append([]Value(nil), r[0].(Slice)...))
			} else if !isStringT(u.Key()) {
				switch kk := k.(type) {
				case uint64:
					wd, signed, _ := intType(u.Key())
					if signed {
						k = strconv.FormatInt(sx(kk, wd), 10)
					} else {
						k = strconv.FormatUint(kk, 10)
					}
				default:
					panic(engErr("json map key %T", k))
				}
			}
			es = append(es, ent{k, m.vals[i]})
		}
		// insertion sort with symbolic comparison
		for i := 1; i < len(es); i++ {
			for j := i; j > 0 && w.boolOf(w.strLess(es[j].k, es[j-1].k, false)); j-- {
				es[j], es[j-1] = es[j-1], es[j]
			}
		}
		e.o.s("{")
		for i, x := range es {
			if i > 0 {
				e.o.s(",")
			}
			e.str(x.k)
			e.o.s(":")
			e.enc(u.Elem(), x.v, nil, false)
		}
		e.o.s("}")
		return
	case *types.Slice:
		s := v.(Slice)
		if s == nil {
			e.o.s("null")
			return
		}
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			if w.raceOn {
				for i := range s {
					w.raceCell(e.g, &s[i], false)
				}
			}
			e.o.s(`"`)
			e.o.v(w.b64enc(e.g, s))
			e.o.s(`"`)
			return
		}
		e.o.s("[")
		for i := range s {
			if i > 0 {
				e.o.s(",")
			}
			e.enc(u.Elem(), s[i], &s[i], false)
		}
		e.o.s("]")
		return
	case *types.Array:
		s := v.(Array)
		e.o.s("[")
		for i := range s {
			if i > 0 {
				e.o.s(",")
			}
			e.enc(u.Elem(), s[i], &s[i], false)
		}
		e.o.s("]")
		return
	case *types.Signature, *types.Chan:
		e.fail(w.errNew(e.g, "json: unsupported type: "+types.TypeString(t, qual)))
	}
	panic(engErr("json encode of %s", t))
}

func isStringT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (w *Worker) jempty(v Value) bool {
	switch v := v.(type) {
	case string:
		return v == ""
	case *SymStr:
		return len(v.b) == 0
	case uint64:
		return v == 0
	case bool:
		return !v
	case Slice:
		return len(v) == 0
	case *MapV:
		return v == nil || v.n == 0
	case *Value:
		return v == nil
	case Iface:
		return v.T == nil
	case *Term:
		if v.w == 0 {
			return !w.decide(v)
		}
		return w.decide(w.tc.Eq(v, w.tc.BV(v.w, 0)))
	}
	return false
}

func (e *jenc) marshaler(m *ssa.Function, recv Value) {
	r := e.w.callFn(e.g, e.g.top, m, []Value{recv}, nil).(Tuple)
	if er := r[1].(Iface); er.T != nil {
		e.fail(er)
	}
	// the output is re-scanned by the library: it must be one JSON value
	b := r[0].(Slice)
	d := &jdec{w: e.w, g: e.g, in: b}
	d.ws()
	d.skip()
	d.ws()
	if d.pos != len(b) {
		e.fail(e.w.errNew(e.g, "json: error calling MarshalJSON: invalid character after top-level value"))
	}
	e.o.b = append(e.o.b, e.w.compact(b)...)
}

// compact removes insignificant white space.
func (w *Worker) compact(b []Value) []Value {
	var out []Value
	inStr, esc := false, false
	for _, x := range b {
		u, conc := x.(uint64)
		if inStr {
			out = append(out, x)
			if !conc {
				esc = false
				continue
			}
			switch {
			case esc:
				esc = false
			case u == '\\':
				esc = true
			case u == '"':
				inStr = false
			}
			continue
		}
		if conc && (u == ' ' || u == '\n' || u == '\t' || u == '\r') {
			continue
		}
		if conc && u == '"' {
			inStr = true
		}
		out = append(out, x)
	}
	return out
}

func (e *jenc) textMarshaler(m *ssa.Function, recv Value) {
	r := e.w.callFn(e.g, e.g.top, m, []Value{recv}, nil).(Tuple)
	if er := r[1].(Iface); er.T != nil {
		e.fail(er)
	}
	e.str(mkStr(append([]Value(nil), r[0].(Slice)...)))
}

// ---- decoding ----

type jdec struct {
	w   *Worker
	g   *G
	in  []Value
	pos int
}

func (d *jdec) fail(msg string) { panic(jsonErr{d.w.errNew(d.g, msg)}) }

// peek returns the concrete structural byte at pos (forking when symbolic).
func (d *jdec) peek() byte {
	if d.pos >= len(d.in) {
		d.fail("unexpected end of JSON input")
	}
	switch x := d.in[d.pos].(type) {
	case uint64:
		return byte(x)
	case *Term:
		v := d.w.concretize(x)
		return byte(v)
	}
	panic(engErr("json input %T", d.in[d.pos]))
}

func (d *jdec) ws() {
	for d.pos < len(d.in) {
		switch d.peek() {
		case ' ', '\n', '\t', '\r':
			d.pos++
		default:
			return
		}
	}
}

func (d *jdec) bad(ctx string) {
	d.fail("invalid character in JSON input " + ctx)
}

// str parses a string literal and returns its contents.
func (d *jdec) str() Value {
	w := d.w
	if d.peek() != '"' {
		d.bad("looking for beginning of string")
	}
	d.pos++
	var out []Value
	for {
		if d.pos >= len(d.in) {
			d.fail("unexpected end of JSON input")
		}
		x := d.in[d.pos]
		if t, ok := x.(*Term); ok {
			tc := w.tc
			plain := tc.And(tc.Cmp(OUle, tc.BV(8, 0x20), t), tc.Cmp(OUlt, t, tc.BV(8, 0x80)))
			plain = tc.And(plain, tc.And(tc.Not(tc.Eq(t, tc.BV(8, '"'))), tc.Not(tc.Eq(t, tc.BV(8, '\\')))))
			if w.decide(plain) {
				out = append(out, t)
				d.pos++
				continue
			}
			x = u64(w.concretize(t))
		}
		c := byte(x.(uint64))
		switch {
		case c == '"':
			d.pos++
			return mkStr(out)
		case c == '\\':
			d.pos++
			e := d.peek()
			d.pos++
			switch e {
			case '"', '\\', '/':
				out = append(out, u64(uint64(e)))
			case 'b':
				out = append(out, u64('\b'))
			case 'f':
				out = append(out, u64('\f'))
			case 'n':
				out = append(out, u64('\n'))
			case 'r':
				out = append(out, u64('\r'))
			case 't':
				out = append(out, u64('\t'))
			case 'u':
				h := ""
				for k := 0; k < 4; k++ {
					h += string(rune(d.peek()))
					d.pos++
				}
				n, err := strconv.ParseUint(h, 16, 32)
				if err != nil {
					d.bad("in \\u hexadecimal character escape")
				}
				r := rune(n)
				if r >= 0xD800 && r < 0xE000 {
					panic(engErr("json surrogate escape"))
				}
				out = append(out, strBytes(string(r))...)
			default:
				d.bad("in string escape code")
			}
		case c < 0x20:
			d.bad("in string literal")
		case c < 0x80:
			out = append(out, x)
			d.pos++
		default:
			r, n := w.decodeRune(d.g, mkStr(append([]Value(nil), d.in[d.pos:]...)), 0)
			var ru uint64
			switch r := r.(type) {
			case uint64:
				ru = r
			case *Term:
				ru = w.concretize(r)
			}
			out = append(out, strBytes(string(rune(ru)))...)
			d.pos += n
		}
	}
}

func (d *jdec) lit(s string) {
	for i := 0; i < len(s); i++ {
		if d.peek() != s[i] {
			d.bad("in literal " + s)
		}
		d.pos++
	}
}

func (d *jdec) num() string {
	st := d.pos
	var b []byte
	for d.pos < len(d.in) {
		c := d.peek()
		if c >= '0' && c <= '9' || c == '-' || c == '+' || c == '.' || c == 'e' || c == 'E' {
			b = append(b, c)
			d.pos++
			continue
		}
		break
	}
	if d.pos == st || !json.Valid(b) {
		d.bad("in numeric literal")
	}
	return string(b)
}

// skip validates one value and moves past it.
func (d *jdec) skip() {
	d.ws()
	switch c := d.peek(); {
	case c == '"':
		d.str()
	case c == '{':
		d.pos++
		d.ws()
		if d.peek() == '}' {
			d.pos++
			return
		}
		for {
			d.ws()
			d.str()
			d.ws()
			if d.peek() != ':' {
				d.bad("after object key")
			}
			d.pos++
			d.skip()
			d.ws()
			c := d.peek()
			d.pos++
			if c == '}' {
				return
			}
			if c != ',' {
				d.bad("after object key:value pair")
			}
		}
	case c == '[':
		d.pos++
		d.ws()
		if d.peek() == ']' {
			d.pos++
			return
		}
		for {
			d.skip()
			d.ws()
			c := d.peek()
			d.pos++
			if c == ']' {
				return
			}
			if c != ',' {
				d.bad("after array element")
			}
		}
	case c == 't':
		d.lit("true")
	case c == 'f':
		d.lit("false")
	case c == 'n':
		d.lit("null")
	default:
		d.num()
	}
}

func (d *jdec) ifaceVal() Value {
	w := d.w
	d.ws()
	anyT := types.NewInterfaceType(nil, nil)
	switch c := d.peek(); {
	case c == '"':
		return Iface{w.canon(types.Typ[types.String]), d.str()}
	case c == '{':
		mt := types.NewMap(types.Typ[types.String], anyT)
		m := &MapV{idx: map[string]int{}, kt: types.Typ[types.String]}
		d.pos++
		d.ws()
		if d.peek() == '}' {
			d.pos++
			return Iface{w.canon(mt), m}
		}
		for {
			d.ws()
			k := d.str()
			d.ws()
			if d.peek() != ':' {
				d.bad("after object key")
			}
			d.pos++
			v := d.ifaceVal()
			w.mapSet(m, k, v)
			d.ws()
			c := d.peek()
			d.pos++
			if c == '}' {
				return Iface{w.canon(mt), m}
			}
			if c != ',' {
				d.bad("after object key:value pair")
			}
		}
	case c == '[':
		st := types.NewSlice(anyT)
		s := Slice{}
		d.pos++
		d.ws()
		if d.peek() == ']' {
			d.pos++
			return Iface{w.canon(st), s}
		}
		for {
			s = append(s, d.ifaceVal())
			d.ws()
			c := d.peek()
			d.pos++
			if c == ']' {
				return Iface{w.canon(st), s}
			}
			if c != ',' {
				d.bad("after array element")
			}
		}
	case c == 't':
		d.lit("true")
		return Iface{w.canon(types.Typ[types.Bool]), true}
	case c == 'f':
		d.lit("false")
		return Iface{w.canon(types.Typ[types.Bool]), false}
	case c == 'n':
		d.lit("null")
		return Iface{}
	default:
		f, _ := strconv.ParseFloat(d.num(), 64)
		return Iface{w.canon(types.Typ[types.Float64]), f}
	}
}

func (d *jdec) typeErr(what string, t types.Type) {
	d.fail("json: cannot unmarshal " + what + " into Go value of type " + types.TypeString(t, qual))
}

// dec decodes into cell p of type t.
func (d *jdec) dec(t types.Type, p *Value, g *G) {
	w := d.w
	d.ws()
	c := d.peek()
	if c == 'n' {
		switch t.Underlying().(type) {
		case *types.Pointer, *types.Map, *types.Slice, *types.Interface:
			d.lit("null")
			w.setCell(p, zero(t))
			return
		}
	}
	// Unmarshaler on the pointer
	if _, isI := t.Underlying().(*types.Interface); !isI {
		if _, isP := t.Underlying().(*types.Pointer); !isP {
			if m := w.hasMethod(types.NewPointer(t), "UnmarshalJSON"); m != nil {
				d.unmarshaler(m, p)
				return
			}
			if c == '"' {
				if m := w.hasMethod(types.NewPointer(t), "UnmarshalText"); m != nil {
					s := strBytes(d.str())
					sl := make(Slice, len(s))
					copy(sl, s)
					if er := w.callFn(g, g.top, m, []Value{p, sl}, nil).(Iface); er.T != nil {
						panic(jsonErr{er})
					}
					return
				}
			}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		c, _ := (*p).(*Value)
		if c == nil {
			c = new(Value)
			*c = zero(u.Elem())
			w.setCell(p, c)
		}
		if m := w.hasMethod(t, "UnmarshalJSON"); m != nil {
			d.unmarshaler(m, c)
			return
		}
		d.dec(u.Elem(), c, g)
		return
	case *types.Interface:
		if u.NumMethods() > 0 {
			cur := (*p).(Iface)
			_ = cur
			d.skip()
			d.typeErr("value", t)
		}
		w.setCell(p, d.ifaceVal())
		return
	case *types.Basic:
		switch {
		case c == 'n':
			d.lit("null")
			return
		case u.Info()&types.IsString != 0:
			if c != '"' {
				d.skip()
				d.typeErr(jkind(c), t)
			}
			w.setCell(p, d.str())
			return
		case u.Info()&types.IsBoolean != 0:
			switch c {
			case 't':
				d.lit("true")
				w.setCell(p, true)
			case 'f':
				d.lit("false")
				w.setCell(p, false)
			default:
				d.skip()
				d.typeErr(jkind(c), t)
			}
			return
		case u.Info()&types.IsInteger != 0:
			if !(c == '-' || c >= '0' && c <= '9') {
				d.skip()
				d.typeErr(jkind(c), t)
			}
			s := d.num()
			wd, signed, _ := sizeOf(u)
			if signed {
				n, err := strconv.ParseInt(s, 10, int(wd))
				if err != nil {
					d.typeErr("number "+s, t)
				}
				w.setCell(p, u64(uint64(n)&mask(wd)))
			} else {
				n, err := strconv.ParseUint(s, 10, int(wd))
				if err != nil {
					d.typeErr("number "+s, t)
				}
				w.setCell(p, u64(n))
			}
			return
		case u.Info()&types.IsFloat != 0:
			f, err := strconv.ParseFloat(d.num(), 64)
			if err != nil {
				d.typeErr("number", t)
			}
			w.setCell(p, f)
			return
		}
	case *types.Slice:
		if c == '"' {
			if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				s := d.str()
				f := w.methodByName(w.namedPtr("encoding/base64", "Encoding"), "DecodeString")
				r := w.callFn(g, g.top, f, []Value{w.b64Std(), s}, nil).(Tuple)
				if er := r[1].(Iface); er.T != nil {
					panic(jsonErr{er})
				}
				w.setCell(p, r[0])
				return
			}
		}
		if c != '[' {
			d.skip()
			d.typeErr(jkind(c), t)
		}
		d.pos++
		s := Slice{}
		d.ws()
		if d.peek() == ']' {
			d.pos++
			w.setCell(p, s)
			return
		}
		for {
			cell := new(Value)
			*cell = zero(u.Elem())
			d.dec(u.Elem(), cell, g)
			s = append(s, *cell)
			d.ws()
			c := d.peek()
			d.pos++
			if c == ']' {
				w.setCell(p, s)
				return
			}
			if c != ',' {
				d.bad("after array element")
			}
		}
	case *types.Map:
		if c != '{' {
			d.skip()
			d.typeErr(jkind(c), t)
		}
		m, _ := (*p).(*MapV)
		if m == nil {
			m = &MapV{idx: map[string]int{}, kt: u.Key()}
			w.setCell(p, m)
		}
		if !isStringT(u.Key()) {
			panic(engErr("json decode into map with key %s", u.Key()))
		}
		d.obj(func(k Value) {
			cell := new(Value)
			*cell = zero(u.Elem())
			d.dec(u.Elem(), cell, g)
			w.mapSet(m, k, *cell)
		})
		return
	case *types.Struct:
		if c == 'n' {
			d.lit("null")
			return
		}
		if c != '{' {
			d.skip()
			d.typeErr(jkind(c), t)
		}
		fs := w.jfields(t)
		d.obj(func(k Value) {
			ks := ""
			if cs, ok := k.(string); ok {
				ks = cs
			} else {
				// compare with each field name
				for _, f := range fs {
					if w.boolOf(w.strEq(k, f.name)) {
						ks = f.name
					}
				}
				if ks == "" {
					ks = str(w, k)
				}
			}
			best := -1
			for i, f := range fs {
				if f.name == ks {
					best = i
				}
			}
			if best < 0 {
				for i, f := range fs {
					if strings.EqualFold(f.name, ks) {
						best = i
						break
					}
				}
			}
			if best < 0 {
				d.skip()
				return
			}
			d.dec(fs[best].t, fieldCell(p, fs[best].idx), g)
		})
		return
	case *types.Array:
		panic(engErr("json decode into array"))
	}
	panic(engErr("json decode into %s", t))
}

func jkind(c byte) string {
	switch c {
	case '"':
		return "string"
	case '{':
		return "object"
	case '[':
		return "array"
	case 't', 'f':
		return "bool"
	}
	return "number"
}

func (d *jdec) obj(f func(k Value)) {
	d.pos++
	d.ws()
	if d.peek() == '}' {
		d.pos++
		return
	}
	for {
		d.ws()
		k := d.str()
		d.ws()
		if d.peek() != ':' {
			d.bad("after object key")
		}
		d.pos++
		f(k)
		d.ws()
		c := d.peek()
		d.pos++
		if c == '}' {
			return
		}
		if c != ',' {
			d.bad("after object key:value pair")
		}
	}
}

func (d *jdec) unmarshaler(m *ssa.Function, p *Value) {
	st := d.pos
	d.skip()
	b := append(Slice(nil), d.in[st:d.pos]...)
	if er := d.w.callFn(d.g, d.g.top, m, []Value{p, b}, nil).(Iface); er.T != nil {
		panic(jsonErr{er})
	}
}

func (w *Worker) jsonGuard(g *G, f func()) (err Value) {
	err = Iface{}
	depth, model, top := g.depth, g.model, g.top
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		je, ok := r.(jsonErr)
		if !ok {
			panic(r)
		}
		g.depth, g.model, g.top = depth, model, top
		err = je.err
	}()
	f()
	return
}

func (w *Worker) jsonMarshal(g *G, v Iface) (Slice, Value) {
	e := &jenc{w: w, g: g}
	err := w.jsonGuard(g, func() {
		if v.T == nil {
			e.o.s("null")
			return
		}
		e.enc(v.T, v.V, nil, false)
	})
	if err.(Iface).T != nil {
		return nil, err
	}
	return Slice(e.o.b), Iface{}
}

func jindent(b []Value, prefix, indent string) []Value {
	var out outBuf
	depth := 0
	nl := func() {
		out.s("\n" + prefix + strings.Repeat(indent, depth))
	}
	inStr, esc := false, false
	for i, x := range b {
		u, conc := x.(uint64)
		if inStr {
			out.b = append(out.b, x)
			if !conc {
				esc = false
				continue
			}
			switch {
			case esc:
				esc = false
			case u == '\\':
				esc = true
			case u == '"':
				inStr = false
			}
			continue
		}
		switch u {
		case '{', '[':
			out.b = append(out.b, x)
			if i+1 < len(b) && (b[i+1] == Value(uint64('}')) || b[i+1] == Value(uint64(']'))) {
				continue
			}
			depth++
			nl()
		case '}', ']':
			if i > 0 && (b[i-1] == Value(uint64('{')) || b[i-1] == Value(uint64('['))) {
				out.b = append(out.b, x)
				continue
			}
			depth--
			nl()
			out.b = append(out.b, x)
		case ',':
			out.b = append(out.b, x)
			nl()
		case ':':
			out.s(": ")
		case '"':
			inStr = true
			out.b = append(out.b, x)
		default:
			out.b = append(out.b, x)
		}
	}
	return out.b
}

func init() {
	N("encoding/json.Marshal", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value {
		b, err := w.jsonMarshal(g, a[0].(Iface))
		return Tuple{b, err}
	})
	N("encoding/json.MarshalIndent", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value {
		b, err := w.jsonMarshal(g, a[0].(Iface))
		if err.(Iface).T != nil {
			return Tuple{Slice(nil), err}
		}
		return Tuple{Slice(jindent(b, str(w, a[1]), str(w, a[2]))), Iface{}}
	})
	N("encoding/json.Unmarshal", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value {
		d := &jdec{w: w, g: g, in: append([]Value(nil), a[0].(Slice)...)}
		return w.jsonGuard(g, func() {
			// syntax is checked over the whole input first
			d.ws()
			d.skip()
			d.ws()
			if d.pos != len(d.in) {
				d.bad("after top-level value")
			}
			d.pos = 0
			ifc := a[1].(Iface)
			if ifc.T == nil {
				d.fail("json: Unmarshal(nil)")
			}
			pt, ok := ifc.T.Underlying().(*types.Pointer)
			if !ok {
				d.fail("json: Unmarshal(non-pointer)")
			}
			p, _ := ifc.V.(*Value)
			if p == nil {
				d.fail("json: Unmarshal(nil)")
			}
			d.ws()
			if m := w.hasMethod(ifc.T, "UnmarshalJSON"); m != nil && d.peek() != 'n' {
				d.unmarshaler(m, p)
				return
			}
			d.dec(pt.Elem(), p, g)
		})
	})
	N("encoding/json.Valid", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value {
		d := &jdec{w: w, g: g, in: a[0].(Slice)}
		ok := false
		err := w.jsonGuard(g, func() {
			d.ws()
			d.skip()
			d.ws()
			ok = d.pos == len(d.in)
		})
		return ok && err.(Iface).T == nil
	})
	N(vmodelPath+".jsonScan", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value {
		d := &jdec{w: w, g: g, in: a[0].(Slice)}
		blank := false
		err := w.jsonGuard(g, func() {
			d.ws()
			if blank = d.pos == len(d.in); !blank {
				d.skip()
			}
		})
		switch {
		case blank:
			return ^uint64(0)
		case err.(Iface).T == nil:
			return u64(uint64(d.pos))
		case d.pos >= len(d.in):
			return ^uint64(1)
		}
		return ^uint64(2)
	})
	// Encoder: state kept beside the object
	type encSt struct {
		w              Iface
		prefix, indent string
	}
	N("encoding/json.NewEncoder", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value {
		p := new(Value)
		*p = &encSt{w: a[0].(Iface)}
		return p
	})
	N("(*encoding/json.Encoder).SetIndent", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value {
		e := (*w.ptr(a[0])).(*encSt)
		e.prefix, e.indent = str(w, a[1]), str(w, a[2])
		return none
	})
	N("(*encoding/json.Encoder).SetEscapeHTML", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value {
		if a[1] != true {
			panic(engErr("json.Encoder without HTML escapes"))
		}
		return none
	})
	N("(*encoding/json.Encoder).Encode", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value {
		e := (*w.ptr(a[0])).(*encSt)
		b, err := w.jsonMarshal(g, a[1].(Iface))
		if err.(Iface).T != nil {
			return err
		}
		if e.prefix != "" || e.indent != "" {
			b = jindent(b, e.prefix, e.indent)
		}
		b = append(b, u64('\n'))
		r := w.CallMethod(g, e.w, "Write", b).(Tuple)
		return r[1]
	})
}

var _ = sort.Strings
