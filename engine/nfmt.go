package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// fmt: the verbs the code uses, over symbolic operands.

type outBuf struct{ b []Value }

func (o *outBuf) s(x string) { o.b = append(o.b, strBytes(x)...) }
func (o *outBuf) v(x Value)  { o.b = append(o.b, strBytes(x)...) }

func qual(p *types.Package) string { return p.Name() }

func (w *Worker) sprintf(g *G, format string, args []Value) (Value, []Iface) {
	var o outBuf
	var wrapped []Iface
	ai, reorder := 0, false
	for i := 0; i < len(format); {
		j := strings.IndexByte(format[i:], '%')
		if j < 0 {
			o.s(format[i:])
			break
		}
		o.s(format[i : i+j])
		i += j + 1
		if i >= len(format) {
			o.s("%!(NOVERB)")
			break
		}
		flags := ""
		for i < len(format) && strings.IndexByte("+-# 0123456789.*[", format[i]) >= 0 {
			switch format[i] {
			case '[':
				j := strings.IndexByte(format[i:], ']')
				n, err := strconv.Atoi(format[i+1 : i+max(j, 1)])
				if j < 0 || err != nil || n < 1 {
					panic(engErr("format %q", format))
				}
				ai = n - 1
				reorder = true
				i += j
			case '*':
				if ai >= len(args) {
					panic(engErr("format %q", format))
				}
				n, ok := args[ai].(Iface).V.(uint64)
				if !ok {
					panic(engErr("format %q", format))
				}
				flags += strconv.Itoa(int(int64(n)))
				ai++
			default:
				flags += format[i : i+1]
			}
			i++
		}
		if i >= len(format) {
			o.s("%!(NOVERB)")
			break
		}
		verb := format[i]
		i++
		if verb == '%' {
			o.s("%")
			continue
		}
		if ai >= len(args) {
			o.s("%!" + string(verb) + "(MISSING)")
			continue
		}
		a := args[ai].(Iface)
		ai++
		if verb == 'w' {
			wrapped = append(wrapped, a)
			verb = 'v'
		}
		w.fmtVerb(g, &o, flags, verb, a)
	}
	if !reorder && ai < len(args) {
		o.s("%!(EXTRA ")
		for k, a := range args[ai:] {
			if k > 0 {
				o.s(", ")
			}
			ia := a.(Iface)
			if ia.T == nil {
				o.s("<nil>")
			} else {
				o.s(types.TypeString(ia.T, qual) + "=")
				w.fmtVerb(g, &o, "", 'v', ia)
			}
		}
		o.s(")")
	}
	return mkStr(o.b), wrapped
}

func (w *Worker) quote(g *G, s Value) Value {
	if cs, ok := s.(string); ok {
		return strconv.Quote(cs)
	}
	f := w.p.byPath["strconv"].Func("Quote")
	return w.callFn(g, g.top, f, []Value{s}, nil)
}

func (w *Worker) fmtVerb(g *G, o *outBuf, flags string, verb byte, a Iface) {
	if verb == 'T' {
		if a.T == nil {
			o.s("<nil>")
		} else {
			o.s(types.TypeString(a.T, qual))
		}
		return
	}
	if a.T == nil {
		if verb == 'v' {
			o.s("<nil>")
		} else {
			o.s("%!" + string(verb) + "(<nil>)")
		}
		return
	}
	if verb == 'p' {
		o.s("0xc000000000")
		return
	}
	sharp := strings.Contains(flags, "#")
	if (verb == 'v' && !sharp || verb == 's' || verb == 'q' || verb == 'x') && verb != 'd' {
		for _, mn := range []string{"Error", "String"} {
			m := w.methodByName(a.T, mn)
			if m == nil || m.Signature.Params().Len() != 0 || m.Signature.Results().Len() != 1 {
				continue
			}
			if b, ok := m.Signature.Results().At(0).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.String {
				continue
			}
			if p, ok := a.V.(*Value); ok && p == nil {
				o.s("<nil>")
				return
			}
			if a.T == w.p.rtErrT {
				break
			}
			s := w.callFn(g, g.top, m, []Value{a.V}, nil)
			w.fmtString(g, o, flags, verb, s)
			return
		}
	}
	w.fmtVal(g, o, flags, verb, a.T, a.V, 0)
}

func (w *Worker) fmtString(g *G, o *outBuf, flags string, verb byte, s Value) {
	if verb == 'q' {
		s = w.quote(g, s)
	} else if verb == 'x' {
		cs := str(w, s)
		s = fmt.Sprintf("%"+flags+"x", cs)
		o.v(s)
		return
	}
	if flags != "" && flags != "+" && flags != "#" {
		if cs, ok := s.(string); ok && verb != 'q' {
			s = fmt.Sprintf("%"+flags+"s", cs)
		} else if verb != 'q' {
			s = fmt.Sprintf("%"+flags+"s", str(w, s))
		}
	}
	o.v(s)
}

func (w *Worker) fmtVal(g *G, o *outBuf, flags string, verb byte, t types.Type, v Value, depth int) {
	if depth > 0 && t != nil {
		if _, isI := t.Underlying().(*types.Interface); isI {
			ifc := v.(Iface)
			if ifc.T == nil {
				o.s("<nil>")
				return
			}
			w.fmtVerb(g, o, flags, verb, ifc)
			return
		}
		if n, ok := t.(*types.Named); ok && n.NumMethods() > 0 && verb != 'd' && !strings.Contains(flags, "#") {
			w.fmtVerb(g, o, flags, verb, Iface{w.canon(t), v})
			return
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			if verb == 'v' && strings.Contains(flags, "#") {
				o.v(w.quote(g, v))
				return
			}
			if verb == 'd' {
				o.s("%!d(string=")
				o.v(v)
				o.s(")")
				return
			}
			w.fmtString(g, o, flags, verb, v)
			return
		case u.Info()&types.IsBoolean != 0:
			b := w.boolOf(v)
			o.s(fmt.Sprintf("%"+flags+string(verb), b))
			return
		case u.Info()&types.IsInteger != 0:
			wd, signed, _ := sizeOf(u)
			var x uint64
			switch y := v.(type) {
			case uint64:
				x = y
			case *Term:
				x = w.concretize(y)
			}
			if signed {
				o.s(fmt.Sprintf("%"+flags+string(verb), sx(x, wd)))
			} else {
				o.s(fmt.Sprintf("%"+flags+string(verb), x))
			}
			return
		case u.Info()&types.IsFloat != 0:
			o.s(fmt.Sprintf("%"+flags+string(verb), v.(float64)))
			return
		}
	case *types.Slice:
		s := v.(Slice)
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && (verb == 's' || verb == 'q' || verb == 'x') {
			w.fmtString(g, o, flags, verb, mkStr(append([]Value(nil), s...)))
			return
		}
		o.s("[")
		for i, e := range s {
			if i > 0 {
				o.s(" ")
			}
			w.fmtVal(g, o, flags, verb, u.Elem(), e, depth+1)
		}
		o.s("]")
		return
	case *types.Array:
		o.s("[")
		for i, e := range v.(Array) {
			if i > 0 {
				o.s(" ")
			}
			w.fmtVal(g, o, flags, verb, u.Elem(), e, depth+1)
		}
		o.s("]")
		return
	case *types.Struct:
		s := v.(Struct)
		o.s("{")
		for i := range s {
			if i > 0 {
				o.s(" ")
			}
			if strings.Contains(flags, "+") {
				o.s(u.Field(i).Name() + ":")
			}
			w.fmtVal(g, o, flags, verb, u.Field(i).Type(), s[i], depth+1)
		}
		o.s("}")
		return
	case *types.Pointer:
		p, _ := v.(*Value)
		if p == nil {
			o.s("<nil>")
			return
		}
		if depth == 0 {
			switch u.Elem().Underlying().(type) {
			case *types.Struct, *types.Slice, *types.Map, *types.Array:
				o.s("&")
				w.fmtVal(g, o, flags, verb, u.Elem(), *p, depth+1)
				return
			}
		}
		o.s("0xc000000000")
		return
	case *types.Map:
		m, _ := v.(*MapV)
		o.s("map[")
		if m != nil {
			first := true
			var order []int
			for i := range m.keys {
				if _, dead := m.keys[i].(tombstone); !dead {
					order = append(order, i)
				}
			}
			// in the order of the keys
			sort.SliceStable(order, func(i, j int) bool {
				switch x := m.keys[order[i]].(type) {
				case uint64:
					if y, ok := m.keys[order[j]].(uint64); ok {
						return int64(x) < int64(y)
					}
				case string, *SymStr:
					return str(w, x) < str(w, m.keys[order[j]])
				}
				return false
			})
			for _, i := range order {
				if !first {
					o.s(" ")
				}
				first = false
				w.fmtVal(g, o, flags, verb, u.Key(), m.keys[i], depth+1)
				o.s(":")
				w.fmtVal(g, o, flags, verb, u.Elem(), m.vals[i], depth+1)
			}
		}
		o.s("]")
		return
	case *types.Interface:
		ifc := v.(Iface)
		if ifc.T == nil {
			o.s("<nil>")
			return
		}
		w.fmtVerb(g, o, flags, verb, ifc)
		return
	case *types.Signature, *types.Chan:
		o.s("0xc000000000")
		return
	}
	panic(engErr("fmt of %s", t))
}

func (w *Worker) sprint(g *G, args []Value, ln bool) Value {
	var o outBuf
	prevStr := true
	for i, x := range args {
		a := x.(Iface)
		isStr := false
		if a.T != nil {
			if b, ok := a.T.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				isStr = true
			}
		}
		if i > 0 && (ln || !isStr && !prevStr) {
			o.s(" ")
		}
		w.fmtVerb(g, &o, "", 'v', a)
		prevStr = isStr
	}
	if ln {
		o.s("\n")
	}
	return mkStr(o.b)
}

func variadic(v Value) []Value {
	s, _ := v.(Slice)
	return s
}

// print writes s to what os.Stdout is now. Unless the program changed that, the
// output goes nowhere.
func (w *Worker) print(g *G, s Value) Value {
	if pkg := w.p.byPath["os"]; pkg != nil {
		if v := pkg.Var("Stdout"); v != nil {
			if p, _ := (*w.global(w.p.globalIdx(v), v)).(*Value); p != nil {
				t := v.Type().(*types.Pointer).Elem()
				return w.writeTo(g, Iface{T: w.canon(t), V: p}, s)
			}
		}
	}
	return Tuple{u64(uint64(len(strBytes(s)))), Iface{}}
}

func (w *Worker) writeTo(g *G, wr Iface, s Value) Value {
	if wr.T == nil {
		panic(w.goPanicStr("invalid memory address or nil pointer dereference"))
	}
	bs := strBytes(s)
	sl := make(Slice, len(bs))
	copy(sl, bs)
	return w.CallMethod(g, wr, "Write", sl)
}

func init() {
	for _, n := range []string{"Scan", "Scanln", "Scanf", "Sscan", "Sscanln", "Sscanf", "Fscan", "Fscanln", "Fscanf"} {
		N("fmt."+n, func(w *Worker, g *G, fn *ssa.Function, a []Value) Value { panic(engErr("fmt.%s", n)) })
	}
	N("fmt.Sprintf", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value {
		s, _ := w.sprintf(g, str(w, a[0]), variadic(a[1]))
		return s
	})
	N("fmt.Sprint", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value { return w.sprint(g, variadic(a[0]), false) })
	N("fmt.Sprintln", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value { return w.sprint(g, variadic(a[0]), true) })
	app := func(b Value, s Value) Value { return append(append(Slice{}, b.(Slice)...), strBytes(s)...) }
	N("fmt.Appendf", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value {
		s, _ := w.sprintf(g, str(w, a[1]), variadic(a[2]))
		return app(a[0], s)
	})
	N("fmt.Append", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value { return app(a[0], w.sprint(g, variadic(a[1]), false)) })
	N("fmt.Appendln", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value { return app(a[0], w.sprint(g, variadic(a[1]), true)) })
	N("fmt.Errorf", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value {
		s, wr := w.sprintf(g, str(w, a[0]), variadic(a[1]))
		if len(wr) == 1 && wr[0].T != nil {
			p := new(Value)
			*p = Struct{s, wr[0]}
			return Iface{T: w.canon(w.namedPtr("fmt", "wrapError")), V: p}
		}
		return w.errNew(g, s)
	})
	N("fmt.Fprintf", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value {
		s, _ := w.sprintf(g, str(w, a[1]), variadic(a[2]))
		return w.writeTo(g, a[0].(Iface), s)
	})
	N("fmt.Fprint", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value {
		return w.writeTo(g, a[0].(Iface), w.sprint(g, variadic(a[1]), false))
	})
	N("fmt.Fprintln", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value {
		return w.writeTo(g, a[0].(Iface), w.sprint(g, variadic(a[1]), true))
	})
	N("fmt.Println", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value {
		return w.print(g, w.sprint(g, variadic(a[0]), true))
	})
	N("fmt.Print", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value {
		return w.print(g, w.sprint(g, variadic(a[0]), false))
	})
	N("fmt.Printf", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value {
		s, _ := w.sprintf(g, str(w, a[0]), variadic(a[1]))
		return w.print(g, s)
	})
	for _, n := range []string{"log.Println", "log.Printf", "log.Print"} {
		N(n, func(w *Worker, g *G, fn *ssa.Function, a []Value) Value { return none })
	}
}
