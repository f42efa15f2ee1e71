package main

import (
	"go/types"
	"regexp/syntax"

	"golang.org/x/tools/go/ssa"
)

// regexp: leftmost-first matching of the parsed program by backtracking, with
// decisions on symbolic bytes.

type reObj struct {
	src   string
	prog  *syntax.Prog
	ncap  int
	names []string
}

func (w *Worker) reOf(v Value) *reObj {
	p := w.ptr(v)
	st, _ := (*p).(Struct)
	for _, x := range st {
		// in place of the one-pass program
		if q, ok := x.(*Value); ok && q != nil {
			if o, ok := (*q).(*reObj); ok {
				return o
			}
		}
	}
	panic(engErr("regexp object is %T", *p))
}

func reCompile(s string) (*reObj, error) {
	re, err := syntax.Parse(s, syntax.Perl)
	if err != nil {
		return nil, err
	}
	n := re.MaxCap()
	pr, err := syntax.Compile(re.Simplify())
	if err != nil {
		return nil, err
	}
	return &reObj{s, pr, n, re.CapNames()}, nil
}

// match tries at position pos; returns capture slots or nil.
func (w *Worker) reMatch(o *reObj, in []Value, start int) []int {
	for p := start; p <= len(in); p++ {
		cap := make([]int, 2*(o.ncap+1))
		for i := range cap {
			cap[i] = -1
		}
		cap[0] = p
		visited := map[[2]int]bool{}
		if r := w.reStep(o, in, uint32(o.prog.Start), p, cap, visited); r != nil {
			return r
		}
	}
	return nil
}

func (w *Worker) reStep(o *reObj, in []Value, pc uint32, pos int, cap []int, visited map[[2]int]bool) []int {
	for {
		k := [2]int{int(pc), pos}
		if visited[k] {
			return nil
		}
		visited[k] = true
		ins := &o.prog.Inst[pc]
		switch ins.Op {
		case syntax.InstFail:
			return nil
		case syntax.InstAlt, syntax.InstAltMatch:
			c2 := append([]int(nil), cap...)
			if r := w.reStep(o, in, ins.Out, pos, c2, visited); r != nil {
				return r
			}
			pc = ins.Arg
		case syntax.InstCapture:
			if int(ins.Arg) < len(cap) {
				cap[ins.Arg] = pos
			}
			pc = ins.Out
		case syntax.InstNop:
			pc = ins.Out
		case syntax.InstEmptyWidth:
			op := syntax.EmptyOp(ins.Arg)
			var have syntax.EmptyOp
			if pos == 0 {
				have |= syntax.EmptyBeginText | syntax.EmptyBeginLine
			}
			if pos == len(in) {
				have |= syntax.EmptyEndText | syntax.EmptyEndLine
			}
			if op&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary|syntax.EmptyBeginLine|syntax.EmptyEndLine) != 0 {
				panic(engErr("regexp assertion not modelled: %s", o.src))
			}
			if op&^have != 0 {
				return nil
			}
			pc = ins.Out
		case syntax.InstMatch:
			cap[1] = pos
			return cap
		case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
			if pos >= len(in) {
				return nil
			}
			r, n := w.decodeRune(w.run.gs[0], mkStr(append([]Value(nil), in[pos:]...)), 0)
			if !w.reRune(ins, r) {
				return nil
			}
			pos += n
			pc = ins.Out
		default:
			panic(engErr("regexp op %v", ins.Op))
		}
	}
}

func (w *Worker) reRune(ins *syntax.Inst, r Value) bool {
	if u, ok := r.(uint64); ok {
		switch ins.Op {
		case syntax.InstRuneAny:
			return true
		case syntax.InstRuneAnyNotNL:
			return u != '\n'
		}
		return ins.MatchRune(rune(int32(u)))
	}
	t := r.(*Term)
	c := w.tc.False
	switch ins.Op {
	case syntax.InstRuneAny:
		return true
	case syntax.InstRuneAnyNotNL:
		return w.decide(w.tc.Not(w.tc.Eq(t, w.tc.BV(32, '\n'))))
	}
	// ASCII only on this path: build the class as ranges
	in := func(x rune) bool { return ins.MatchRune(x) }
	for x := rune(0); x < 128; {
		if !in(x) {
			x++
			continue
		}
		y := x
		for y+1 < 128 && in(y+1) {
			y++
		}
		if x == y {
			c = w.tc.Or(c, w.tc.Eq(t, w.tc.BV(32, uint64(x))))
		} else {
			c = w.tc.Or(c, w.tc.And(w.tc.Cmp(OUle, w.tc.BV(32, uint64(x)), t), w.tc.Cmp(OUle, t, w.tc.BV(32, uint64(y)))))
		}
		x = y + 1
	}
	return w.decide(c)
}

func init() {
	mk := func(w *Worker, o *reObj) Value {
		t := w.p.byPath["regexp"].Type("Regexp").Type()
		set := func(t types.Type, st Struct, f string, v Value) {
			u := t.Underlying().(*types.Struct)
			for i := 0; i < u.NumFields(); i++ {
				if u.Field(i).Name() == f {
					st[i] = v
					return
				}
			}
			panic(engErr("no field %s in %s", f, t))
		}
		pt := w.p.byPath["regexp/syntax"].Type("Prog").Type()
		pr := zero(pt).(Struct)
		set(pt, pr, "NumCap", u64(uint64(o.prog.NumCap)))
		pv, ov := Value(pr), Value(o)
		st := zero(t).(Struct)
		names := Slice{}
		for _, n := range o.names {
			names = append(names, n)
		}
		set(t, st, "expr", o.src)
		set(t, st, "prog", &pv)
		set(t, st, "onepass", &ov)
		set(t, st, "numSubexp", u64(uint64(o.ncap)))
		set(t, st, "subexpNames", names)
		p := new(Value)
		*p = st
		return p
	}
	doExec := func(w *Worker, g *G, fn *ssa.Function, a []Value) Value {
		if a[1].(Iface).T != nil {
			panic(engErr("regexp on a reader"))
		}
		var s []Value
		if b, ok := a[2].(Slice); ok && b != nil {
			s = b
		} else {
			s = strBytes(a[3])
		}
		c := w.reMatch(w.reOf(a[0]), s, int(i64(a[4])))
		if c == nil {
			return Slice(nil)
		}
		n := int(i64(a[5]))
		out := append(Slice{}, a[6].(Slice)...)
		for i := 0; i < n; i++ {
			x := -1
			if i < len(c) {
				x = c[i]
			}
			out = append(out, u64(uint64(x)))
		}
		return out
	}
	N("(*regexp.Regexp).doExecute", doExec)
	N("(*regexp.Regexp).find", doExec)
	N("regexp.MustCompile", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value {
		o, err := reCompile(a[0].(string))
		if err != nil {
			panic(w.goPanicStr(err.Error()))
		}
		return mk(w, o)
	})
	N("regexp.Compile", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value {
		o, err := reCompile(str(w, a[0]))
		if err != nil {
			return Tuple{nilPtr, w.errNew(g, err.Error())}
		}
		return Tuple{mk(w, o), Iface{}}
	})
	in := func(v Value) []Value {
		if s, ok := v.(Slice); ok {
			return s
		}
		return strBytes(v)
	}
	ms := func(w *Worker, g *G, fn *ssa.Function, a []Value) Value {
		return w.reMatch(w.reOf(a[0]), in(a[1]), 0) != nil
	}
	N("(*regexp.Regexp).MatchString", ms)
	N("(*regexp.Regexp).Match", ms)
	sub := func(w *Worker, s []Value, c []int) Slice {
		var r Slice
		for i := 0; i+1 < len(c); i += 2 {
			if c[i] < 0 || c[i+1] < 0 {
				r = append(r, "")
			} else {
				r = append(r, mkStr(append([]Value(nil), s[c[i]:c[i+1]]...)))
			}
		}
		return r
	}
	N("(*regexp.Regexp).FindStringSubmatch", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value {
		s := strBytes(a[1])
		c := w.reMatch(w.reOf(a[0]), s, 0)
		if c == nil {
			return Slice(nil)
		}
		return sub(w, s, c)
	})
	N("(*regexp.Regexp).FindString", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value {
		s := strBytes(a[1])
		c := w.reMatch(w.reOf(a[0]), s, 0)
		if c == nil {
			return ""
		}
		return mkStr(append([]Value(nil), s[c[0]:c[1]]...))
	})
	N("(*regexp.Regexp).FindAllStringSubmatch", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value {
		s := strBytes(a[1])
		o := w.reOf(a[0])
		n := int(int64(i64(a[2])))
		var out Slice
		pos, prevEnd := 0, -1
		for pos <= len(s) && (n < 0 || len(out) < n) {
			c := w.reMatch(o, s, pos)
			if c == nil {
				break
			}
			accept := true
			if c[1] == pos || c[0] == c[1] {
				if c[0] == prevEnd {
					accept = false
				}
			}
			if c[1] > pos {
				pos = c[1]
			} else {
				pos++
			}
			prevEnd = c[1]
			if accept {
				out = append(out, sub(w, s, c))
			}
		}
		return out
	})
}
