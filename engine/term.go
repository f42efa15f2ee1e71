package main

import (
	"fmt"
	"math/bits"
	"strings"
)

// Terms: hash-consed SMT expressions over Bool (w==0) and fixed-width bit-vectors.

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OIte
	OAdd
	OSub
	OMul
	OUdiv
	OUrem
	OSdiv
	OSrem
	OBand
	OBor
	OBxor
	OShl
	OLshr
	OAshr
	OUlt
	OUle
	OSlt
	OSle
	OExtract // low bits: extract [w-1:0]
	OZext
	OSext
)

var opNames = [...]string{"const", "var", "not", "and", "or", "=", "ite", "bvadd", "bvsub", "bvmul", "bvudiv", "bvurem", "bvsdiv", "bvsrem", "bvand", "bvor", "bvxor", "bvshl", "bvlshr", "bvashr", "bvult", "bvule", "bvslt", "bvsle", "extract", "zext", "sext"}

type Term struct {
	op      Op
	w       uint8 // 0 = Bool
	id      int32
	v       uint64
	a, b, c *Term
	name    string
	sv      *Term // the only variable below, when there is exactly one
	multi   bool  // more than one variable below
}

type tkey struct {
	op      Op
	w       uint8
	v       uint64
	a, b, c *Term
}

type TermCtx struct {
	tab   map[tkey]*Term
	truth map[*Term]*set256
	vset  map[*Term][]*Term
	vars  map[string]*Term
	n     int32
	True  *Term
	False *Term
}

func NewTermCtx() *TermCtx {
	c := &TermCtx{tab: map[tkey]*Term{}, truth: map[*Term]*set256{}, vset: map[*Term][]*Term{}, vars: map[string]*Term{}}
	c.True = c.mk(OConst, 0, 1, nil, nil, nil)
	c.False = c.mk(OConst, 0, 0, nil, nil, nil)
	return c
}

func (c *TermCtx) mk(op Op, w uint8, v uint64, a, b, d *Term) *Term {
	k := tkey{op, w, v, a, b, d}
	if t, ok := c.tab[k]; ok {
		return t
	}
	c.n++
	t := &Term{op: op, w: w, id: c.n, v: v, a: a, b: b, c: d}
	for _, k := range [3]*Term{a, b, d} {
		if k == nil {
			continue
		}
		if k.multi {
			t.multi, t.sv = true, nil
			break
		}
		if k.sv != nil {
			if t.sv != nil && t.sv != k.sv {
				t.multi, t.sv = true, nil
				break
			}
			t.sv = k.sv
		}
	}
	c.tab[k] = t
	return t
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sx(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - w
	return int64(v<<s) >> s
}

func (c *TermCtx) BV(w uint8, v uint64) *Term { return c.mk(OConst, w, v&mask(w), nil, nil, nil) }
func (c *TermCtx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}

func (c *TermCtx) Var(name string, w uint8) *Term {
	if t, ok := c.vars[name]; ok {
		if t.w != w {
			panic("var redeclared at other width: " + name)
		}
		return t
	}
	c.n++
	t := &Term{op: OVar, w: w, id: c.n, name: name}
	t.sv = t
	c.vars[name] = t
	return t
}

func (t *Term) isConst() bool { return t.op == OConst }

func (c *TermCtx) Not(a *Term) *Term {
	switch a.op {
	case OConst:
		return c.Bool(a.v == 0)
	case ONot:
		return a.a
	}
	return c.mk(ONot, 0, 0, a, nil, nil)
}

func (c *TermCtx) And(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.op == OConst {
		if a.v == 0 {
			return c.False
		}
		return b
	}
	if b.op == OConst {
		if b.v == 0 {
			return c.False
		}
		return a
	}
	if c.Not(a) == b {
		return c.False
	}
	return c.mk(OAnd, 0, 0, a, b, nil)
}

func (c *TermCtx) Or(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.op == OConst {
		if a.v == 1 {
			return c.True
		}
		return b
	}
	if b.op == OConst {
		if b.v == 1 {
			return c.True
		}
		return a
	}
	if c.Not(a) == b {
		return c.True
	}
	return c.mk(OOr, 0, 0, a, b, nil)
}

func (c *TermCtx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.w != b.w {
		panic(fmt.Sprintf("eq width mismatch %d %d", a.w, b.w))
	}
	if a.op == OConst && b.op == OConst {
		return c.Bool(a.v == b.v)
	}
	if a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst {
		if a.w == 0 {
			if b.v == 1 {
				return a
			}
			return c.Not(a)
		}
		switch a.op {
		case OIte:
			if a.b.op == OConst && a.c.op == OConst {
				x, y := a.b.v == b.v, a.c.v == b.v
				switch {
				case x && y:
					return c.True
				case x:
					return a.a
				case y:
					return c.Not(a.a)
				default:
					return c.False
				}
			}
			if a.b.op == OConst || a.c.op == OConst {
				return c.Ite(a.a, c.Eq(a.b, b), c.Eq(a.c, b))
			}
		case OZext:
			if b.v&^mask(a.a.w) != 0 {
				return c.False
			}
			return c.Eq(a.a, c.BV(a.a.w, b.v))
		case OAdd:
			if a.b.op == OConst {
				return c.Eq(a.a, c.BV(a.w, b.v-a.b.v))
			}
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OEq, 0, 0, a, b, nil)
}

func (c *TermCtx) Ite(p, a, b *Term) *Term {
	if p.op == OConst {
		if p.v == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if a.op == OConst {
			if a.v == 1 {
				return c.Or(p, b)
			}
			return c.And(c.Not(p), b)
		}
		if b.op == OConst {
			if b.v == 1 {
				return c.Or(c.Not(p), a)
			}
			return c.And(p, a)
		}
	}
	if p.op == ONot {
		return c.mk(OIte, a.w, 0, p.a, b, a)
	}
	return c.mk(OIte, a.w, 0, p, a, b)
}

func evalBin(op Op, w uint8, x, y uint64) uint64 {
	m := mask(w)
	switch op {
	case OAdd:
		return (x + y) & m
	case OSub:
		return (x - y) & m
	case OMul:
		return (x * y) & m
	case OUdiv:
		if y == 0 {
			return m
		}
		return x / y
	case OUrem:
		if y == 0 {
			return x
		}
		return x % y
	case OSdiv:
		if y == 0 {
			if sx(x, w) < 0 {
				return 1
			}
			return m
		}
		if sx(y, w) == -1 {
			return uint64(-sx(x, w)) & m
		}
		return uint64(sx(x, w)/sx(y, w)) & m
	case OSrem:
		if y == 0 {
			return x
		}
		if sx(y, w) == -1 {
			return 0
		}
		return uint64(sx(x, w)%sx(y, w)) & m
	case OBand:
		return x & y
	case OBor:
		return x | y
	case OBxor:
		return x ^ y
	case OShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OLshr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OAshr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sx(x, w)>>y) & m
	}
	panic("evalBin")
}

func evalCmp(op Op, w uint8, x, y uint64) bool {
	switch op {
	case OUlt:
		return x < y
	case OUle:
		return x <= y
	case OSlt:
		return sx(x, w) < sx(y, w)
	case OSle:
		return sx(x, w) <= sx(y, w)
	}
	panic("evalCmp")
}

func (c *TermCtx) Bin(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("bin %s width mismatch %d %d", opNames[op], a.w, b.w))
	}
	if a.op == OConst && b.op == OConst {
		return c.BV(a.w, evalBin(op, a.w, a.v, b.v))
	}
	if a.op == OConst && (op == OAdd || op == OMul || op == OBand || op == OBor || op == OBxor) {
		a, b = b, a
	}
	if b.op == OConst {
		switch op {
		case OAdd, OSub, OBor, OBxor, OShl, OLshr, OAshr:
			if b.v == 0 {
				return a
			}
		case OMul:
			if b.v == 1 {
				return a
			}
			if b.v == 0 {
				return b
			}
		case OUdiv, OSdiv:
			if b.v == 1 {
				return a
			}
		case OBand:
			if b.v == 0 {
				return b
			}
			if b.v == mask(a.w) {
				return a
			}
			if a.op == OZext && b.v&mask(a.a.w) == mask(a.a.w) {
				return a
			}
		}
		if op == OSub {
			return c.Bin(OAdd, a, c.BV(a.w, -b.v))
		}
		if op == OAdd && a.op == OAdd && a.b.op == OConst {
			return c.Bin(OAdd, a.a, c.BV(a.w, a.b.v+b.v))
		}
		if a.op == OIte && a.b.op == OConst && a.c.op == OConst {
			return c.Ite(a.a, c.BV(a.w, evalBin(op, a.w, a.b.v, b.v)), c.BV(a.w, evalBin(op, a.w, a.c.v, b.v)))
		}
	}
	if a == b {
		switch op {
		case OSub, OBxor:
			return c.BV(a.w, 0)
		case OBand, OBor:
			return a
		}
	}
	if op == OSub && a.op == OAdd {
		if a.a == b {
			return a.b
		}
		if a.b == b {
			return a.a
		}
	}
	return c.mk(op, a.w, 0, a, b, nil)
}

// umax: cheap upper bound of the unsigned value
func umax(t *Term) uint64 {
	switch t.op {
	case OConst:
		return t.v
	case OZext:
		return umax(t.a)
	case OIte:
		x, y := umax(t.b), umax(t.c)
		if x > y {
			return x
		}
		return y
	case OBand:
		if t.b.op == OConst {
			return t.b.v
		}
	case OLshr:
		if t.b.op == OConst && t.b.v < 64 {
			return umax(t.a) >> t.b.v
		}
	case OUrem:
		if t.b.op == OConst && t.b.v > 0 {
			return t.b.v - 1
		}
	}
	return mask(t.w)
}

func (c *TermCtx) Cmp(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("cmp %s width mismatch %d %d", opNames[op], a.w, b.w))
	}
	if a.op == OConst && b.op == OConst {
		return c.Bool(evalCmp(op, a.w, a.v, b.v))
	}
	if a == b {
		return c.Bool(op == OUle || op == OSle)
	}
	// signed comparison of values both known non-negative is unsigned
	if op == OSlt || op == OSle {
		half := mask(a.w) >> 1
		if umax(a) <= half && umax(b) <= half {
			if op == OSlt {
				op = OUlt
			} else {
				op = OUle
			}
		}
	}
	if op == OUlt || op == OUle {
		if b.op == OConst {
			if op == OUlt && umax(a) < b.v || op == OUle && umax(a) <= b.v {
				return c.True
			}
			if op == OUlt && b.v == 0 {
				return c.False
			}
		}
		if a.op == OConst {
			if op == OUlt && umax(b) <= a.v || op == OUle && umax(b) < a.v {
				return c.False
			}
			if op == OUle && a.v == 0 {
				return c.True
			}
		}
		// strip equal zero-extensions
		if a.op == OZext && b.op == OConst && b.v <= mask(a.a.w) {
			return c.Cmp(op, a.a, c.BV(a.a.w, b.v))
		}
		if b.op == OZext && a.op == OConst && a.v <= mask(b.a.w) {
			return c.Cmp(op, c.BV(b.a.w, a.v), b.a)
		}
		if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
			return c.Cmp(op, a.a, b.a)
		}
	}
	if b.op == OConst && a.op == OIte && a.b.op == OConst && a.c.op == OConst {
		return c.Ite(a.a, c.Bool(evalCmp(op, a.w, a.b.v, b.v)), c.Bool(evalCmp(op, a.w, a.c.v, b.v)))
	}
	return c.mk(op, 0, 0, a, b, nil)
}

func (c *TermCtx) Resize(a *Term, w uint8, signed bool) *Term {
	if a.w == w {
		return a
	}
	if a.op == OConst {
		if w > a.w && signed {
			return c.BV(w, uint64(sx(a.v, a.w)))
		}
		return c.BV(w, a.v)
	}
	if w < a.w {
		if (a.op == OZext || a.op == OSext) && a.a.w >= w {
			return c.Resize(a.a, w, false)
		}
		if a.op == OZext && a.a.w < w {
			return c.Resize(a.a, w, false)
		}
		if a.op == OIte && a.b.op == OConst && a.c.op == OConst {
			return c.Ite(a.a, c.Resize(a.b, w, signed), c.Resize(a.c, w, signed))
		}
		return c.mk(OExtract, w, 0, a, nil, nil)
	}
	if a.op == OIte && a.b.op == OConst && a.c.op == OConst {
		return c.Ite(a.a, c.Resize(a.b, w, signed), c.Resize(a.c, w, signed))
	}
	if signed {
		if a.op == OZext {
			return c.Resize(a.a, w, false)
		}
		return c.mk(OSext, w, 0, a, nil, nil)
	}
	if a.op == OZext {
		return c.Resize(a.a, w, false)
	}
	return c.mk(OZext, w, 0, a, nil, nil)
}

// Model maps variable names to values (absent = 0).
type Model map[string]uint64

type evalCache map[*Term]uint64

func (t *Term) Eval(m Model, memo evalCache) uint64 {
	switch t.op {
	case OConst:
		return t.v
	case OVar:
		return m[t.name]
	}
	if v, ok := memo[t]; ok {
		return v
	}
	var r uint64
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch t.op {
	case ONot:
		r = 1 - t.a.Eval(m, memo)
	case OAnd:
		r = t.a.Eval(m, memo)
		if r == 1 {
			r = t.b.Eval(m, memo)
		}
	case OOr:
		r = t.a.Eval(m, memo)
		if r == 0 {
			r = t.b.Eval(m, memo)
		}
	case OEq:
		r = b2u(t.a.Eval(m, memo) == t.b.Eval(m, memo))
	case OIte:
		if t.a.Eval(m, memo) == 1 {
			r = t.b.Eval(m, memo)
		} else {
			r = t.c.Eval(m, memo)
		}
	case OUlt, OUle, OSlt, OSle:
		r = b2u(evalCmp(t.op, t.a.w, t.a.Eval(m, memo), t.b.Eval(m, memo)))
	case OExtract:
		r = t.a.Eval(m, memo) & mask(t.w)
	case OZext:
		r = t.a.Eval(m, memo)
	case OSext:
		r = uint64(sx(t.a.Eval(m, memo), t.a.w)) & mask(t.w)
	default:
		r = evalBin(t.op, t.w, t.a.Eval(m, memo), t.b.Eval(m, memo))
	}
	memo[t] = r
	return r
}

// SMT printing: shared nodes become let bindings.
func (t *Term) SMT(collect func(*Term)) string {
	refs := map[*Term]int{}
	var order []*Term
	var visit func(*Term)
	visit = func(x *Term) {
		refs[x]++
		if refs[x] > 1 {
			return
		}
		if x.op == OVar {
			collect(x)
		}
		for _, k := range [3]*Term{x.a, x.b, x.c} {
			if k != nil {
				visit(k)
			}
		}
		order = append(order, x)
	}
	visit(t)
	var sb strings.Builder
	named := map[*Term]string{}
	var pr func(*Term, bool)
	pr = func(x *Term, top bool) {
		if !top {
			if n, ok := named[x]; ok {
				sb.WriteString(n)
				return
			}
		}
		switch x.op {
		case OConst:
			if x.w == 0 {
				if x.v == 1 {
					sb.WriteString("true")
				} else {
					sb.WriteString("false")
				}
			} else {
				fmt.Fprintf(&sb, "(_ bv%d %d)", x.v, x.w)
			}
			return
		case OVar:
			sb.WriteString(x.name)
			return
		case OExtract:
			fmt.Fprintf(&sb, "((_ extract %d 0) ", x.w-1)
		case OZext:
			fmt.Fprintf(&sb, "((_ zero_extend %d) ", x.w-x.a.w)
		case OSext:
			fmt.Fprintf(&sb, "((_ sign_extend %d) ", x.w-x.a.w)
		default:
			sb.WriteByte('(')
			sb.WriteString(opNames[x.op])
			sb.WriteByte(' ')
		}
		for i, k := range [3]*Term{x.a, x.b, x.c} {
			if k != nil {
				if i > 0 {
					sb.WriteByte(' ')
				}
				pr(k, false)
			}
		}
		sb.WriteByte(')')
	}
	n := 0
	for _, x := range order {
		if x == t || refs[x] < 2 || x.op == OConst || x.op == OVar {
			continue
		}
		name := fmt.Sprintf("?s%d", n)
		sb.WriteString("(let ((" + name + " ")
		pr(x, true)
		sb.WriteString(")) ")
		named[x] = name
		n++
	}
	pr(t, true)
	for i := 0; i < n; i++ {
		sb.WriteByte(')')
	}
	return sb.String()
}

func lenBits(v uint64) int { return bits.Len64(v) }

// set256 is a set of byte values.
type set256 [4]uint64

func (s *set256) has(v uint64) bool { return s[v>>6]>>(v&63)&1 == 1 }
func (s *set256) empty() bool       { return s[0]|s[1]|s[2]|s[3] == 0 }
func (s *set256) and(o *set256, neg bool) set256 {
	var r set256
	for i := range s {
		if neg {
			r[i] = s[i] &^ o[i]
		} else {
			r[i] = s[i] & o[i]
		}
	}
	return r
}
func (s *set256) first() uint64 {
	for i, x := range s {
		if x != 0 {
			return uint64(i*64 + bits.TrailingZeros64(x))
		}
	}
	return 0
}

// truthSet is the set of values of t's only variable (at most 8 bits) making t true.
func (c *TermCtx) truthSet(t *Term) *set256 {
	if r, ok := c.truth[t]; ok {
		return r
	}
	var r set256
	n := uint64(1)
	if t.sv.w > 0 {
		n = mask(t.sv.w)
	}
	m := Model{}
	for v := uint64(0); v <= n; v++ {
		m[t.sv.name] = v
		if t.Eval(m, evalCache{}) == 1 {
			r[v>>6] |= 1 << (v & 63)
		}
	}
	c.truth[t] = &r
	return &r
}

func (c *TermCtx) support(t *Term) []*Term {
	if r, ok := c.vset[t]; ok {
		return r
	}
	var r []*Term
	seen := map[*Term]bool{}
	var visit func(*Term)
	visit = func(x *Term) {
		if x == nil || seen[x] {
			return
		}
		seen[x] = true
		if x.op == OVar {
			r = append(r, x)
			return
		}
		visit(x.a)
		visit(x.b)
		visit(x.c)
	}
	visit(t)
	c.vset[t] = r
	return r
}
