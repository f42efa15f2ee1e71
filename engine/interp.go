package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"strings"
	"sync/atomic"
	"unicode/utf8"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

// targetPanic is a Go panic of the program under analysis.
type targetPanic struct {
	v     Value // the panic value (Iface)
	trace string
	fatal bool
}

// abort kinds
type abortPath struct{ why string } // assumption false, path infeasible
type killG struct{}

type deferred struct {
	fn   Value
	args []Value
	com  *ssa.CallCommon
	next *deferred
}

type frame struct {
	w        *Worker
	g        *G
	fi       *fnInfo
	regs     []Value
	env      []Value
	block    int
	prev     int
	defers   *[]deferred
	result   Value
	panicked bool
	panicV   any
	caller   *frame
	lenient  bool
	recov    bool
	cur      *instr
}

func (w *Worker) goPanicStr(msg string) targetPanic {
	return targetPanic{v: Iface{T: w.p.rtErrT, V: msg}}
}

func (fr *frame) get(o *operand) Value {
	switch o.k {
	case kReg:
		v := fr.regs[o.i]
		if p, ok := v.(Poison); ok {
			panic(engErr("use of uninitialised value: %s", p.why))
		}
		return v
	case kConst:
		switch o.v.(type) {
		case Struct, Array:
			return copyVal(o.v)
		}
		return o.v
	case kGlobal:
		return fr.w.global(o.i, o.g)
	}
	return nil
}

func (w *Worker) global(i int, g *ssa.Global) *Value {
	for i >= len(w.globals) {
		w.globals = append(w.globals, nil)
	}
	c := w.globals[i]
	if c == nil {
		v := new(Value)
		*v = zero(g.Type().(*types.Pointer).Elem())
		w.globals[i] = v
		c = v
	}
	if g.Pkg != nil {
		w.ensureInit(w.p.pkgIdx[g.Pkg], g.Pkg)
	}
	return c
}

func (w *Worker) ensureInit(i int, pkg *ssa.Package) {
	if i < 0 || w.inited[i] {
		return
	}
	w.inited[i] = true
	if pkg == nil {
		return
	}
	if skipInit[pkg.Pkg.Path()] {
		return
	}
	f := pkg.Func("init")
	if f == nil {
		return
	}
	old := w.initDepth
	w.initDepth++
	g := &G{w: w, id: -1}
	saveSteps := w.run.steps
	func() {
		defer func() {
			if r := recover(); r != nil {
				w.initNotes = append(w.initNotes, fmt.Sprintf("init %s: %v", pkg.Pkg.Path(), panicText(r)))
			}
		}()
		w.callFn(g, nil, f, nil, nil)
	}()
	w.run.steps = saveSteps
	w.initDepth = old
}

func panicText(r any) string {
	switch r := r.(type) {
	case targetPanic:
		return fmt.Sprintf("panic %v", r.v)
	case error:
		return r.Error()
	}
	return fmt.Sprint(r)
}

const maxDepth = 1500

// callFn runs an SSA function to completion.
func (w *Worker) callFn(g *G, caller *frame, fn *ssa.Function, args []Value, env []Value) Value {
	fi := w.p.info(fn)
	if fi.native != nil {
		return fi.native(w, g, fn, args)
	}
	if fi.redirect != nil && !g.inModel() {
		fi = w.p.info(fi.redirect)
		fn = fi.fn
	}
	if fi.isInit && caller != nil {
		return Tuple(nil) // package initialisers run on demand
	}
	if fi.pkgi >= 0 && !w.inited[fi.pkgi] {
		w.ensureInit(fi.pkgi, fnPkg(fn))
	}
	if fi.blocks == nil {
		panic(engErr("no body and no model for %s", fi.name))
	}
	if w.cov != nil && w.initDepth == 0 {
		w.cov[fi]++
	}
	fr := &frame{w: w, g: g, fi: fi, regs: make([]Value, fi.nregs), env: env, caller: caller}
	fr.lenient = fi.isInit
	copy(fr.regs, args)
	copy(fr.regs[len(fn.Params):], env)
	if fi.hasDefer {
		fr.defers = &[]deferred{}
	}
	g.depth++
	if g.depth > maxDepth {
		panic(targetPanic{v: Iface{T: w.p.rtErrT, V: "stack overflow"}, fatal: true})
	}
	if fi.model {
		if w.mcrOn(g) {
			w.mcrFS(g, fn.Name(), args)
		}
		g.model++
	}
	oldTop := g.top
	g.top = fr
	if fi.hasDefer {
		depth, model := g.depth, g.model
		fr.runProtected(depth, model)
	} else {
		fr.exec()
	}
	g.top = oldTop
	if fi.model {
		g.model--
	}
	g.depth--
	return fr.result
}

func (fr *frame) runProtected(depth, model int) {
	done := false
	func() {
		defer func() {
			if done {
				return
			}
			r := recover()
			tp, ok := r.(targetPanic)
			if !ok || tp.fatal {
				panic(r)
			}
			fr.g.depth, fr.g.model = depth, model
			fr.g.top = fr
			fr.panicked = true
			fr.panicV = tp
		}()
		fr.exec()
		done = true
	}()
	if !fr.panicked {
		return
	}
	fr.runDefers()
	if fr.panicked {
		panic(fr.panicV)
	}
	// recovered
	if fr.fi.fn.Recover != nil {
		fr.block = fr.fi.fn.Recover.Index
		fr.prev = -1
		fr.recov = true
		fr.exec()
	} else {
		fr.result = zero(fr.fi.fn.Signature.Results())
	}
}

func (fr *frame) runDefers() {
	for fr.defers != nil && len(*fr.defers) > 0 {
		d := (*fr.defers)[len(*fr.defers)-1]
		*fr.defers = (*fr.defers)[:len(*fr.defers)-1]
		depth, model := fr.g.depth, fr.g.model
		func() {
			ok := false
			defer func() {
				if ok {
					return
				}
				r := recover()
				tp, is := r.(targetPanic)
				if !is || tp.fatal {
					panic(r)
				}
				fr.g.depth, fr.g.model = depth, model
				fr.g.top = fr
				fr.panicked = true
				fr.panicV = tp
			}()
			saved := fr.g.deferFr
			fr.g.deferFr = fr
			fr.callValue(d.com, d.fn, d.args, fr)
			fr.g.deferFr = saved
			ok = true
		}()
	}
}

func (fr *frame) callValue(com *ssa.CallCommon, fn Value, args []Value, caller *frame) Value {
	w := fr.w
	switch f := fn.(type) {
	case *Closure:
		if f == nil {
			panic(w.goPanicStr("invalid memory address or nil pointer dereference"))
		}
		if f.native != nil {
			return f.native(w, fr.g, args)
		}
		return w.callFn(fr.g, caller, f.fn, args, f.env)
	case *ssa.Builtin:
		return fr.builtin(f, com, args)
	}
	panic(engErr("call of %T", fn))
}

// Call is used by natives to call back into the program.
func (w *Worker) Call(g *G, fn Value, args ...Value) Value {
	f, ok := fn.(*Closure)
	if !ok || f == nil {
		panic(w.goPanicStr("invalid memory address or nil pointer dereference"))
	}
	if f.native != nil {
		return f.native(w, g, args)
	}
	return w.callFn(g, g.top, f.fn, args, f.env)
}

// CallMethod calls a method by name on an interface value.
func (w *Worker) CallMethod(g *G, recv Iface, name string, args ...Value) Value {
	fn := w.methodByName(recv.T, name)
	if fn == nil {
		panic(engErr("no method %s on %s", name, recv.T))
	}
	return w.callFn(g, g.top, fn, append([]Value{recv.V}, args...), nil)
}

func (w *Worker) methodByName(t types.Type, name string) *ssa.Function {
	ms := w.p.ssa.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		s := ms.At(i)
		if s.Obj().Name() == name {
			return w.p.ssa.MethodValue(s)
		}
	}
	return nil
}

type mkey struct {
	t types.Type
	m *types.Func
}

func (w *Worker) findMethod(t types.Type, m *types.Func) *ssa.Function {
	k := mkey{w.canon(t), m}
	if f, ok := w.methods[k]; ok {
		return f
	}
	f := w.p.ssa.LookupMethod(t, m.Pkg(), m.Name())
	w.methods[k] = f
	return f
}

func (fr *frame) prepCall(com *ssa.CallCommon, ops []operand) (Value, []Value) {
	w := fr.w
	if com.IsInvoke() {
		recv := fr.get(&ops[0]).(Iface)
		if recv.T == nil {
			panic(w.goPanicStr("invalid memory address or nil pointer dereference"))
		}
		f := w.findMethod(recv.T, com.Method)
		if f == nil {
			panic(engErr("no method %s for %s", com.Method, recv.T))
		}
		args := make([]Value, 0, 1+len(com.Args))
		args = append(args, copyVal(recv.V))
		for i := range com.Args {
			args = append(args, fr.get(&ops[1+i]))
		}
		return &Closure{fn: f}, args
	}
	args := make([]Value, len(com.Args))
	for i := range com.Args {
		args[i] = fr.get(&ops[1+i])
	}
	if ops[0].k == kBuiltin {
		return com.Value, args
	}
	return fr.get(&ops[0]), args
}

func (fr *frame) exec() {
	w := fr.w
	run := w.run
	for {
		b := fr.fi.blocks[fr.block]
		if len(b.phis) > 0 {
			idx := -1
			for i, p := range b.b.Preds {
				if p.Index == fr.prev {
					idx = i
					break
				}
			}
			if len(b.phis) == 1 {
				p := &b.phis[0]
				fr.regs[p.dst] = fr.get(&p.edges[idx])
			} else {
				tmp := make([]Value, len(b.phis))
				for i := range b.phis {
					tmp[i] = fr.get(&b.phis[i].edges[idx])
				}
				for i := range b.phis {
					fr.regs[b.phis[i].dst] = tmp[i]
				}
			}
		}
		run.steps += int64(len(b.instrs))
		if run.steps > run.maxSteps {
			panic(engErr("step limit %d reached in %s", run.maxSteps, fr.fi.name))
		}
		next := -1
		for i := range b.instrs {
			ic := &b.instrs[i]
			fr.cur = ic
			if fr.lenient {
				n, ret := fr.stepLenient(ic)
				if ret {
					return
				}
				if n >= 0 {
					next = n
				}
				continue
			}
			n, ret := fr.step(ic)
			if ret {
				return
			}
			if n >= 0 {
				next = n
			}
		}
		fr.prev = fr.block
		fr.block = next
	}
}

func (fr *frame) stepLenient(ic *instr) (n int, ret bool) {
	ok := false
	defer func() {
		if ok {
			return
		}
		r := recover()
		switch r.(type) {
		case killG, abortPath:
			panic(r)
		}
		if ic.dst >= 0 {
			fr.regs[ic.dst] = Poison{fmt.Sprintf("%s: %s", fr.fi.name, panicText(r))}
		}
		if _, isIf := ic.in.(*ssa.If); isIf {
			n = fr.fi.blocks[fr.block].b.Succs[1].Index
		}
		if _, isJ := ic.in.(*ssa.Jump); isJ {
			n = fr.fi.blocks[fr.block].b.Succs[0].Index
		}
		if len(fr.w.initNotes) < 200 {
			fr.w.initNotes = append(fr.w.initNotes, fmt.Sprintf("%s: %s: %v", fr.fi.name, ic.in, panicText(r)))
		}
		if st, isSt := ic.in.(*ssa.Store); isSt {
			if g, isG := st.Addr.(*ssa.Global); isG {
				i := fr.w.p.globalIdx(g)
				*fr.w.global(i, g) = Poison{fmt.Sprintf("global %s: %s", g, panicText(r))}
			}
		}
	}()
	n, ret = fr.step(ic)
	ok = true
	return
}

func (fr *frame) step(ic *instr) (next int, ret bool) {
	w := fr.w
	next = -1
	switch in := ic.in.(type) {
	case *ssa.UnOp:
		fr.regs[ic.dst] = fr.unop(in, fr.get(&ic.ops[0]))
	case *ssa.BinOp:
		x, y := fr.get(&ic.ops[0]), fr.get(&ic.ops[1])
		fr.regs[ic.dst] = w.binop(in.Op, in.X.Type(), in.Y.Type(), x, y)
	case *ssa.Call:
		f, args := fr.prepCall(&in.Call, ic.ops)
		fr.regs[ic.dst] = fr.callValue(&in.Call, f, args, fr)
	case *ssa.Store:
		w.store(fr.g, fr.get(&ic.ops[0]), fr.get(&ic.ops[1]))
	case *ssa.If:
		c := fr.get(&ic.ops[0])
		b := fr.fi.blocks[fr.block].b
		var cv bool
		switch c := c.(type) {
		case bool:
			cv = c
		case *Term:
			cv = w.decide(c)
		default:
			panic(engErr("if on %T", c))
		}
		if cv {
			next = b.Succs[0].Index
		} else {
			next = b.Succs[1].Index
		}
	case *ssa.Jump:
		next = fr.fi.blocks[fr.block].b.Succs[0].Index
	case *ssa.Return:
		switch len(ic.ops) {
		case 0:
			fr.result = Tuple(nil)
		case 1:
			fr.result = copyVal(fr.get(&ic.ops[0]))
		default:
			t := make(Tuple, len(ic.ops))
			for i := range ic.ops {
				t[i] = copyVal(fr.get(&ic.ops[i]))
			}
			fr.result = t
		}
		return -1, true
	case *ssa.FieldAddr:
		p := w.ptr(fr.get(&ic.ops[0]))
		s, ok := (*p).(Struct)
		if !ok {
			panic(engErr("fieldaddr on %T in %s: %s", *p, fr.fi.name, in))
		}
		fr.regs[ic.dst] = &s[in.Field]
	case *ssa.Field:
		s, ok := fr.get(&ic.ops[0]).(Struct)
		if !ok {
			panic(engErr("field of %T", fr.get(&ic.ops[0])))
		}
		fr.regs[ic.dst] = copyVal(s[in.Field])
	case *ssa.IndexAddr:
		x := fr.get(&ic.ops[0])
		var elems []Value
		switch x := x.(type) {
		case Slice:
			elems = x
		case *Value:
			if x == nil {
				panic(w.goPanicStr("invalid memory address or nil pointer dereference"))
			}
			elems = []Value((*x).(Array))
		default:
			panic(engErr("indexaddr on %T", x))
		}
		iv := fr.get(&ic.ops[1])
		if t, ok := iv.(*Term); ok {
			t = w.idxTerm(t, in.Index.Type())
			w.boundsCheck(t, len(elems))
			if scalars(elems) && len(elems) <= 4096 {
				fr.regs[ic.dst] = &SymPtr{elems, t}
			} else {
				fr.regs[ic.dst] = &elems[w.concretize(t)]
			}
		} else {
			i := asInt(iv, in.Index.Type())
			if i < 0 || i >= int64(len(elems)) {
				panic(w.goPanicStr(fmt.Sprintf("index out of range [%d] with length %d", i, len(elems))))
			}
			fr.regs[ic.dst] = &elems[i]
		}
	case *ssa.Index:
		x := fr.get(&ic.ops[0])
		iv := fr.get(&ic.ops[1])
		fr.regs[ic.dst] = w.index(x, iv, in.Index.Type())
	case *ssa.Alloc:
		v := new(Value)
		*v = zero(in.Type().Underlying().(*types.Pointer).Elem())
		fr.regs[ic.dst] = v
	case *ssa.Extract:
		t, ok := fr.get(&ic.ops[0]).(Tuple)
		if !ok {
			panic(engErr("extract of %T in %s: %s", fr.get(&ic.ops[0]), fr.fi.name, in))
		}
		fr.regs[ic.dst] = t[in.Index]
	case *ssa.MakeInterface:
		fr.regs[ic.dst] = Iface{T: w.canon(in.X.Type()), V: copyVal(fr.get(&ic.ops[0]))}
	case *ssa.ChangeInterface:
		fr.regs[ic.dst] = fr.get(&ic.ops[0])
	case *ssa.ChangeType:
		fr.regs[ic.dst] = fr.get(&ic.ops[0])
	case *ssa.Convert:
		fr.regs[ic.dst] = w.convert(fr.g, in.X.Type(), in.Type(), fr.get(&ic.ops[0]))
	case *ssa.MultiConvert:
		fr.regs[ic.dst] = w.convert(fr.g, in.X.Type(), in.Type(), fr.get(&ic.ops[0]))
	case *ssa.Slice:
		fr.regs[ic.dst] = fr.slice(in, ic)
	case *ssa.MakeSlice:
		n := w.concInt(fr.get(&ic.ops[0]), in.Len.Type())
		c := w.concInt(fr.get(&ic.ops[1]), in.Cap.Type())
		if n < 0 || c < n {
			panic(w.goPanicStr("makeslice: len out of range"))
		}
		if c > 1<<22 {
			panic(engErr("makeslice of %d elements", c))
		}
		el := in.Type().Underlying().(*types.Slice).Elem()
		s := make(Slice, c)
		z := zero(el)
		switch z.(type) {
		case Struct, Array:
			for i := range s {
				s[i] = zero(el)
			}
		default:
			for i := range s {
				s[i] = z
			}
		}
		fr.regs[ic.dst] = s[:n]
	case *ssa.MakeClosure:
		var env []Value
		for i := range in.Bindings {
			env = append(env, fr.get(&ic.ops[1+i]))
		}
		fr.regs[ic.dst] = &Closure{fn: in.Fn.(*ssa.Function), env: env}
	case *ssa.MakeMap:
		fr.regs[ic.dst] = &MapV{idx: map[string]int{}, kt: in.Type().Underlying().(*types.Map).Key()}
	case *ssa.MapUpdate:
		m := fr.get(&ic.ops[0]).(*MapV)
		w.raceMap(fr.g, m, true)
		w.mapSet(m, copyVal(fr.get(&ic.ops[1])), copyVal(fr.get(&ic.ops[2])))
	case *ssa.Lookup:
		fr.regs[ic.dst] = fr.lookup(in, fr.get(&ic.ops[0]), fr.get(&ic.ops[1]))
	case *ssa.Range:
		fr.regs[ic.dst] = fr.rangeIter(in, fr.get(&ic.ops[0]))
	case *ssa.Next:
		fr.regs[ic.dst] = fr.get(&ic.ops[0]).(iterator).next(fr)
	case *ssa.TypeAssert:
		fr.regs[ic.dst] = w.typeAssert(in, fr.get(&ic.ops[0]).(Iface))
	case *ssa.Defer:
		f, args := fr.prepCall(&in.Call, ic.ops)
		d := deferred{fn: f, args: args, com: &in.Call}
		st := fr.defers
		if in.DeferStack != nil {
			st = fr.get(&ic.ops[len(ic.ops)-1]).(*[]deferred)
		}
		*st = append(*st, d)
	case *ssa.RunDefers:
		fr.runDefers()
		if fr.panicked {
			panic(fr.panicV)
		}
	case *ssa.Panic:
		v := fr.get(&ic.ops[0]).(Iface)
		panic(targetPanic{v: v, trace: fr.g.trace()})
	case *ssa.Go:
		f, args := fr.prepCall(&in.Call, ic.ops)
		com := &in.Call
		w.spawn(fr.g, func(g *G) { (&frame{w: w, g: g}).callValue(com, f, args, nil) })
	case *ssa.MakeChan:
		n := w.concInt(fr.get(&ic.ops[0]), in.Size.Type())
		fr.regs[ic.dst] = &ChanV{cap: int(n)}
	case *ssa.Send:
		w.chanSend(fr.g, fr.get(&ic.ops[0]).(*ChanV), copyVal(fr.get(&ic.ops[1])))
	case *ssa.Select:
		fr.regs[ic.dst] = fr.selectStmt(in, ic)
	case *ssa.SliceToArrayPointer:
		s := fr.get(&ic.ops[0]).(Slice)
		n := in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if int64(len(s)) < n {
			panic(w.goPanicStr("cannot convert slice with length to array or pointer to array"))
		}
		v := new(Value)
		*v = Array(s[:n:n])
		fr.regs[ic.dst] = v
	default:
		panic(engErr("unsupported instruction %T in %s", in, fr.fi.name))
	}
	return
}

func scalars(e []Value) bool {
	for _, x := range e {
		switch x.(type) {
		case uint64, *Term, bool:
		default:
			return false
		}
	}
	return len(e) > 0
}

func asInt(v Value, t types.Type) int64 {
	u, ok := v.(uint64)
	if !ok {
		panic(engErr("asInt of %T", v))
	}
	wd, signed, _ := intType(t)
	if signed {
		return sx(u, wd)
	}
	return int64(u)
}

func (w *Worker) concInt(v Value, t types.Type) int64 {
	if tm, ok := v.(*Term); ok {
		return asInt(u64(w.concretize(tm)), t)
	}
	return asInt(v, t)
}

func (w *Worker) idxTerm(t *Term, ty types.Type) *Term {
	_, signed, _ := intType(ty)
	return w.tc.Resize(t, 64, signed)
}

func (w *Worker) boundsCheck(t *Term, n int) {
	ok := w.tc.Cmp(OUlt, t, w.tc.BV(64, uint64(n)))
	if !w.decide(ok) {
		panic(w.goPanicStr(fmt.Sprintf("index out of range with length %d", n)))
	}
}

func (w *Worker) toTerm(v Value, wd uint8) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case uint64:
		return w.tc.BV(wd, v)
	case bool:
		return w.tc.Bool(v)
	}
	panic(engErr("toTerm of %T", v))
}

func fromTerm(t *Term) Value {
	if t.op == OConst {
		if t.w == 0 {
			return t.v == 1
		}
		return u64(t.v)
	}
	return t
}

func scalarWidth(e []Value) uint8 {
	for _, x := range e {
		if t, ok := x.(*Term); ok {
			return t.w
		}
		if _, ok := x.(bool); ok {
			return 0
		}
	}
	return 255
}

// selectElem reads elems[idx] as an ite tree. wd is the element width.
func (w *Worker) selectElem(elems []Value, idx *Term, wd uint8) Value {
	if sw := scalarWidth(elems); sw != 255 {
		wd = sw
	}
	var rec func(lo, hi int) *Term
	rec = func(lo, hi int) *Term {
		same := true
		for i := lo + 1; i < hi; i++ {
			if elems[i] != elems[lo] {
				same = false
				break
			}
		}
		if same {
			return w.toTerm(elems[lo], wd)
		}
		mid := (lo + hi) / 2
		return w.tc.Ite(w.tc.Cmp(OUlt, idx, w.tc.BV(64, uint64(mid))), rec(lo, mid), rec(mid, hi))
	}
	return fromTerm(rec(0, len(elems)))
}

func (w *Worker) index(x, iv Value, it types.Type) Value {
	switch x := x.(type) {
	case string, *SymStr:
		n := strLen(x)
		if t, ok := iv.(*Term); ok {
			t = w.idxTerm(t, it)
			w.boundsCheck(t, n)
			return w.selectElem(strBytes(x), t, 8)
		}
		i := asInt(iv, it)
		if i < 0 || i >= int64(n) {
			panic(w.goPanicStr(fmt.Sprintf("index out of range [%d] with length %d", i, n)))
		}
		return strAt(x, int(i))
	case Array:
		if t, ok := iv.(*Term); ok {
			t = w.idxTerm(t, it)
			w.boundsCheck(t, len(x))
			return copyVal(x[w.concretize(t)])
		}
		i := asInt(iv, it)
		if i < 0 || i >= int64(len(x)) {
			panic(w.goPanicStr("index out of range"))
		}
		return copyVal(x[i])
	}
	panic(engErr("index of %T", x))
}

// ptr resolves a pointer value to a cell.
func (w *Worker) ptr(v Value) *Value {
	switch p := v.(type) {
	case *Value:
		if p == nil {
			panic(w.goPanicStr("invalid memory address or nil pointer dereference"))
		}
		return p
	case *SymPtr:
		return &p.elems[w.concretize(p.idx)]
	}
	panic(engErr("dereference of %T", v))
}

func (w *Worker) load(g *G, pv Value, t types.Type) Value {
	if sp, ok := pv.(*SymPtr); ok {
		wd, _, isInt := intType(t)
		if !isInt {
			wd = 0
		}
		if w.raceOn {
			for i := range sp.elems {
				w.raceCell(g, &sp.elems[i], false)
			}
		}
		return w.selectElem(sp.elems, sp.idx, wd)
	}
	p := w.ptr(pv)
	if w.raceOn {
		w.raceCell(g, p, false)
	}
	if po, ok := (*p).(Poison); ok {
		panic(engErr("use of uninitialised global: %s", po.why))
	}
	return copyVal(*p)
}

func (w *Worker) setCell(p *Value, v Value) {
	if w.initDepth == 0 {
		w.trail = append(w.trail, trailEnt{addr: p, old: *p})
	}
	*p = v
}

func (w *Worker) onUndo(f func()) {
	if w.initDepth == 0 {
		w.trail = append(w.trail, trailEnt{f: f})
	}
}

func (w *Worker) store(g *G, pv Value, v Value) {
	if sp, ok := pv.(*SymPtr); ok {
		wd := scalarWidth(sp.elems)
		if t, ok := v.(*Term); ok {
			wd = t.w
		}
		if _, ok := v.(bool); ok {
			wd = 0
		}
		if wd != 255 {
			for i := range sp.elems {
				c := w.tc.Eq(sp.idx, w.tc.BV(64, uint64(i)))
				w.setCell(&sp.elems[i], fromTerm(w.tc.Ite(c, w.toTerm(v, wd), w.toTerm(sp.elems[i], wd))))
			}
			return
		}
	}
	p := w.ptr(pv)
	if w.raceOn {
		w.raceCell(g, p, true)
	}
	w.storeCell(p, v)
}

func (w *Worker) storeCell(p *Value, v Value) {
	switch v := v.(type) {
	case Struct:
		if old, ok := (*p).(Struct); ok && len(old) == len(v) {
			if len(v) > 0 && &old[0] == &v[0] {
				return
			}
			for i := range v {
				w.storeCell(&old[i], v[i])
			}
			return
		}
		w.setCell(p, copyVal(v))
	case Array:
		if old, ok := (*p).(Array); ok && len(old) == len(v) {
			if len(v) > 0 && &old[0] == &v[0] {
				return
			}
			for i := range v {
				w.storeCell(&old[i], v[i])
			}
			return
		}
		w.setCell(p, copyVal(v))
	default:
		w.setCell(p, v)
	}
}

func (fr *frame) unop(in *ssa.UnOp, x Value) Value {
	w := fr.w
	switch in.Op {
	case token.MUL:
		return w.load(fr.g, x, in.Type())
	case token.NOT:
		switch x := x.(type) {
		case bool:
			return !x
		case *Term:
			return fromTerm(w.tc.Not(x))
		}
	case token.SUB:
		switch x := x.(type) {
		case float64:
			return -x
		case complex128:
			return -x
		}
		wd, _, _ := intType(in.Type())
		if u, ok := x.(uint64); ok {
			return u64(-u & mask(wd))
		}
		return fromTerm(w.tc.Bin(OSub, w.tc.BV(wd, 0), x.(*Term)))
	case token.XOR:
		wd, _, _ := intType(in.Type())
		if u, ok := x.(uint64); ok {
			return u64(^u & mask(wd))
		}
		return fromTerm(w.tc.Bin(OBxor, x.(*Term), w.tc.BV(wd, mask(wd))))
	case token.ARROW:
		v, ok := w.chanRecv(fr.g, x.(*ChanV), in.X.Type().Underlying().(*types.Chan).Elem())
		if in.CommaOk {
			return Tuple{v, ok}
		}
		return v
	}
	panic(engErr("unop %s on %T", in.Op, x))
}

func (w *Worker) binop(op token.Token, t, ty types.Type, x, y Value) Value {
	switch op {
	case token.EQL:
		return w.eq(t, x, y)
	case token.NEQ:
		switch r := w.eq(t, x, y).(type) {
		case bool:
			return !r
		case *Term:
			return fromTerm(w.tc.Not(r))
		}
	}
	switch a := x.(type) {
	case float64:
		b := y.(float64)
		f32 := false
		if bt, ok := t.Underlying().(*types.Basic); ok && bt.Kind() == types.Float32 {
			f32 = true
		}
		rf := func(f float64) Value {
			if f32 {
				return float64(float32(f))
			}
			return f
		}
		switch op {
		case token.ADD:
			return rf(a + b)
		case token.SUB:
			return rf(a - b)
		case token.MUL:
			return rf(a * b)
		case token.QUO:
			return rf(a / b)
		case token.LSS:
			return a < b
		case token.LEQ:
			return a <= b
		case token.GTR:
			return a > b
		case token.GEQ:
			return a >= b
		}
	case string, *SymStr:
		switch op {
		case token.ADD:
			return strCat(x, y)
		case token.LSS:
			return w.strLess(x, y, false)
		case token.LEQ:
			return w.strLess(x, y, true)
		case token.GTR:
			return w.strLess(y, x, false)
		case token.GEQ:
			return w.strLess(y, x, true)
		}
	case complex128:
		b := y.(complex128)
		switch op {
		case token.ADD:
			return a + b
		case token.SUB:
			return a - b
		case token.MUL:
			return a * b
		case token.QUO:
			return a / b
		}
	case bool:
		panic(engErr("binop %s on bool", op))
	}
	wd, signed, ok := intType(t)
	if !ok {
		panic(engErr("binop %s on %T/%s", op, x, t))
	}
	if op == token.SHL || op == token.SHR {
		return w.shift(op, wd, signed, ty, x, y)
	}
	a, aok := x.(uint64)
	b, bok := y.(uint64)
	if aok && bok {
		m := mask(wd)
		switch op {
		case token.ADD:
			return u64((a + b) & m)
		case token.SUB:
			return u64((a - b) & m)
		case token.MUL:
			return u64((a * b) & m)
		case token.QUO, token.REM:
			if b == 0 {
				panic(w.goPanicStr("integer divide by zero"))
			}
			var o Op
			switch {
			case op == token.QUO && signed:
				o = OSdiv
			case op == token.QUO:
				o = OUdiv
			case signed:
				o = OSrem
			default:
				o = OUrem
			}
			return u64(evalBin(o, wd, a, b))
		case token.AND:
			return u64(a & b)
		case token.OR:
			return u64(a | b)
		case token.XOR:
			return u64(a ^ b)
		case token.AND_NOT:
			return u64(a &^ b)
		}
		if signed {
			p, q := sx(a, wd), sx(b, wd)
			switch op {
			case token.LSS:
				return p < q
			case token.LEQ:
				return p <= q
			case token.GTR:
				return p > q
			case token.GEQ:
				return p >= q
			}
		} else {
			switch op {
			case token.LSS:
				return a < b
			case token.LEQ:
				return a <= b
			case token.GTR:
				return a > b
			case token.GEQ:
				return a >= b
			}
		}
		panic(engErr("binop %s", op))
	}
	ta, tb := w.toTerm(x, wd), w.toTerm(y, wd)
	c := w.tc
	sel := func(s, u Op) Op {
		if signed {
			return s
		}
		return u
	}
	switch op {
	case token.ADD:
		return fromTerm(c.Bin(OAdd, ta, tb))
	case token.SUB:
		return fromTerm(c.Bin(OSub, ta, tb))
	case token.MUL:
		return fromTerm(c.Bin(OMul, ta, tb))
	case token.QUO, token.REM:
		if w.decide(c.Eq(tb, c.BV(wd, 0))) {
			panic(w.goPanicStr("integer divide by zero"))
		}
		if op == token.QUO {
			return fromTerm(c.Bin(sel(OSdiv, OUdiv), ta, tb))
		}
		return fromTerm(c.Bin(sel(OSrem, OUrem), ta, tb))
	case token.AND:
		return fromTerm(c.Bin(OBand, ta, tb))
	case token.OR:
		return fromTerm(c.Bin(OBor, ta, tb))
	case token.XOR:
		return fromTerm(c.Bin(OBxor, ta, tb))
	case token.AND_NOT:
		return fromTerm(c.Bin(OBand, ta, c.Bin(OBxor, tb, c.BV(wd, mask(wd)))))
	case token.LSS:
		return fromTerm(c.Cmp(sel(OSlt, OUlt), ta, tb))
	case token.LEQ:
		return fromTerm(c.Cmp(sel(OSle, OUle), ta, tb))
	case token.GTR:
		return fromTerm(c.Cmp(sel(OSlt, OUlt), tb, ta))
	case token.GEQ:
		return fromTerm(c.Cmp(sel(OSle, OUle), tb, ta))
	}
	panic(engErr("binop %s", op))
}

func (w *Worker) shift(op token.Token, wd uint8, signed bool, ty types.Type, x, y Value) Value {
	yw, ysigned, ok := intType(ty)
	if !ok {
		yw, ysigned = 64, false
	}
	o := OShl
	if op == token.SHR {
		o = OLshr
		if signed {
			o = OAshr
		}
	}
	a, aok := x.(uint64)
	b, bok := y.(uint64)
	if bok && ysigned && sx(b, yw) < 0 {
		panic(w.goPanicStr("negative shift amount"))
	}
	if aok && bok {
		return u64(evalBin(o, wd, a, b))
	}
	ta := w.toTerm(x, wd)
	tb := w.toTerm(y, yw)
	if ysigned && !bok {
		if w.decide(w.tc.Cmp(OSlt, tb, w.tc.BV(yw, 0))) {
			panic(w.goPanicStr("negative shift amount"))
		}
	}
	if yw > wd {
		big := w.tc.Cmp(OUle, w.tc.BV(yw, uint64(wd)), tb)
		small := w.tc.Resize(tb, wd, false)
		return fromTerm(w.tc.Ite(big, w.tc.Bin(o, ta, w.tc.BV(wd, mask(wd))), w.tc.Bin(o, ta, small)))
	}
	return fromTerm(w.tc.Bin(o, ta, w.tc.Resize(tb, wd, false)))
}

func (w *Worker) and(a, b Value) Value {
	if x, ok := a.(bool); ok {
		if !x {
			return false
		}
		return b
	}
	if y, ok := b.(bool); ok {
		if !y {
			return false
		}
		return a
	}
	return fromTerm(w.tc.And(a.(*Term), b.(*Term)))
}

func (w *Worker) bytesEq(x, y []Value) Value {
	if len(x) != len(y) {
		return false
	}
	var r Value = true
	for i := range x {
		a, ok1 := x[i].(uint64)
		b, ok2 := y[i].(uint64)
		if ok1 && ok2 {
			if a != b {
				return false
			}
			continue
		}
	}
	for i := range x {
		if x[i] == y[i] {
			continue
		}
		r = w.and(r, fromTerm(w.tc.Eq(w.toTerm(x[i], 8), w.toTerm(y[i], 8))))
		if r == false {
			return false
		}
	}
	return r
}

func (w *Worker) strEq(x, y Value) Value {
	if a, ok := x.(string); ok {
		if b, ok := y.(string); ok {
			return a == b
		}
	}
	if strLen(x) != strLen(y) {
		return false
	}
	return w.bytesEq(strBytes(x), strBytes(y))
}

func (w *Worker) strLess(x, y Value, orEq bool) Value {
	if a, ok := x.(string); ok {
		if b, ok := y.(string); ok {
			if orEq {
				return a <= b
			}
			return a < b
		}
	}
	return w.bytesLess(strBytes(x), strBytes(y), orEq)
}

func (w *Worker) bytesLess(a, b []Value, orEq bool) Value {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	tail := len(a) < len(b) || orEq && len(a) == len(b)
	r := w.tc.Bool(tail)
	for i := n - 1; i >= 0; i-- {
		p, q := w.toTerm(a[i], 8), w.toTerm(b[i], 8)
		r = w.tc.Ite(w.tc.Eq(p, q), r, w.tc.Cmp(OUlt, p, q))
	}
	return fromTerm(r)
}

// eq compares two values of static type t.
func (w *Worker) eq(t types.Type, x, y Value) Value {
	switch a := x.(type) {
	case bool:
		if b, ok := y.(bool); ok {
			return a == b
		}
		return fromTerm(w.tc.Eq(w.tc.Bool(a), y.(*Term)))
	case uint64:
		if b, ok := y.(uint64); ok {
			return a == b
		}
		b := y.(*Term)
		return fromTerm(w.tc.Eq(w.tc.BV(b.w, a), b))
	case *Term:
		return fromTerm(w.tc.Eq(a, w.toTerm(y, a.w)))
	case float64:
		return a == y.(float64)
	case complex128:
		return a == y.(complex128)
	case string, *SymStr:
		return w.strEq(x, y)
	case *Value:
		if b, ok := y.(*Value); ok {
			return a == b
		}
		if _, ok := y.(*SymPtr); ok {
			if a == nil {
				return false
			}
			return a == w.ptr(y)
		}
		return false
	case *SymPtr:
		if b, ok := y.(*Value); ok && b == nil {
			return false
		}
		return w.ptr(x) == w.ptr(y)
	case *MapV:
		return a == y.(*MapV)
	case *ChanV:
		return a == y.(*ChanV)
	case *Closure:
		b := y.(*Closure)
		return a == b
	case Slice:
		b := y.(Slice)
		return a == nil && b == nil // only nil comparisons are legal
	case Iface:
		b, ok := y.(Iface)
		if !ok {
			panic(engErr("eq iface with %T", y))
		}
		if a.T == nil || b.T == nil {
			return a.T == nil && b.T == nil
		}
		if w.canon(a.T) != w.canon(b.T) {
			return false
		}
		if !types.Comparable(a.T) {
			panic(w.goPanicStr("comparing uncomparable type " + a.T.String()))
		}
		return w.eq(a.T, a.V, b.V)
	case Struct:
		b := y.(Struct)
		st := t.Underlying().(*types.Struct)
		var r Value = true
		for i := range a {
			if st.Field(i).Name() == "_" {
				continue
			}
			r = w.and(r, w.eq(st.Field(i).Type(), a[i], b[i]))
			if r == false {
				return false
			}
		}
		return r
	case Array:
		b := y.(Array)
		et := t.Underlying().(*types.Array).Elem()
		var r Value = true
		for i := range a {
			r = w.and(r, w.eq(et, a[i], b[i]))
			if r == false {
				return false
			}
		}
		return r
	}
	panic(engErr("eq of %T", x))
}

func (w *Worker) boolOf(v Value) bool {
	switch v := v.(type) {
	case bool:
		return v
	case *Term:
		return w.decide(v)
	}
	panic(engErr("boolOf %T", v))
}

func (w *Worker) convert(g *G, from, to types.Type, x Value) Value {
	fu, tu := from.Underlying(), to.Underlying()
	switch t := tu.(type) {
	case *types.Basic:
		if t.Kind() == types.UnsafePointer {
			switch x := x.(type) {
			case *Value, *SymPtr:
				return x
			case uint64:
				if x == 0 {
					return nilPtr
				}
			}
			panic(engErr("conversion to unsafe.Pointer from %T", x))
		}
		if t.Info()&types.IsString != 0 {
			switch f := fu.(type) {
			case *types.Basic:
				if f.Info()&types.IsString != 0 {
					return x
				}
				if f.Info()&types.IsInteger != 0 {
					if u, ok := x.(uint64); ok {
						wd, signed, _ := sizeOf(f)
						v := int64(u)
						if signed {
							v = sx(u, wd)
						}
						if v < 0 || v > 0x10ffff {
							return "\uFFFD"
						}
						return string(rune(v))
					}
					return mkStr(w.encodeRune(x.(*Term)))
				}
			case *types.Slice:
				s := x.(Slice)
				if b, ok := f.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
					if w.raceOn {
						for i := range s {
							w.raceCell(g, &s[i], false)
						}
					}
					return mkStr(append([]Value(nil), s...))
				}
				var out []Value
				for _, r := range s {
					switch r := r.(type) {
					case uint64:
						var tmp [4]byte
						n := utf8.EncodeRune(tmp[:], rune(sx(r, 32)))
						for _, b := range tmp[:n] {
							out = append(out, u64(uint64(b)))
						}
					case *Term:
						out = append(out, w.encodeRune(r)...)
					}
				}
				return mkStr(out)
			}
		}
		if t.Info()&types.IsInteger != 0 {
			wd, tsigned, _ := sizeOf(t)
			f, ok := fu.(*types.Basic)
			if !ok {
				panic(engErr("convert %s to %s", from, to))
			}
			if f.Kind() == types.UnsafePointer {
				p, ok := x.(*Value)
				if ok && p == nil {
					return u64(0)
				}
				return uint64(uintptr(unsafe.Pointer(p)))
			}
			if f.Info()&types.IsFloat != 0 {
				v := x.(float64)
				if tsigned {
					return u64(uint64(int64(v)) & mask(wd))
				}
				return u64(uint64(v) & mask(wd))
			}
			fw, fs, _ := sizeOf(f)
			switch v := x.(type) {
			case uint64:
				if fs && wd > fw {
					return u64(uint64(sx(v, fw)) & mask(wd))
				}
				return u64(v & mask(wd))
			case *Term:
				return fromTerm(w.tc.Resize(v, wd, fs))
			}
		}
		if t.Info()&types.IsFloat != 0 {
			f := fu.(*types.Basic)
			var v float64
			if f.Info()&types.IsFloat != 0 {
				v = x.(float64)
			} else {
				u, ok := x.(uint64)
				if !ok {
					u = w.concretize(x.(*Term))
				}
				fw, fs, _ := sizeOf(f)
				if fs {
					v = float64(sx(u, fw))
				} else {
					v = float64(u)
				}
			}
			if t.Kind() == types.Float32 {
				v = float64(float32(v))
			}
			return v
		}
		if t.Info()&types.IsBoolean != 0 || t.Info()&types.IsComplex != 0 {
			return x
		}
	case *types.Slice:
		if b, ok := fu.(*types.Basic); ok && b.Info()&types.IsString != 0 {
			if e, ok := t.Elem().Underlying().(*types.Basic); ok && e.Kind() == types.Uint8 {
				bs := strBytes(x)
				s := make(Slice, len(bs))
				copy(s, bs)
				return s
			}
			var out Slice = Slice{}
			n := strLen(x)
			for i := 0; i < n; {
				r, sz := w.decodeRune(g, x, i)
				out = append(out, r)
				i += sz
			}
			return out
		}
		return x
	case *types.Pointer:
		switch x := x.(type) {
		case *Value, *SymPtr:
			return x
		}
	}
	if types.Identical(fu, tu) {
		return x
	}
	switch x.(type) {
	case Slice, *MapV, *Closure, Struct, *Value:
		return x
	}
	panic(engErr("convert %s to %s (%T)", from, to, x))
}

func (w *Worker) encodeRune(t *Term) []Value {
	t = w.tc.Resize(t, 32, true)
	if w.decide(w.tc.Cmp(OUlt, t, w.tc.BV(32, 0x80))) {
		return []Value{fromTerm(w.tc.Resize(t, 8, false))}
	}
	u := w.concretize(t)
	return strBytes(string(rune(int32(u))))
}

func (w *Worker) decodeRune(g *G, s Value, i int) (Value, int) {
	if cs, ok := s.(string); ok {
		r, n := utf8.DecodeRuneInString(cs[i:])
		return u64(uint64(uint32(r))), n
	}
	b := strAt(s, i)
	switch b := b.(type) {
	case uint64:
		if b < 0x80 {
			return u64(b), 1
		}
	case *Term:
		if w.decide(w.tc.Cmp(OUlt, b, w.tc.BV(8, 0x80))) {
			return fromTerm(w.tc.Resize(b, 32, false)), 1
		}
	}
	hi := i + 4
	if n := strLen(s); hi > n {
		hi = n
	}
	f := w.p.byPath["unicode/utf8"].Func("DecodeRuneInString")
	r := w.callFn(g, g.top, f, []Value{strSlice(s, i, hi)}, nil).(Tuple)
	return r[0], int(w.concInt(r[1], types.Typ[types.Int]))
}

func (fr *frame) slice(in *ssa.Slice, ic *instr) Value {
	w := fr.w
	x := fr.get(&ic.ops[0])
	get := func(i int, def int64, v ssa.Value) int64 {
		if v == nil {
			return def
		}
		return w.concInt(fr.get(&ic.ops[i]), v.Type())
	}
	oob := func() {
		panic(w.goPanicStr("slice bounds out of range"))
	}
	// operand positions: X, Low, High, Max (absent ones are still present as kNone)
	switch x := x.(type) {
	case string, *SymStr:
		n := int64(strLen(x))
		lo := get(1, 0, in.Low)
		hi := get(2, n, in.High)
		if lo < 0 || hi < lo || hi > n {
			oob()
		}
		return strSlice(x, int(lo), int(hi))
	case Slice:
		lo := get(1, 0, in.Low)
		hi := get(2, int64(len(x)), in.High)
		mx := get(3, int64(cap(x)), in.Max)
		if lo < 0 || hi < lo || mx < hi || mx > int64(cap(x)) {
			oob()
		}
		if x == nil {
			return x
		}
		return x[lo:hi:mx]
	case *Value:
		if x == nil {
			panic(w.goPanicStr("invalid memory address or nil pointer dereference"))
		}
		a := (*x).(Array)
		lo := get(1, 0, in.Low)
		hi := get(2, int64(len(a)), in.High)
		mx := get(3, int64(len(a)), in.Max)
		if lo < 0 || hi < lo || mx < hi || mx > int64(len(a)) {
			oob()
		}
		return Slice(a[lo:hi:mx])
	}
	panic(engErr("slice of %T", x))
}

func (w *Worker) typeAssert(in *ssa.TypeAssert, x Iface) Value {
	ok := false
	if x.T != nil {
		if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
			ok = w.implements(x.T, it, in.AssertedType)
		} else {
			ok = w.canon(x.T) == w.canon(in.AssertedType)
		}
	}
	if ok {
		var v Value = x
		if _, isI := in.AssertedType.Underlying().(*types.Interface); !isI {
			v = copyVal(x.V)
		}
		if in.CommaOk {
			return Tuple{v, true}
		}
		return v
	}
	if in.CommaOk {
		return Tuple{zero(in.AssertedType), false}
	}
	from := "nil"
	if x.T != nil {
		from = x.T.String()
	}
	panic(w.goPanicStr(fmt.Sprintf("interface conversion: interface is %s, not %s", from, in.AssertedType)))
}

type implKey struct{ t, i types.Type }

func (w *Worker) implements(t types.Type, it *types.Interface, at types.Type) bool {
	k := implKey{w.canon(t), at}
	if r, ok := w.impls[k]; ok {
		return r
	}
	r := types.Implements(t, it)
	w.impls[k] = r
	return r
}

// ---- maps ----

func (w *Worker) mapFind(m *MapV, k Value) int {
	if m == nil {
		return -1
	}
	var sb strings.Builder
	if w.keyString(k, &sb) {
		if i, ok := m.idx[sb.String()]; ok {
			return i
		}
		if m.symb == 0 {
			return -1
		}
	}
	for i, mk := range m.keys {
		if _, dead := mk.(tombstone); dead {
			continue
		}
		if w.boolOf(w.eq(m.kt, mk, k)) {
			return i
		}
	}
	return -1
}

func (w *Worker) mapSet(m *MapV, k, v Value) {
	if m == nil {
		panic(w.goPanicStr("assignment to entry in nil map"))
	}
	i := w.mapFind(m, k)
	if i >= 0 {
		w.setCell(&m.vals[i], v)
		return
	}
	var sb strings.Builder
	conc := w.keyString(k, &sb)
	ks := sb.String()
	m.keys = append(m.keys, k)
	m.vals = append(m.vals, v)
	m.n++
	if conc {
		m.idx[ks] = len(m.keys) - 1
	} else {
		m.symb++
	}
	w.onUndo(func() {
		m.keys = m.keys[:len(m.keys)-1]
		m.vals = m.vals[:len(m.vals)-1]
		m.n--
		if conc {
			delete(m.idx, ks)
		} else {
			m.symb--
		}
	})
}

func (w *Worker) mapDelete(m *MapV, k Value) {
	i := w.mapFind(m, k)
	if i < 0 {
		return
	}
	old := m.keys[i]
	var sb strings.Builder
	conc := w.keyString(old, &sb)
	ks := sb.String()
	m.keys[i] = tombstone{}
	m.n--
	if conc {
		delete(m.idx, ks)
	} else {
		m.symb--
	}
	w.onUndo(func() {
		m.keys[i] = old
		m.n++
		if conc {
			m.idx[ks] = i
		} else {
			m.symb++
		}
	})
}

func (w *Worker) mapClear(m *MapV) {
	if m == nil {
		return
	}
	keys, vals, idx, n, symb := m.keys, m.vals, m.idx, m.n, m.symb
	m.keys, m.vals, m.idx, m.n, m.symb = nil, nil, map[string]int{}, 0, 0
	w.onUndo(func() { m.keys, m.vals, m.idx, m.n, m.symb = keys, vals, idx, n, symb })
}

func (fr *frame) lookup(in *ssa.Lookup, x, k Value) Value {
	w := fr.w
	switch m := x.(type) {
	case *MapV:
		if m != nil {
			w.raceMap(fr.g, m, false)
		}
		i := w.mapFind(m, k)
		var v Value
		if i >= 0 {
			v = copyVal(m.vals[i])
		} else {
			v = zero(in.X.Type().Underlying().(*types.Map).Elem())
		}
		if in.CommaOk {
			return Tuple{v, i >= 0}
		}
		return v
	case string, *SymStr:
		return w.index(x, k, in.Index.Type())
	}
	panic(engErr("lookup on %T", x))
}

type iterator interface{ next(fr *frame) Value }

type strIter struct {
	s Value
	i int
}

func (it *strIter) next(fr *frame) Value {
	if it.i >= strLen(it.s) {
		return Tuple{false, u64(0), u64(0)}
	}
	p := it.i
	r, n := fr.w.decodeRune(fr.g, it.s, it.i)
	it.i += n
	return Tuple{true, u64(uint64(p)), r}
}

type mapIter struct {
	m    *MapV
	todo []int
	kt   types.Type
	vt   types.Type
}

func (it *mapIter) next(fr *frame) Value {
	for len(it.todo) > 0 {
		k := 0
		if fr.w.run.permMaps && len(it.todo) > 1 && !fr.g.inModel() {
			k = fr.w.chooseEnv(len(it.todo), "maporder")
		}
		i := it.todo[k]
		it.todo = append(append([]int(nil), it.todo[:k]...), it.todo[k+1:]...)
		if i >= len(it.m.keys) {
			continue
		}
		if _, dead := it.m.keys[i].(tombstone); dead {
			continue
		}
		return Tuple{true, copyVal(it.m.keys[i]), copyVal(it.m.vals[i])}
	}
	return Tuple{false, zero(it.kt), zero(it.vt)}
}

func (fr *frame) rangeIter(in *ssa.Range, x Value) Value {
	switch m := x.(type) {
	case string, *SymStr:
		return &strIter{s: x}
	case *MapV:
		mt := in.X.Type().Underlying().(*types.Map)
		it := &mapIter{m: m, kt: mt.Key(), vt: mt.Elem()}
		if m != nil {
			fr.w.raceMap(fr.g, m, false)
			for i := range m.keys {
				if _, dead := m.keys[i].(tombstone); !dead {
					it.todo = append(it.todo, i)
				}
			}
		}
		return it
	}
	panic(engErr("range over %T", x))
}

// ---- builtins ----

func (fr *frame) builtin(b *ssa.Builtin, com *ssa.CallCommon, args []Value) Value {
	w := fr.w
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case string, *SymStr:
			return u64(uint64(strLen(x)))
		case Slice:
			return u64(uint64(len(x)))
		case Array:
			return u64(uint64(len(x)))
		case *Value:
			return u64(uint64(len((*x).(Array))))
		case *MapV:
			if x == nil {
				return u64(0)
			}
			return u64(uint64(x.n))
		case *ChanV:
			if x == nil {
				return u64(0)
			}
			return u64(uint64(len(x.buf)))
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return u64(uint64(cap(x)))
		case Array:
			return u64(uint64(len(x)))
		case *Value:
			return u64(uint64(len((*x).(Array))))
		case *ChanV:
			if x == nil {
				return u64(0)
			}
			return u64(uint64(x.cap))
		}
	case "append":
		s := args[0].(Slice)
		if len(args) == 1 {
			return s
		}
		var add []Value
		switch y := args[1].(type) {
		case Slice:
			add = y
			if w.raceOn {
				for i := range y {
					w.raceCell(fr.g, &y[i], false)
				}
			}
		case string, *SymStr:
			add = strBytes(y)
		default:
			panic(engErr("append %T", y))
		}
		if len(add) == 0 {
			return s
		}
		if len(s)+len(add) <= cap(s) {
			r := s[:len(s)+len(add)]
			tmp := make([]Value, len(add))
			for i, v := range add {
				tmp[i] = copyVal(v)
			}
			for i, v := range tmp {
				if w.raceOn {
					w.raceCell(fr.g, &r[len(s)+i], true)
				}
				w.setCell(&r[len(s)+i], v)
			}
			return r
		}
		nc := cap(s) * 2
		if nc < len(s)+len(add) {
			nc = len(s) + len(add)
		}
		if nc < 8 && cap(s) == 0 && isByteSlice(com) {
			nc = 8
		}
		r := make(Slice, len(s)+len(add), nc)
		if w.raceOn {
			for i := range s {
				w.raceCell(fr.g, &s[i], false)
			}
		}
		copy(r, s)
		for i := range s {
			r[i] = copyVal(s[i])
		}
		for i, v := range add {
			r[len(s)+i] = copyVal(v)
		}
		var z Value
		if len(add) > 0 && nc > len(r) {
			z = zero(com.Args[0].Type().Underlying().(*types.Slice).Elem())
			full := r[:nc]
			for i := len(r); i < nc; i++ {
				full[i] = copyVal(z)
			}
		}
		return r
	case "copy":
		d := args[0].(Slice)
		var src []Value
		switch y := args[1].(type) {
		case Slice:
			src = y
		case string, *SymStr:
			src = strBytes(y)
		}
		n := len(d)
		if len(src) < n {
			n = len(src)
		}
		tmp := make([]Value, n)
		for i := 0; i < n; i++ {
			if w.raceOn {
				if _, ok := args[1].(Slice); ok {
					w.raceCell(fr.g, &src[i], false)
				}
			}
			tmp[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			if w.raceOn {
				w.raceCell(fr.g, &d[i], true)
			}
			w.storeCell(&d[i], tmp[i])
		}
		return u64(uint64(n))
	case "delete":
		m := args[0].(*MapV)
		if m != nil {
			w.raceMap(fr.g, m, true)
			w.mapDelete(m, args[1])
		}
		return Tuple(nil)
	case "clear":
		switch x := args[0].(type) {
		case *MapV:
			w.mapClear(x)
		case Slice:
			z := zero(com.Args[0].Type().Underlying().(*types.Slice).Elem())
			for i := range x {
				w.storeCell(&x[i], copyVal(z))
			}
		}
		return Tuple(nil)
	case "min", "max":
		r := args[0]
		t := com.Args[0].Type()
		for _, a := range args[1:] {
			op := token.LSS
			if b.Name() == "max" {
				op = token.GTR
			}
			if w.boolOf(w.binop(op, t, t, a, r)) {
				r = a
			}
		}
		return r
	case "panic":
		panic(targetPanic{v: args[0]})
	case "recover":
		// the frame whose deferred call is running
		f := fr.g.deferFr
		if f != nil && f.panicked && fr.caller == f {
			f.panicked = false
			return f.panicV.(targetPanic).v
		}
		return Iface{}
	case "print", "println":
		return Tuple(nil)
	case "close":
		w.chanClose(fr.g, args[0].(*ChanV))
		return Tuple(nil)
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Value); ok && p == nil {
			panic(w.goPanicStr("invalid memory address or nil pointer dereference"))
		}
		return args[0]
	case "ssa:deferstack":
		return fr.defers
	case "String": // unsafe.String(ptr, len)
		n := w.concInt(args[1], com.Args[1].Type())
		if n == 0 {
			return ""
		}
		p := w.ptr(args[0])
		return mkStr(append([]Value(nil), unsafe.Slice(p, int(n))...))
	case "StringData":
		bs := strBytes(args[0])
		if len(bs) == 0 {
			return nilPtr
		}
		cp := make(Slice, len(bs))
		copy(cp, bs)
		return &cp[0]
	case "Slice":
		n := w.concInt(args[1], com.Args[1].Type())
		p, _ := args[0].(*Value)
		if p == nil {
			return Slice(nil)
		}
		return Slice(unsafe.Slice(p, int(n)))
	case "SliceData":
		s := args[0].(Slice)
		if cap(s) == 0 {
			return nilPtr
		}
		return &s[:1][0]
	}
	panic(engErr("builtin %s", b.Name()))
}

func isByteSlice(com *ssa.CallCommon) bool {
	s, ok := com.Args[0].Type().Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

var _ = atomic.AddInt64
var _ = math.Inf
