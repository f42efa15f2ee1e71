package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// G is one goroutine of the program under analysis.
type G struct {
	w       *Worker
	id      int
	depth   int
	model   int
	top     *frame
	deferFr *frame
	clk     vclock
	resume  chan struct{}
	exited  chan struct{}
	enabled func() bool
	done    bool
	killed  bool
	raw     int    // operations done that others can notice (schedules decided by the solver)
	onBlock func() // when it arrives at an operation that blocks
}

func (g *G) inModel() bool { return g.model > 0 }

func (g *G) pos() string {
	if g.top == nil {
		return "?"
	}
	return g.top.where()
}

func (fr *frame) where() string {
	if fr.fi == nil {
		return "?"
	}
	s := fr.fi.name
	if fr.cur != nil {
		p := fr.w.p.ssa.Fset.Position(fr.cur.in.Pos())
		if p.IsValid() {
			f := p.Filename
			if i := strings.LastIndex(f, "/"); i >= 0 {
				f = f[i+1:]
			}
			s += fmt.Sprintf(" (%s:%d)", f, p.Line)
		}
	}
	return s
}

func (g *G) trace() string {
	var sb strings.Builder
	n := 0
	for fr := g.top; fr != nil && n < 40; fr = fr.caller {
		sb.WriteString(fr.where())
		sb.WriteByte('\n')
		n++
	}
	return sb.String()
}

// mcrPreempt as preemption bound: the solver decides which schedules to run.
const mcrPreempt = -2

func (w *Worker) mcrNo(what string) {
	if w.run != nil && w.run.mcr != nil && w.initDepth == 0 {
		panic(engErr("mcr: %s while goroutines run", what))
	}
}

type vclock []int32

func (c vclock) copy() vclock { return append(vclock(nil), c...) }

func (c *vclock) join(o vclock) {
	for len(*c) < len(o) {
		*c = append(*c, 0)
	}
	for i, v := range o {
		if v > (*c)[i] {
			(*c)[i] = v
		}
	}
}

func (c vclock) at(i int) int32 {
	if i < len(c) {
		return c[i]
	}
	return 0
}

type mutexSt struct {
	owner   bool
	readers int
	wwait   int
	clk     vclock
	rclk    vclock
}

type wgSt struct {
	n   int64
	clk vclock
}

type acc struct {
	g   int
	c   int32
	pos string
}

type cellSt struct {
	w  acc
	wr bool
	rd []acc
}

type syncState struct {
	mu    map[*Value]*mutexSt
	wg    map[*Value]*wgSt
	at    map[*Value]*vclock // atomics
	keys  map[*MapV]map[int]*vclock
	cells map[*Value]*cellSt
	maps  map[*MapV]*cellSt
	mops  map[*MapV]*vclock
	now   int64
}

func newSyncState() *syncState {
	return &syncState{mu: map[*Value]*mutexSt{}, wg: map[*Value]*wgSt{}, at: map[*Value]*vclock{}, keys: map[*MapV]map[int]*vclock{}, cells: map[*Value]*cellSt{}, maps: map[*MapV]*cellSt{}, mops: map[*MapV]*vclock{}}
}

func (g *G) tick() {
	for len(g.clk) <= g.id {
		g.clk = append(g.clk, 0)
	}
	g.clk[g.id]++
}

func (w *Worker) release(g *G, c *vclock) {
	if g.id < 0 {
		return
	}
	c.join(g.clk)
	g.tick()
}

func (w *Worker) acquire(g *G, c *vclock) {
	if g.id < 0 {
		return
	}
	g.clk.join(*c)
}

func (w *Worker) spawn(g *G, f func(g *G)) {
	if w.initDepth > 0 {
		panic(engErr("go statement during init"))
	}
	run := w.run
	n := &G{w: w, id: len(run.gs), resume: make(chan struct{}, 1), exited: make(chan struct{}), model: g.model}
	if len(run.gs) > 16 {
		panic(engErr("too many goroutines"))
	}
	if w.ex.cfg.Preempt == mcrPreempt && !run.item.noMcr && run.mcr == nil && !g.inModel() && g.id >= 0 {
		w.mcrStart()
	}
	if w.mcrOn(g) {
		w.mcrPoint(g, nil)
		n.id = len(run.gs)
		w.mcrEvent(g, mcrEv{kind: evFork, child: n.id})
	}
	n.clk = g.clk.copy()
	n.tick()
	g.tick()
	run.gs = append(run.gs, n)
	run.spawned = true
	if !run.noRace {
		w.raceOn = true
	}
	go func() {
		<-n.resume
		defer close(n.exited)
		if n.killed {
			n.done = true
			return
		}
		func() {
			defer func() {
				r := recover()
				n.done = true
				if r == nil {
					return
				}
				if _, ok := r.(killG); ok {
					return
				}
				if tp, ok := r.(targetPanic); ok {
					tp.fatal = true
					tp.trace = n.trace()
					r = tp
				}
				run.abort = r
			}()
			f(n)
		}()
		if n.killed {
			return
		}
		if run.abort != nil {
			run.main.resume <- struct{}{}
			return
		}
		// pick the next goroutine
		var to *G
		func() {
			defer func() {
				if r := recover(); r != nil {
					run.abort = r
					to = run.main
				}
			}()
			if run.mcr != nil {
				if to = w.mcrPick(nil); to == nil {
					w.deadlock()
				}
				return
			}
			c := w.runnable(nil)
			if len(c) == 0 {
				w.deadlock()
			}
			to = c[w.chooseEnv(len(c), "sched")]
		}()
		to.resume <- struct{}{}
	}()
	if run.mcr == nil {
		w.schedule(g, nil)
	}
}

func (w *Worker) deadlock() {
	w.violation("deadlock", "deadlock", "all goroutines are blocked", w.run.model, w.curTrace())
	panic(abortPath{"deadlock"})
}

func (w *Worker) runnable(first *G) []*G {
	var c []*G
	ok := func(g *G) bool { return !g.done && (g.enabled == nil || g.enabled()) }
	if first != nil && ok(first) {
		c = append(c, first)
	}
	for _, g := range w.run.gs {
		if g != first && ok(g) {
			c = append(c, g)
		}
	}
	return c
}

// schedule is a scheduling point of g; block (when given) says when g may go on.
func (w *Worker) schedule(g *G, block func() bool) {
	run := w.run
	if g.id < 0 || w.initDepth > 0 || g.inModel() {
		if block != nil && !block() {
			panic(engErr("blocking operation inside init or model code"))
		}
		return
	}
	if !run.spawned {
		if block != nil && !block() {
			w.deadlock()
		}
		return
	}
	if run.mcr != nil {
		w.mcrPoint(g, block)
		return
	}
	g.enabled = block
	if g.onBlock != nil && !block() {
		g.onBlock()
	}
	c := w.runnable(g)
	if len(c) == 0 {
		w.deadlock()
	}
	self := c[0] == g
	if self && run.bound >= 0 && run.preempts >= run.bound {
		g.enabled = nil
		return
	}
	to := c[w.chooseEnv(len(c), "sched")]
	if to == g {
		g.enabled = nil
		return
	}
	if self {
		run.preempts++
	}
	to.resume <- struct{}{}
	<-g.resume
	g.enabled = nil
	if g.killed {
		panic(killG{})
	}
	if g == run.main && run.abort != nil {
		r := run.abort
		panic(r)
	}
}

// killAll ends the goroutines left over at the end of a path.
func (w *Worker) killAll() {
	run := w.run
	for _, g := range run.gs[1:] {
		select {
		case <-g.exited:
			continue
		default:
		}
		g.killed = true
		select {
		case g.resume <- struct{}{}:
		default:
		}
		<-g.exited
	}
}

// ---- races ----

func (w *Worker) raceReport(g *G, other acc, write, owrite bool) {
	kind := func(b bool) string {
		if b {
			return "write"
		}
		return "read"
	}
	here := g.pos()
	label := "data race: " + kind(owrite) + " at " + other.pos + " / " + kind(write) + " at " + here
	w.violation("race", label, label, w.run.model, g.trace())
	panic(abortPath{"race"})
}

func (w *Worker) raceAcc(g *G, st *cellSt, write bool) {
	if st.wr && st.w.g != g.id && st.w.c > g.clk.at(st.w.g) {
		w.raceReport(g, st.w, write, true)
	}
	if write {
		for _, r := range st.rd {
			if r.g != g.id && r.c > g.clk.at(r.g) {
				w.raceReport(g, r, true, false)
			}
		}
		st.rd = st.rd[:0]
		st.wr = true
		st.w = acc{g.id, g.clk.at(g.id), g.pos()}
		return
	}
	for i := range st.rd {
		if st.rd[i].g == g.id {
			st.rd[i].c = g.clk.at(g.id)
			return
		}
	}
	st.rd = append(st.rd, acc{g.id, g.clk.at(g.id), g.pos()})
}

func (w *Worker) raceCell(g *G, p *Value, write bool) {
	if !w.raceOn || w.initDepth > 0 || g == nil || g.id < 0 || g.inModel() {
		return
	}
	if w.run.mcr != nil {
		w.mcrCell(g, p, write)
	}
	w.raceCell1(g, p, write)
}

func (w *Worker) raceCell1(g *G, p *Value, write bool) {
	switch v := (*p).(type) {
	case Struct:
		for i := range v {
			w.raceCell1(g, &v[i], write)
		}
		return
	case Array:
		for i := range v {
			w.raceCell1(g, &v[i], write)
		}
		return
	}
	st := w.run.ss.cells[p]
	if st == nil {
		st = &cellSt{}
		w.run.ss.cells[p] = st
	}
	w.raceAcc(g, st, write)
}

func (w *Worker) raceMap(g *G, m *MapV, write bool) {
	if !w.raceOn || m == nil || w.initDepth > 0 || g.id < 0 || g.inModel() {
		return
	}
	if w.run.mcr != nil {
		w.mcrMap(g, m, write)
	}
	st := w.run.ss.maps[m]
	if st == nil {
		st = &cellSt{}
		w.run.ss.maps[m] = st
	}
	w.raceAcc(g, st, write)
}

// ---- channels ----

func (w *Worker) chanSend(g *G, c *ChanV, v Value) {
	w.mcrNo("a channel")
	if c == nil {
		w.schedule(g, func() bool { return false })
	}
	if c.cap == 0 {
		// rendezvous: wait for the slot, deposit, wait until it is taken
		w.schedule(g, func() bool { return c.closed || !c.full })
		if c.closed {
			panic(w.goPanicStr("send on closed channel"))
		}
		c.full, c.taken = true, false
		c.slot = v
		w.release(g, &c.clk)
		w.schedule(g, func() bool { return !c.full })
		g.clk.join(c.clk)
		return
	}
	w.schedule(g, func() bool { return c.closed || len(c.buf) < c.cap })
	if c.closed {
		panic(w.goPanicStr("send on closed channel"))
	}
	c.buf = append(c.buf, v)
	w.release(g, &c.clk)
}

func (w *Worker) chanRecv(g *G, c *ChanV, et types.Type) (Value, bool) {
	w.mcrNo("a channel")
	if c == nil {
		w.schedule(g, func() bool { return false })
	}
	c.waiting++
	w.schedule(g, func() bool { return c.closed || c.full || len(c.buf) > 0 })
	c.waiting--
	return w.chanTake(g, c, et)
}

func (w *Worker) chanTake(g *G, c *ChanV, et types.Type) (Value, bool) {
	g.clk.join(c.clk)
	if c.cap == 0 && c.full {
		v := c.slot
		c.full = false
		c.slot = nil
		w.release(g, &c.clk)
		return v, true
	}
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = append([]Value(nil), c.buf[1:]...)
		return v, true
	}
	return zero(et), false
}

func (w *Worker) chanClose(g *G, c *ChanV) {
	w.mcrNo("a channel")
	if c == nil {
		panic(w.goPanicStr("close of nil channel"))
	}
	w.schedule(g, nil)
	if c.closed {
		panic(w.goPanicStr("close of closed channel"))
	}
	c.closed = true
	w.release(g, &c.clk)
}

func (fr *frame) selectStmt(in *ssa.Select, ic *instr) Value {
	w, g := fr.w, fr.g
	w.mcrNo("select")
	n := len(in.States)
	chs := make([]*ChanV, n)
	vals := make([]Value, n)
	// operands: for each state Chan then Send
	oi := 0
	for i, s := range in.States {
		chs[i], _ = fr.get(&ic.ops[oi]).(*ChanV)
		oi++
		if s.Send != nil {
			vals[i] = fr.get(&ic.ops[oi])
			oi++
		} else if oi < len(ic.ops) && ic.ops[oi].k == kNone {
			oi++
		}
	}
	ready := func() []int {
		var r []int
		for i, s := range in.States {
			c := chs[i]
			if c == nil {
				continue
			}
			if s.Dir == types.SendOnly {
				if c.closed || c.cap > 0 && len(c.buf) < c.cap {
					r = append(r, i)
				}
				if c.cap == 0 && !c.closed && !c.full && c.waiting > 0 {
					r = append(r, i)
				}
			} else if c.closed || c.full || len(c.buf) > 0 {
				r = append(r, i)
			}
		}
		return r
	}
	var res Tuple
again:
	if in.Blocking {
		for i, s := range in.States {
			if s.Dir == types.RecvOnly && chs[i] != nil {
				chs[i].waiting++
			}
		}
		w.schedule(g, func() bool { return len(ready()) > 0 })
		for i, s := range in.States {
			if s.Dir == types.RecvOnly && chs[i] != nil {
				chs[i].waiting--
			}
		}
	} else {
		w.schedule(g, nil)
	}
	res = Tuple{u64(^uint64(0)), false}
	for _, s := range in.States {
		if s.Dir == types.RecvOnly {
			res = append(res, zero(s.Chan.Type().Underlying().(*types.Chan).Elem()))
		}
	}
	rd := ready()
	if len(rd) == 0 {
		return res
	}
	k := rd[w.chooseEnv(len(rd), "select")]
	res[0] = u64(uint64(k))
	s := in.States[k]
	if s.Dir == types.SendOnly {
		c := chs[k]
		if c.closed {
			panic(w.goPanicStr("send on closed channel"))
		}
		if c.cap == 0 {
			// handed to a receiver that waits, unless it turns elsewhere
			c.full, c.slot = true, vals[k]
			w.release(g, &c.clk)
			w.schedule(g, func() bool { return !c.full || c.waiting == 0 })
			if c.full {
				c.full, c.slot = false, nil
				goto again
			}
			g.clk.join(c.clk)
			return res
		}
		c.buf = append(c.buf, vals[k])
		w.release(g, &c.clk)
		return res
	}
	v, ok := w.chanTake(g, chs[k], s.Chan.Type().Underlying().(*types.Chan).Elem())
	res[1] = ok
	ri := 2
	for i := 0; i < k; i++ {
		if in.States[i].Dir == types.RecvOnly {
			ri++
		}
	}
	res[ri] = v
	return res
}
