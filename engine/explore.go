package main

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Dec is one decision on a path: which side of a branch was taken, which
// value a term was pinned to, which environment choice was made.
type Dec struct {
	val     uint64
	taken   bool
	implied bool
}

// Item is a pending path: a decision prefix and a model of its constraints.
type Item struct {
	prefix []Dec
	model  Model
	grp    *mcrGroup // schedules decided by the solver: the group, and the start of the schedule
	segs   []mcrSeg
	noMcr  bool
}

type Input struct {
	Name string
	Occ  int
	t    *Term
	val  uint64
	conc bool
}

type Obs struct {
	Label string
	v     Value
}

type trailEnt struct {
	addr *Value
	old  Value
	f    func()
}

// Run is the state of one path.
type Run struct {
	steps, maxSteps int64
	permMaps        bool
	prefix          []Dec
	pos             int
	decs            []Dec
	pc              []*Term
	known           map[*Term]bool
	pinned          map[*Term]uint64
	dom             map[*Term]*set256
	linked          map[*Term]bool // variables of multi-variable constraints
	model           Model
	memo            evalCache
	vars            []*Term
	names           map[string]int
	inputs          []Input
	obs             []Obs
	covers          []string
	notes           map[string]bool
	env             []string // environment choices made (schedule, map order)

	gs       []*G
	main     *G
	abort    any
	preempts int
	bound    int
	ss       *syncState
	spawned  bool
	deadline time.Time
	noRace   bool
	item     *Item
	mcr      *mcrRun
	newGrp   *mcrGroup
	order    []int // goroutine of each completed synchronisation of the code under test
}

type Worker struct {
	id        int
	ex        *Explorer
	p         *Prog
	tc        *TermCtx
	solver    *Solver
	solv      []*Term
	run       *Run
	globals   []*Value
	inited    []bool
	initDepth int
	initNotes []string
	trail     []trailEnt
	cov       map[*fnInfo]int64
	canonFast map[types.Type]types.Type
	canonM    typeutil.Map
	methods   map[mkey]*ssa.Function
	impls     map[implKey]bool
	raceOn    bool
	smaps     map[*Value]*MapV
	pools     map[*Value][]Value

	mcrSolv *mcrSolver

	mu    sync.Mutex
	items []Item

	inputBase any
}

type Violation struct {
	Harness string
	Label   string
	Msg     string
	Inputs  []InputVal
	Env     []string
	Trace   string
	Kind    string // assert panic race deadlock
	Obs     []ObsVal
	Confirm string
	Order   []int // see Run.order
}

type InputVal struct {
	Name string `json:"n"`
	Val  uint64 `json:"v"`
}
type ObsVal struct {
	Label string `json:"l"`
	Val   string `json:"v"`
}

type Sample struct {
	Inputs []InputVal
	Obs    []ObsVal
	Env    []string
	Why    string // unsupported paths: engine reason
}

// Explorer runs one harness over all its paths.
type Explorer struct {
	p        *Prog
	name     string
	fn       *ssa.Function
	cfg      Config
	workers  []*Worker
	pending  int64
	stop     int32
	deadline time.Time

	mu         sync.Mutex
	violations map[string]*Violation
	vioCount   map[string]int
	samples    []Sample
	unsup      []Sample
	nDone      int64
	nInfeas    int64
	nUnsup     int64
	nPaths     int64
	nDecide    int64
	nImplied   int64
	nChoice    int64
	nUnknown   int64
	nPre       int64
	nAssert    int64
	nAssertQ   int64
	steps      int64
	covers     map[string]int64
	labels     map[string]int64
	unsupWhy   map[string]int64
	dropped    int64
	rng        uint64
	notes      map[string]bool
	mcr        mcrStats
	mcrWhy     map[string]int64
}

type Config struct {
	Solver   string
	Timeout  int // ms per query
	Workers  int
	Time     time.Duration
	MaxPaths int64
	MaxSteps int64
	Samples  int
	Preempt  int
	Params   map[string]int64
	Debug    bool
}

func newWorker(p *Prog, id int) *Worker {
	return &Worker{id: id, p: p, tc: NewTermCtx(), inited: make([]bool, len(p.pkgIdx)), canonFast: map[types.Type]types.Type{}, methods: map[mkey]*ssa.Function{}, impls: map[implKey]bool{}, smaps: map[*Value]*MapV{}, pools: map[*Value][]Value{}}
}

func NewExplorer(p *Prog, fn *ssa.Function, cfg Config) *Explorer {
	return &Explorer{p: p, name: fn.Name(), fn: fn, cfg: cfg, violations: map[string]*Violation{}, vioCount: map[string]int{}, covers: map[string]int64{}, labels: map[string]int64{}, unsupWhy: map[string]int64{}, rng: 88172645463325252, notes: map[string]bool{}, mcrWhy: map[string]int64{}}
}

func (ex *Explorer) Run(workers []*Worker) {
	ex.workers = workers
	ex.deadline = time.Now().Add(ex.cfg.Time)
	ex.pending = 1
	for _, w := range workers {
		w.ex = ex
		w.items = nil
		w.cov = map[*fnInfo]int64{}
	}
	workers[0].items = []Item{{}}
	var wg sync.WaitGroup
	for _, w := range workers {
		wg.Add(1)
		go func(w *Worker) {
			defer wg.Done()
			w.loop()
		}(w)
	}
	wg.Wait()
	for _, w := range workers {
		ex.dropped += int64(len(w.items))
		w.items = nil
	}
}

func (w *Worker) popItem() (Item, bool) {
	w.mu.Lock()
	if n := len(w.items); n > 0 {
		it := w.items[n-1]
		w.items = w.items[:n-1]
		w.mu.Unlock()
		return it, true
	}
	w.mu.Unlock()
	for _, o := range w.ex.workers {
		if o == w {
			continue
		}
		o.mu.Lock()
		if n := len(o.items); n > 0 {
			it := o.items[0]
			o.items = append([]Item(nil), o.items[1:]...)
			o.mu.Unlock()
			return it, true
		}
		o.mu.Unlock()
	}
	return Item{}, false
}

func (w *Worker) pushItem(it Item) {
	atomic.AddInt64(&w.ex.pending, 1)
	w.mu.Lock()
	w.items = append(w.items, it)
	w.mu.Unlock()
}

func (w *Worker) loop() {
	ex := w.ex
	if w.solver == nil {
		s, err := NewSolver(ex.cfg.Solver, ex.cfg.Timeout)
		if err != nil {
			fmt.Fprintln(os.Stderr, "solver:", err)
			atomic.StoreInt32(&ex.stop, 1)
			return
		}
		w.solver = s
	}
	idle := 0
	for {
		if atomic.LoadInt32(&ex.stop) != 0 {
			return
		}
		it, ok := w.popItem()
		if !ok {
			if atomic.LoadInt64(&ex.pending) == 0 {
				return
			}
			idle++
			if idle > 20 {
				time.Sleep(50 * time.Microsecond)
			}
			continue
		}
		idle = 0
		if time.Now().After(ex.deadline) || atomic.LoadInt64(&ex.nPaths) >= ex.cfg.MaxPaths {
			atomic.AddInt64(&ex.dropped, 1)
			atomic.AddInt64(&ex.pending, -1)
			continue
		}
		w.runItem(it)
		atomic.AddInt64(&ex.pending, -1)
		if len(w.tc.tab) > 3000000 {
			w.syncTo(nil)
			w.tc = NewTermCtx()
		}
	}
}

func (w *Worker) undo() {
	for i := len(w.trail) - 1; i >= 0; i-- {
		e := &w.trail[i]
		if e.f != nil {
			e.f()
		} else {
			*e.addr = e.old
		}
	}
	w.trail = w.trail[:0]
}

func (w *Worker) runItem(it Item) {
	ex := w.ex
	atomic.AddInt64(&ex.nPaths, 1)
	m := make(Model, len(it.model)+8)
	for k, v := range it.model {
		m[k] = v
	}
	run := &Run{maxSteps: ex.cfg.MaxSteps, prefix: it.prefix, known: map[*Term]bool{}, pinned: map[*Term]uint64{}, dom: map[*Term]*set256{}, linked: map[*Term]bool{}, model: m, memo: evalCache{}, names: map[string]int{}, bound: ex.cfg.Preempt, ss: newSyncState(), deadline: ex.deadline, item: &it}
	if run.bound == mcrPreempt && it.noMcr {
		run.bound = 2
	}
	w.run = run
	w.raceOn = false
	g := &G{w: w, id: 0, resume: make(chan struct{}, 1), clk: vclock{1}}
	run.gs = []*G{g}
	run.main = g
	outcome := "done"
	why := ""
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			switch r := r.(type) {
			case abortPath:
				outcome = "abort"
				why = r.why
			case targetPanic:
				outcome = "panic"
				msg := w.panicMsg(g, r)
				w.violation("panic", "panic: "+msg, msg, run.model, r.trace)
			case engineError:
				outcome = "unsup"
				why = r.msg
				if g.top != nil {
					why += " @ " + g.top.fi.name
				}
				if os.Getenv("GOSYM_TRACE") != "" {
					why += "\n" + g.trace()
				}
			default:
				outcome = "unsup"
				why = fmt.Sprintf("engine: %v", r)
				if g.top != nil {
					why += " @ " + g.trace()
				}
				if ex.cfg.Debug {
					why += "\n" + string(debug.Stack())
				}
			}
		}()
		w.callFn(g, nil, ex.fn, nil, nil)
	}()
	w.killAll()
	atomic.AddInt64(&ex.steps, run.steps)
	if run.mcr != nil && outcome == "unsup" && strings.HasPrefix(why, "mcr:") {
		// the schedules of this path are enumerated instead
		run.mcr.grp.failed = why
		outcome = "mcr"
	}
	if run.mcr != nil && outcome != "mcr" {
		w.mcrFinish(outcome != "done")
		if outcome == "unsup" {
			run.mcr.grp.failed = why
		}
	}
	ex.mu.Lock()
	switch outcome {
	case "done":
		ex.nDone++
		for _, c := range run.covers {
			ex.covers[c]++
		}
		for n := range run.notes {
			ex.notes[n] = true
		}
		// reservoir of witnesses
		if ex.cfg.Samples > 0 {
			ex.rng ^= ex.rng << 13
			ex.rng ^= ex.rng >> 7
			ex.rng ^= ex.rng << 17
			if len(ex.samples) < ex.cfg.Samples {
				ex.samples = append(ex.samples, w.sample(run))
			} else if k := ex.rng % uint64(ex.nDone); k < uint64(ex.cfg.Samples) {
				ex.samples[k] = w.sample(run)
			}
		}
	case "abort":
		ex.nInfeas++
	case "unsup":
		ex.nUnsup++
		ex.unsupWhy[why]++
		if len(ex.unsup) < 400 {
			s := w.sample(run)
			s.Why = why
			ex.unsup = append(ex.unsup, s)
		}
	}
	ex.mu.Unlock()
	grp := run.newGrp
	w.undo()
	w.run = nil
	if grp != nil {
		w.mcrLoop(grp)
	}
}

func (w *Worker) panicMsg(g *G, p targetPanic) (s string) {
	s = "?"
	defer func() {
		if r := recover(); r != nil {
			s = "panic value of type " + fmt.Sprint(p.v)
		}
	}()
	ifc, ok := p.v.(Iface)
	if !ok {
		return fmt.Sprint(p.v)
	}
	if ifc.T == nil {
		return "nil"
	}
	if fn := w.methodByName(ifc.T, "Error"); fn != nil && ifc.T != w.p.rtErrT {
		v := w.callFn(g, g.top, fn, []Value{ifc.V}, nil)
		return w.show(v, w.run.model)
	}
	return w.show(ifc.V, w.run.model)
}

func (w *Worker) sample(run *Run) Sample {
	return Sample{Inputs: w.inputVals(run.model), Obs: w.obsVals(run.model), Env: run.env}
}

func (w *Worker) inputVals(m Model) []InputVal {
	var r []InputVal
	for _, in := range w.run.inputs {
		v := in.val
		if !in.conc {
			v = in.t.Eval(m, evalCache{})
		}
		r = append(r, InputVal{fmt.Sprintf("%s#%d", in.Name, in.Occ), v})
	}
	return r
}

func (w *Worker) obsVals(m Model) []ObsVal {
	var r []ObsVal
	for _, o := range w.run.obs {
		r = append(r, ObsVal{o.Label, w.show(o.v, m)})
	}
	return r
}

func (w *Worker) violation(kind, label, msg string, m Model, trace string) {
	ex := w.ex
	ex.mu.Lock()
	defer ex.mu.Unlock()
	ex.vioCount[label]++
	n := ex.vioCount[label]
	if n > 8 {
		return
	}
	key := fmt.Sprintf("%s~%d", label, n)
	ex.violations[key] = &Violation{Harness: ex.name, Label: label, Msg: msg, Inputs: w.inputVals(m), Env: append([]string(nil), w.run.env...), Trace: trace, Kind: kind, Obs: w.obsVals(m), Order: append([]int(nil), w.run.order...)}
}

// ---- solver interface ----

func (w *Worker) syncTo(pc []*Term) {
	n := 0
	for n < len(pc) && n < len(w.solv) && pc[n] == w.solv[n] {
		n++
	}
	w.solver.Pop(len(w.solv) - n)
	w.solv = w.solv[:n]
	for _, t := range pc[n:] {
		w.solver.Push(t)
		w.solv = append(w.solv, t)
	}
}

func (w *Worker) query(c *Term) (string, Model) {
	w.syncTo(w.run.pc)
	r, m, err := w.solver.Check(c, w.run.vars)
	if err != nil {
		// restart the solver once
		w.solver.Close()
		if e2 := w.solver.start(); e2 != nil {
			panic(engErr("solver restart failed: %v", e2))
		}
		w.solv = nil
		panic(engErr("solver error: %v", err))
	}
	if m != nil {
		// variables the solver never saw keep their current values
		for _, v := range w.run.vars {
			if _, ok := m[v.name]; !ok {
				m[v.name] = w.run.model[v.name]
			}
		}
	}
	return r, m
}

func (w *Worker) assertPC(c *Term) {
	if c.op == OConst {
		return
	}
	w.run.pc = append(w.run.pc, c)
	w.narrow(c)
	w.learn(c)
}

// narrow tracks, per byte variable, the values its one-variable constraints
// leave; other constraints only mark their variables as linked.
func (w *Worker) narrow(c *Term) {
	if c.sv != nil && c.sv.w <= 8 {
		d := w.domOf(c.sv)
		n := d.and(w.tc.truthSet(c), false)
		w.run.dom[c.sv] = &n
		return
	}
	for _, v := range w.tc.support(c) {
		w.run.linked[v] = true
	}
}

func (w *Worker) domOf(v *Term) *set256 {
	if d, ok := w.run.dom[v]; ok {
		return d
	}
	var d set256
	n := uint64(1)
	if v.w > 0 {
		n = mask(v.w)
	}
	for x := uint64(0); x <= n; x++ {
		d[x>>6] |= 1 << (x & 63)
	}
	w.run.dom[v] = &d
	return &d
}

// presolve settles a query over one byte variable from its remaining values.
func (w *Worker) presolve(c *Term) (string, Model) {
	if c.sv == nil || c.sv.w > 8 {
		return "", nil
	}
	x := w.domOf(c.sv).and(w.tc.truthSet(c), false)
	if x.empty() {
		atomic.AddInt64(&w.ex.nPre, 1)
		return "unsat", nil
	}
	if w.run.linked[c.sv] {
		return "", nil
	}
	atomic.AddInt64(&w.ex.nPre, 1)
	m := w.run.model.clone()
	m[c.sv.name] = x.first()
	return "sat", m
}

func (w *Worker) learn(c *Term) {
	k := w.run.known
	switch c.op {
	case ONot:
		k[c.a] = false
		if c.a.op == OOr {
			w.learn(w.tc.Not(c.a.a))
			w.learn(w.tc.Not(c.a.b))
		}
	case OAnd:
		k[c] = true
		w.learn(c.a)
		w.learn(c.b)
	case OEq:
		k[c] = true
		if c.b.op == OConst {
			w.run.pinned[c.a] = c.b.v
		}
	default:
		k[c] = true
	}
}

func (w *Worker) evalM(c *Term) uint64 { return c.Eval(w.run.model, w.run.memo) }

func (w *Worker) setModel(m Model) {
	w.run.model = m
	w.run.memo = evalCache{}
}

func (w *Worker) knownVal(c *Term) (bool, bool) {
	if c.op == OConst {
		return c.v == 1, true
	}
	if c.op == ONot {
		v, ok := w.run.known[c.a]
		return !v, ok
	}
	v, ok := w.run.known[c]
	return v, ok
}

// decide picks a side of a symbolic branch; the other side, when the solver
// finds it feasible, becomes a pending path.
func (w *Worker) decide(c *Term) bool {
	if v, ok := w.knownVal(c); ok {
		return v
	}
	if w.initDepth > 0 {
		panic(engErr("symbolic branch during package init"))
	}
	r, _ := w.branch(c, 0)
	return r
}

func (w *Worker) branch(c *Term, val uint64) (bool, bool) {
	run := w.run
	if run.pos < len(run.prefix) {
		d := run.prefix[run.pos]
		run.pos++
		run.decs = append(run.decs, d)
		x := c
		if !d.taken {
			x = w.tc.Not(c)
		}
		if d.implied {
			w.learn(x)
		} else {
			w.assertPC(x)
		}
		return d.taken, d.implied
	}
	if run.mcr != nil {
		// a branch on inputs while goroutines run: only when one side is feasible
		if r, _ := w.query(w.tc.Not(c)); r == "unsat" {
			w.learn(c)
			run.decs = append(run.decs, Dec{val: val, taken: true, implied: true})
			return true, true
		}
		if r, _ := w.query(c); r == "unsat" {
			w.learn(w.tc.Not(c))
			run.decs = append(run.decs, Dec{val: val, implied: true})
			return false, true
		}
		panic(engErr("mcr: branch on inputs while goroutines run"))
	}
	atomic.AddInt64(&w.ex.nDecide, 1)
	side := w.evalM(c) == 1
	mine := c
	if !side {
		mine = w.tc.Not(c)
	}
	other := w.tc.Not(mine)
	res, m := w.presolve(other)
	if res == "" {
		res, m = w.query(other)
	}
	d := Dec{val: val, taken: side}
	switch res {
	case "sat":
		p := make([]Dec, len(run.decs)+1)
		copy(p, run.decs)
		p[len(run.decs)] = Dec{val: val, taken: !side}
		w.pushItem(Item{prefix: p, model: m, noMcr: run.item.noMcr})
		run.decs = append(run.decs, d)
		w.assertPC(mine)
	case "unsat":
		atomic.AddInt64(&w.ex.nImplied, 1)
		d.implied = true
		run.decs = append(run.decs, d)
		w.learn(mine)
	default:
		atomic.AddInt64(&w.ex.nUnknown, 1)
		run.decs = append(run.decs, d)
		w.assertPC(mine)
	}
	return side, d.implied
}

// concretize forks over the feasible values of t.
func (w *Worker) concretize(t *Term) uint64 {
	if t.op == OConst {
		return t.v
	}
	if t.w == 0 {
		if w.decide(t) {
			return 1
		}
		return 0
	}
	run := w.run
	for n := 0; ; n++ {
		if n > 5000 {
			panic(engErr("concretize: too many values"))
		}
		if v, ok := run.pinned[t]; ok {
			return v
		}
		var v uint64
		if run.pos < len(run.prefix) {
			v = run.prefix[run.pos].val
		} else {
			v = w.evalM(t)
		}
		if w.initDepth > 0 {
			panic(engErr("symbolic value during package init"))
		}
		if ok, _ := w.branch(w.tc.Eq(t, w.tc.BV(t.w, v)), v); ok {
			run.pinned[t] = v
			return v
		}
	}
}

func (w *Worker) freshName(name string) (string, int) {
	name = sanitize(name)
	n := w.run.names[name]
	w.run.names[name] = n + 1
	return name, n
}

func sanitize(s string) string {
	ok := true
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.') {
			ok = false
		}
	}
	if ok {
		return s
	}
	b := []byte(s)
	for i, c := range b {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.') {
			b[i] = '_'
		}
	}
	return string(b)
}

// fresh makes a new input variable.
func (w *Worker) fresh(name string, wd uint8, def uint64) *Term {
	if w.initDepth > 0 {
		panic(engErr("symbolic input during package init"))
	}
	nm, occ := w.freshName(name)
	vn := fmt.Sprintf("%s!%d!%d", nm, occ, wd)
	t := w.tc.Var(vn, wd)
	w.run.vars = append(w.run.vars, t)
	if _, ok := w.run.model[vn]; !ok {
		w.run.model[vn] = def
	}
	w.run.inputs = append(w.run.inputs, Input{Name: nm, Occ: occ, t: t})
	return t
}

// choose picks one of n alternatives through a fresh selector variable: every
// value of the selector is feasible, so no query is needed to fork on it.
func (w *Worker) choose(name string, n int) int {
	if n <= 0 {
		panic(abortPath{"empty choice"})
	}
	if n == 1 {
		nm, occ := w.freshName(name)
		w.run.inputs = append(w.run.inputs, Input{Name: nm, Occ: occ, conc: true, val: 0})
		return 0
	}
	if w.run.mcr != nil {
		panic(engErr("mcr: input chosen while goroutines run"))
	}
	nm, occ := w.freshName(name)
	k := w.fork(nm, occ, n)
	w.run.inputs = append(w.run.inputs, Input{Name: nm, Occ: occ, conc: true, val: uint64(k)})
	return k
}

func (w *Worker) fork(nm string, occ, n int) int {
	run := w.run
	vn := fmt.Sprintf("%s!%d!c", nm, occ)
	var k uint64
	if run.pos < len(run.prefix) {
		k = run.prefix[run.pos].val
		run.decs = append(run.decs, run.prefix[run.pos])
		run.pos++
	} else {
		atomic.AddInt64(&w.ex.nChoice, 1)
		for i := n - 1; i >= 1; i-- {
			p := make([]Dec, len(run.decs)+1)
			copy(p, run.decs)
			p[len(run.decs)] = Dec{val: uint64(i), taken: true}
			w.pushItem(Item{prefix: p, model: run.model.clone(), noMcr: run.item.noMcr})
		}
		run.decs = append(run.decs, Dec{val: 0, taken: true})
	}
	t := w.tc.Var(vn, 16)
	run.vars = append(run.vars, t)
	run.model[vn] = k
	w.assertPC(w.tc.Eq(t, w.tc.BV(16, k)))
	return int(k)
}

func (m Model) clone() Model {
	r := make(Model, len(m))
	for k, v := range m {
		r[k] = v
	}
	return r
}

// chooseEnv is a choice of the environment (scheduler, map order).
func (w *Worker) chooseEnv(n int, what string) int {
	if n <= 1 {
		return 0
	}
	if w.run.mcr != nil {
		panic(engErr("mcr: choice of the environment (%s) while goroutines run", what))
	}
	nm, occ := w.freshName("env." + what)
	k := w.fork(nm, occ, n)
	w.run.env = append(w.run.env, fmt.Sprintf("%s:%d/%d", what, k, n))
	return k
}

// assume restricts the path; no fork.
func (w *Worker) assume(v Value) {
	switch c := v.(type) {
	case bool:
		if !c {
			panic(abortPath{"assume"})
		}
	case *Term:
		if k, ok := w.knownVal(c); ok {
			if !k {
				panic(abortPath{"assume"})
			}
			return
		}
		run := w.run
		if run.pos < len(run.prefix) {
			w.assertPC(c)
			return
		}
		if w.evalM(c) == 1 {
			w.assertPC(c)
			return
		}
		res, m := w.presolve(c)
		if res == "" {
			res, m = w.query(c)
		}
		switch res {
		case "sat":
			w.setModel(m)
			w.assertPC(c)
		case "unsat":
			panic(abortPath{"assume"})
		default:
			atomic.AddInt64(&w.ex.nUnknown, 1)
			panic(engErr("solver unknown on assume"))
		}
	default:
		panic(engErr("assume of %T", v))
	}
}

func (w *Worker) check(v Value, label string, detail func() string) {
	run := w.run
	if run.pos < len(run.prefix) {
		// checked when the prefix was first explored
		if b, ok := v.(bool); ok && !b {
			panic(abortPath{"assert false"})
		}
		if t, ok := v.(*Term); ok {
			if _, known := w.knownVal(t); !known {
				w.learn(t)
			}
		}
		return
	}
	atomic.AddInt64(&w.ex.nAssert, 1)
	w.ex.mu.Lock()
	w.ex.labels[label]++
	w.ex.mu.Unlock()
	bad := func(m Model) {
		w.violation("assert", label, detail(), m, w.curTrace())
		panic(abortPath{"violation"})
	}
	switch c := v.(type) {
	case bool:
		if !c {
			bad(run.model)
		}
	case *Term:
		if k, ok := w.knownVal(c); ok {
			if !k {
				bad(run.model)
			}
			return
		}
		if w.evalM(c) == 0 {
			bad(run.model)
		}
		atomic.AddInt64(&w.ex.nAssertQ, 1)
		res, m := w.query(w.tc.Not(c))
		switch res {
		case "sat":
			bad(m)
		case "unsat":
			w.learn(c)
		default:
			atomic.AddInt64(&w.ex.nUnknown, 1)
			panic(engErr("solver unknown on assertion %s", label))
		}
	}
}

func (w *Worker) curTrace() string {
	for _, g := range w.run.gs {
		if !g.done && g.top != nil {
			return g.trace()
		}
	}
	return ""
}

func sortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

var _ = strings.Join
