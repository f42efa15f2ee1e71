package main

import (
	"bufio"
	"fmt"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

// Schedules decided by the solver. A run of the program under one schedule
// gives a trace: what each goroutine did, and for each read of a variable that
// goroutines share, the write it read from. Over the events of a trace, the
// order and how far each goroutine gets become integer variables; program
// order, starting and joining, locks and reads are constraints on them; and a
// query asks for an executable prefix in which some read reads from another
// write than in every trace seen so far. A model is executed (it is the start
// of a new trace), and unsat for every trace means that every way the reads can
// be resolved, under any schedule, has been executed. Two more queries per
// trace ask for conflicting plain accesses that can come next to each other,
// and for a state in which every goroutine has ended or is blocked.

type mcrSrc struct{ g, raw int }

var mcrInit = mcrSrc{-1, 0}

type mcrAcc struct {
	v      int
	tag    any // which of the event's variables: the same in every trace
	rd, wr bool
	src    mcrSrc
}

const (
	evAcc    = iota // plain access
	evSync          // access through sync.Map, sync.Once, sync/atomic
	evLock          // also the writer's side of an RWMutex
	evUnlock        //
	evRLock         //
	evRUnlock
	evFork
	evDone
	evWait
)

type mcrEv struct {
	g, raw int
	kind   int
	v      int // lock or wait group
	child  int // of a fork
	acc    []mcrAcc
	rng    *MapV // looks at all entries
}

type mcrKey struct {
	m *MapV
	k string
}
type mcrLockKey struct{ p *Value }
type mcrWgKey struct{ p *Value }
type mcrWorld struct{}

// mcrSeg: goroutine g runs until it has done upto operations.
type mcrSeg struct{ g, upto int }

type mcrRun struct {
	segs  []mcrSeg
	seg   int
	missd int // segments that could not be followed
	vars  map[any]int
	last  map[int]mcrSrc
	evs   [][]mcrEv // per goroutine
	univ  map[*MapV][]string
	grp   *mcrGroup
}

type mcrTrace struct {
	evs     [][]mcrEv
	foreign []map[int][]mcrAcc // per goroutine, raw → reads of another's write
	bad     bool
}

// mcrGroup: the traces of one path up to the first go statement.
type mcrGroup struct {
	prefix []Dec
	model  Model
	traces []*mcrTrace
	cur    int
	open   bool
	enc    *mcrEnc
	done   int        // blocks of traces already asserted
	extra  [][]mcrSeg // schedules into races and deadlocks
	failed string
}

type mcrStats struct {
	groups, classes, queries, sat, unsat, unknown, missed int64
	ns                                                    int64
	fallback                                              int64
	maxEv                                                 int64
}

func (w *Worker) mcrOn(g *G) bool {
	return w.run != nil && w.run.mcr != nil && w.initDepth == 0 && g != nil && g.id >= 0 && !g.inModel()
}

func (mc *mcrRun) id(k any) int {
	v, ok := mc.vars[k]
	if !ok {
		v = len(mc.vars)
		mc.vars[k] = v
	}
	return v
}

// mcrStart: the first go statement of the path.
func (w *Worker) mcrStart() {
	run := w.run
	it := run.item
	grp := it.grp
	if grp == nil {
		grp = &mcrGroup{prefix: append([]Dec(nil), run.decs...), model: run.model.clone()}
		run.newGrp = grp
	}
	run.mcr = &mcrRun{segs: it.segs, vars: map[any]int{}, last: map[int]mcrSrc{}, univ: map[*MapV][]string{}, grp: grp}
}

// mcrPick says which goroutine does its next operation. g is at one itself.
func (w *Worker) mcrPick(g *G) *G {
	run, mc := w.run, w.run.mcr
	can := func(x *G) bool { return !x.done && (x.enabled == nil || x.enabled()) }
	for mc.seg < len(mc.segs) {
		s := mc.segs[mc.seg]
		if s.g >= len(run.gs) {
			mc.missd++
			mc.seg++
			continue
		}
		x := run.gs[s.g]
		if x.raw >= s.upto || x.done {
			if x.raw < s.upto {
				mc.missd++
			}
			mc.seg++
			continue
		}
		if can(x) {
			return x
		}
		// it arrives and has to wait
		if x.onBlock != nil {
			x.onBlock()
		}
		mc.seg++
	}
	if g != nil && can(g) {
		return g
	}
	if g != nil && g.onBlock != nil {
		g.onBlock()
	}
	for _, x := range run.gs {
		if can(x) {
			return x
		}
	}
	return nil
}

// mcrPoint comes before each operation that another goroutine can notice.
func (w *Worker) mcrPoint(g *G, block func() bool) {
	run := w.run
	g.enabled = block
	for {
		to := w.mcrPick(g)
		if to == nil {
			w.deadlock()
		}
		if to == g {
			break
		}
		to.resume <- struct{}{}
		<-g.resume
		if g.killed {
			panic(killG{})
		}
		if g == run.main && run.abort != nil {
			panic(run.abort)
		}
	}
	g.enabled = nil
	g.raw++
}

func (w *Worker) mcrEvent(g *G, e mcrEv) {
	mc := w.run.mcr
	e.g, e.raw = g.id, g.raw-1
	for i := range e.acc {
		a := &e.acc[i]
		if a.rd {
			s, ok := mc.last[a.v]
			if !ok {
				s = mcrInit
			}
			a.src = s
		}
	}
	for _, a := range e.acc {
		if a.wr {
			mc.last[a.v] = mcrSrc{e.g, e.raw}
		}
	}
	for len(mc.evs) <= g.id {
		mc.evs = append(mc.evs, nil)
	}
	mc.evs[g.id] = append(mc.evs[g.id], e)
}

func (w *Worker) mcrLeaves(p *Value, write bool, out *[]mcrAcc) {
	switch v := (*p).(type) {
	case Struct:
		for i := range v {
			w.mcrLeaves(&v[i], write, out)
		}
		return
	case Array:
		for i := range v {
			w.mcrLeaves(&v[i], write, out)
		}
		return
	}
	*out = append(*out, mcrAcc{v: w.run.mcr.id(p), tag: len(*out), rd: !write, wr: write})
}

func (w *Worker) mcrCell(g *G, p *Value, write bool) {
	w.mcrPoint(g, nil)
	var acc []mcrAcc
	w.mcrLeaves(p, write, &acc)
	w.mcrEvent(g, mcrEv{kind: evAcc, acc: acc})
}

func (w *Worker) mcrMap(g *G, m *MapV, write bool) {
	w.mcrPoint(g, nil)
	// writing one key leaves the others: a write of a map reads it, too
	w.mcrEvent(g, mcrEv{kind: evAcc, acc: []mcrAcc{{v: w.run.mcr.id(m), rd: true, wr: write}}})
}

// mcrSync records an access of a synchronised variable; its point has passed.
func (w *Worker) mcrSync(g *G, k any, rd, wr bool) {
	if !w.mcrOn(g) {
		return
	}
	w.mcrEvent(g, mcrEv{kind: evSync, acc: []mcrAcc{{v: w.run.mcr.id(k), rd: rd, wr: wr}}})
}

func (w *Worker) mcrLockEv(g *G, kind int, p *Value) {
	if !w.mcrOn(g) {
		return
	}
	w.mcrEvent(g, mcrEv{kind: kind, v: w.run.mcr.id(mcrLockKey{p})})
}

// mcrKeyOf names the entry of a sync.Map.
func (w *Worker) mcrKeyOf(m *MapV, k Value) mcrKey {
	var sb strings.Builder
	if !w.keyString(k, &sb) || m.symb > 0 {
		panic(engErr("mcr: a key of a shared sync.Map is not concrete"))
	}
	s := sb.String()
	mc := w.run.mcr
	for _, u := range mc.univ[m] {
		if u == s {
			return mcrKey{m, s}
		}
	}
	mc.univ[m] = append(mc.univ[m], s)
	return mcrKey{m, s}
}

func (w *Worker) mcrMapKey(g *G, m *MapV, k Value, rd, wr bool) {
	if !w.mcrOn(g) {
		return
	}
	w.mcrSync(g, w.mcrKeyOf(m, k), rd, wr)
}

// mcrMapAll: a Range looks which entries there are. Entries that first appear
// later in the trace count as looked at, too; mcrFinish adds them.
func (w *Worker) mcrMapAll(g *G, m *MapV) {
	if !w.mcrOn(g) {
		return
	}
	mc := w.run.mcr
	var acc []mcrAcc
	for _, s := range mc.univ[m] {
		acc = append(acc, mcrAcc{v: mc.id(mcrKey{m, s}), tag: s, rd: true})
	}
	w.mcrEvent(g, mcrEv{kind: evSync, acc: acc, rng: m})
}

type mcrPath struct{ p, what string }

// mcrFS: a call of the file system. The entries it looks at or changes are
// variables; a call that removes a tree changes what every call looks at.
func (w *Worker) mcrFS(g *G, name string, args []Value) {
	mc := w.run.mcr
	ev := mcrEv{kind: evSync}
	add := func(p, what string, wr bool) {
		ev.acc = append(ev.acc, mcrAcc{v: mc.id(mcrPath{p, what}), tag: len(ev.acc), rd: true, wr: wr})
	}
	switch {
	case strings.HasPrefix(name, "Os_"):
		if len(args) == 0 || name == "Os_SameFile" {
			return
		}
		p, ok := args[0].(string)
		if !ok {
			panic(engErr("mcr: a path is not concrete while goroutines run"))
		}
		p = strings.TrimSuffix(p, "/")
		up := p
		if i := strings.LastIndexByte(p, '/'); i >= 0 {
			up = p[:i]
		}
		w.mcrPoint(g, nil)
		switch name {
		case "Os_Open", "Os_Stat", "Os_Lstat", "Os_Readlink", "Os_ReadFile":
			add("", "tree", false)
			add(p, "", false)
		case "Os_ReadDir":
			add("", "tree", false)
			add(p, "list", false)
		case "Os_Create", "Os_OpenFile", "Os_Mkdir", "Os_Symlink", "Os_Chmod", "Os_Chtimes", "Os_WriteFile", "Os_Truncate":
			add("", "tree", false)
			add(p, "", true)
			add(up, "list", true)
		case "Os_MkdirAll":
			add("", "tree", false)
			for q := p; q != ""; {
				add(q, "", true)
				add(q, "list", true)
				i := strings.LastIndexByte(q, '/')
				if i < 0 {
					break
				}
				q = q[:i]
			}
		case "Os_Getwd":
			add("", "cwd", false)
		case "Os_Chdir":
			add("", "cwd", true)
			add("", "tree", true)
		default:
			add("", "tree", true)
			add(p, "", true)
			add(up, "list", true)
		}
	case strings.HasPrefix(name, "File_Read"), strings.HasPrefix(name, "File_Stat"):
		w.mcrPoint(g, nil)
		add("", "tree", false)
		add("", "data", false)
	case strings.HasPrefix(name, "File_Write"), strings.HasPrefix(name, "File_Trunc"):
		w.mcrPoint(g, nil)
		add("", "tree", false)
		add("", "data", true)
	case name == "Here_run":
		w.mcrPoint(g, nil)
		add("", "tree", false)
		add("", "cwd", false)
	default:
		return
	}
	w.mcrEvent(g, ev)
}

// mcrFinish takes the trace of a finished run.
func (w *Worker) mcrFinish(bad bool) {
	mc := w.run.mcr
	t := &mcrTrace{evs: mc.evs, bad: bad}
	for len(t.evs) < len(w.run.gs) {
		t.evs = append(t.evs, nil)
	}
	for gi := range t.evs {
		f := map[int][]mcrAcc{}
		for i := range t.evs[gi] {
			e := &t.evs[gi][i]
			if e.rng != nil {
				for _, s := range mc.univ[e.rng][len(e.acc):] {
					e.acc = append(e.acc, mcrAcc{v: mc.id(mcrKey{e.rng, s}), tag: s, rd: true, src: mcrInit})
				}
			}
			for _, a := range e.acc {
				if a.rd && a.src.g >= 0 && a.src.g != gi {
					f[e.raw] = append(f[e.raw], a)
				}
			}
		}
		t.foreign = append(t.foreign, f)
	}
	mc.grp.traces = append(mc.grp.traces, t)
	st := &w.ex.mcr
	atomic.AddInt64(&st.classes, 1)
	atomic.AddInt64(&st.missed, int64(mc.missd))
}

// ---- the encoding of one trace ----

type mcrNode struct {
	e    *mcrEv
	i    int // number: its order variable
	pos  int // among the kept events of its goroutine
	own  map[int]mcrSrc
	rel  *mcrNode // of an acquisition: its release
	acc  []mcrAcc // of kept variables
	plai bool
}

type mcrEnc struct {
	t     *mcrTrace
	nodes []*mcrNode
	by    [][]*mcrNode // per goroutine
	at    map[mcrSrc]*mcrNode
	wr    map[int][]*mcrNode // writes by variable
	orph  []*mcrNode         // releases of locks that were held before
}

func mcrEncode(t *mcrTrace) *mcrEnc {
	en := &mcrEnc{t: t, at: map[mcrSrc]*mcrNode{}, wr: map[int][]*mcrNode{}}
	// variables of at least two goroutines, written by at least one of them
	type use struct {
		gs map[int]bool
		wr bool
	}
	uses := map[int]*use{}
	locks := map[int]map[int]bool{}
	for gi := range t.evs {
		for i := range t.evs[gi] {
			e := &t.evs[gi][i]
			for _, a := range e.acc {
				u := uses[a.v]
				if u == nil {
					u = &use{gs: map[int]bool{}}
					uses[a.v] = u
				}
				u.gs[gi] = true
				u.wr = u.wr || a.wr
			}
			if e.kind >= evLock && e.kind <= evRUnlock {
				if locks[e.v] == nil {
					locks[e.v] = map[int]bool{}
				}
				locks[e.v][gi] = true
			}
		}
	}
	for gi := range t.evs {
		var ns []*mcrNode
		own := map[int]mcrSrc{}
		held := map[int][]*mcrNode{}
		for i := range t.evs[gi] {
			e := &t.evs[gi][i]
			n := &mcrNode{e: e, own: map[int]mcrSrc{}, plai: e.kind == evAcc}
			keep := e.kind >= evFork || e.kind >= evLock && len(locks[e.v]) > 1
			for _, a := range e.acc {
				if u := uses[a.v]; len(u.gs) > 1 && u.wr {
					n.acc = append(n.acc, a)
					keep = true
					if a.rd {
						s, ok := own[a.v]
						if !ok {
							s = mcrInit
						}
						n.own[a.v] = s
					}
				}
			}
			for _, a := range n.acc {
				if a.wr {
					own[a.v] = mcrSrc{gi, e.raw}
				}
			}
			if !keep {
				continue
			}
			n.i, n.pos = len(en.nodes), len(ns)
			en.nodes = append(en.nodes, n)
			ns = append(ns, n)
			en.at[mcrSrc{gi, e.raw}] = n
			for _, a := range n.acc {
				if a.wr {
					en.wr[a.v] = append(en.wr[a.v], n)
				}
			}
			switch e.kind {
			case evLock, evRLock:
				held[e.v] = append(held[e.v], n)
			case evUnlock, evRUnlock:
				ok := false
				for k := len(held[e.v]) - 1; k >= 0; k-- {
					if h := held[e.v][k]; h.rel == nil && (h.e.kind == evLock) == (e.kind == evUnlock) {
						h.rel = n
						ok = true
						break
					}
				}
				if !ok {
					en.orph = append(en.orph, n)
				}
			}
		}
		en.by = append(en.by, ns)
	}
	return en
}

func (n *mcrNode) o() string { return "o" + strconv.Itoa(n.i) }

// inc: the event is in the prefix.
func (n *mcrNode) inc() string { return fmt.Sprintf("(> c%d %d)", n.e.g, n.pos) }

// next: it is the next one of its goroutine.
func (n *mcrNode) next() string { return fmt.Sprintf("(= c%d %d)", n.e.g, n.pos) }

func (n *mcrNode) is() string { return fmt.Sprintf("(= wh %d)", n.i) }

func smtAnd(x []string) string {
	switch len(x) {
	case 0:
		return "true"
	case 1:
		return x[0]
	}
	return "(and " + strings.Join(x, " ") + ")"
}

func smtOr(x []string) string {
	switch len(x) {
	case 0:
		return "false"
	case 1:
		return x[0]
	}
	return "(or " + strings.Join(x, " ") + ")"
}

// reads: n's read of v comes from s.
func (en *mcrEnc) reads(n *mcrNode, v int, s mcrSrc) string {
	var x []string
	var src *mcrNode
	if s.g >= 0 {
		src = en.at[s]
		if src == nil {
			return "false"
		}
		w := false
		for _, a := range src.acc {
			w = w || a.v == v && a.wr
		}
		if !w {
			return "false"
		}
		x = append(x, src.inc(), "(< "+src.o()+" "+n.o()+")")
	}
	for _, o := range en.wr[v] {
		if o == n || o == src {
			continue
		}
		y := []string{"(not " + o.inc() + ")", "(> " + o.o() + " " + n.o() + ")"}
		if src != nil {
			y = append(y, "(< "+o.o()+" "+src.o()+")")
		}
		x = append(x, smtOr(y))
	}
	return smtAnd(x)
}

// base: what every executable prefix satisfies whose reads, but for the one
// that wh names, read as in the trace.
func (en *mcrEnc) base(which bool) []string {
	var r []string
	as := func(f string, a ...any) { r = append(r, "(assert "+fmt.Sprintf(f, a...)+")") }
	for g, ns := range en.by {
		r = append(r, fmt.Sprintf("(declare-const c%d Int)", g))
		as("(and (>= c%d 0) (<= c%d %d))", g, g, len(ns))
	}
	for _, n := range en.nodes {
		r = append(r, "(declare-const "+n.o()+" Int)")
	}
	r = append(r, "(declare-const wh Int)")
	for _, ns := range en.by {
		for i := 1; i < len(ns); i++ {
			as("(< %s %s)", ns[i-1].o(), ns[i].o())
		}
	}
	// starting, joining
	for _, n := range en.nodes {
		switch n.e.kind {
		case evFork:
			if n.e.child < len(en.by) && len(en.by[n.e.child]) > 0 {
				k := en.by[n.e.child][0]
				as("(=> %s (and %s (< %s %s)))", k.inc(), n.inc(), n.o(), k.o())
			}
		case evWait:
			for _, d := range en.nodes {
				if d.e.kind == evDone && d.e.v == n.e.v && d.e.g != n.e.g {
					as("(=> %s (and %s (< %s %s)))", n.inc(), d.inc(), d.o(), n.o())
				}
			}
		}
	}
	// locks
	for i, a := range en.nodes {
		if a.e.kind != evLock && a.e.kind != evRLock {
			continue
		}
		for _, b := range en.nodes[i+1:] {
			if b.e.kind != evLock && b.e.kind != evRLock || b.e.v != a.e.v || b.e.g == a.e.g || a.e.kind == evRLock && b.e.kind == evRLock {
				continue
			}
			before := func(x, y *mcrNode) string {
				if x.rel == nil {
					return "false"
				}
				return "(and " + x.rel.inc() + " (< " + x.rel.o() + " " + y.o() + "))"
			}
			as("(=> (and %s %s) (or %s %s))", a.inc(), b.inc(), before(a, b), before(b, a))
		}
	}
	for _, u := range en.orph {
		for _, b := range en.nodes {
			if b.e.v == u.e.v && b.e.g != u.e.g && (b.e.kind == evLock || b.e.kind == evRLock && u.e.kind == evUnlock) {
				as("(=> %s (and %s (< %s %s)))", b.inc(), u.inc(), u.o(), b.o())
			}
		}
	}
	// conflicting accesses do not coincide
	seen := map[[2]int]bool{}
	for v, ws := range en.wr {
		for _, a := range ws {
			for _, n := range en.nodes {
				if n.e.g == a.e.g {
					continue
				}
				for _, x := range n.acc {
					k := [2]int{min(a.i, n.i), max(a.i, n.i)}
					if x.v == v && !seen[k] {
						seen[k] = true
						as("(not (= %s %s))", a.o(), n.o())
					}
				}
			}
		}
	}
	// reads
	for _, n := range en.nodes {
		var x []string
		for _, a := range n.acc {
			if a.rd {
				x = append(x, en.reads(n, a.v, a.src))
			}
		}
		if len(x) == 0 {
			if which {
				as("(not %s)", n.is())
			}
			continue
		}
		c := smtAnd(x)
		if !which {
			as("(=> %s %s)", n.inc(), c)
			continue
		}
		if c == "true" {
			as("(not %s)", n.is())
			continue
		}
		as("(=> (and %s (not %s)) %s)", n.inc(), n.is(), c)
		y := []string{fmt.Sprintf("(= c%d %d)", n.e.g, n.pos+1), "(not " + c + ")"}
		for g, ns := range en.by {
			if g == n.e.g || len(ns) == 0 {
				continue
			}
			for _, o := range ns {
				y = append(y, fmt.Sprintf("(=> %s (< %s %s))", o.inc(), o.o(), n.o()))
			}
		}
		as("(=> %s %s)", n.is(), smtAnd(y))
	}
	if which {
		as("(and (>= wh 0) (< wh %d))", len(en.nodes))
	}
	return r
}

// block: the prefix is not one of trace t2.
func (en *mcrEnc) block(t2 *mcrTrace) string {
	var x []string
	for g, ns := range en.by {
		// the first operation of g that reads differently in t2
		first := -1
		diff := func(raw int, a, b []mcrAcc) {
			if first >= 0 && raw >= first {
				return
			}
			m := map[any]mcrSrc{}
			for _, y := range a {
				m[y.tag] = y.src
			}
			eq := len(a) == len(b)
			for _, y := range b {
				s, ok := m[y.tag]
				eq = eq && ok && s == y.src
			}
			if !eq {
				first = raw
			}
		}
		var f2 map[int][]mcrAcc
		if g < len(t2.foreign) {
			f2 = t2.foreign[g]
		}
		for raw, a := range en.t.foreign[g] {
			diff(raw, a, f2[raw])
		}
		for raw, b := range f2 {
			diff(raw, en.t.foreign[g][raw], b)
		}
		for _, n := range ns {
			if first < 0 || n.e.raw < first {
				// as in t2: if this is the read that differs, it differs there, too
				x = append(x, n.is())
				continue
			}
			if n.e.raw > first {
				// an operation before this one differs
				x = append(x, n.inc())
				break
			}
			x = append(x, "(and "+n.inc()+" (not "+n.is()+"))")
			var y []string
			known := map[any]bool{}
			for _, a := range n.acc {
				if !a.rd {
					continue
				}
				s := n.own[a.v]
				for _, b := range f2[n.e.raw] {
					if b.tag == a.tag {
						s = b.src
					}
				}
				known[a.tag] = true
				y = append(y, en.reads(n, a.v, s))
			}
			same := smtAnd(y)
			for _, b := range f2[n.e.raw] {
				if !known[b.tag] {
					same = "false"
				}
			}
			x = append(x, "(and "+n.is()+" (not "+same+"))")
			// what follows is not reached unless this one reads as here
		}
	}
	return "(assert " + smtOr(x) + ")"
}

// races: two conflicting plain accesses can come next to each other.
func (en *mcrEnc) races() ([][2]*mcrNode, string) {
	var ps [][2]*mcrNode
	var x []string
	seen := map[[2]int]bool{}
	for v, ws := range en.wr {
		for _, a := range ws {
			if !a.plai {
				continue
			}
			for _, n := range en.nodes {
				if !n.plai || n.e.g == a.e.g {
					continue
				}
				for _, y := range n.acc {
					k := [2]int{min(a.i, n.i), max(a.i, n.i)}
					if y.v == v && !seen[k] {
						seen[k] = true
						ps = append(ps, [2]*mcrNode{a, n})
						x = append(x, fmt.Sprintf("(and %s %s (= wh %d) %s %s)", a.next(), n.next(), len(ps)-1, en.started(a.e.g), en.started(n.e.g)))
					}
				}
			}
		}
	}
	if len(ps) == 0 {
		return nil, ""
	}
	return ps, "(assert " + smtOr(x) + ")"
}

// started: goroutine g has been started in the prefix.
func (en *mcrEnc) started(g int) string {
	for _, n := range en.nodes {
		if n.e.kind == evFork && n.e.child == g {
			return n.inc()
		}
	}
	return "true"
}

// stuck: every goroutine has ended, was not started or is blocked, one at a lock.
func (en *mcrEnc) stuck() string {
	var all, some []string
	locks := 0
	for g, ns := range en.by {
		y := []string{fmt.Sprintf("(= c%d %d)", g, len(ns))}
		if st := en.started(g); st != "true" {
			y = append(y, "(not "+st+")")
		}
		for _, n := range ns {
			switch n.e.kind {
			case evLock, evRLock:
				locks++
				var h []string
				for _, a := range en.nodes {
					if a == n || a.e.v != n.e.v || a.e.kind != evLock && a.e.kind != evRLock {
						continue
					}
					if a.e.kind == evRLock && n.e.kind == evRLock {
						continue
					}
					if a.e.g == g && a.pos > n.pos {
						continue
					}
					held := a.inc()
					if a.rel != nil {
						held = "(and " + held + " (not " + a.rel.inc() + "))"
					}
					h = append(h, held)
					// a writer that waits keeps readers out
					if n.e.kind == evRLock && a.e.kind == evLock && a.e.g != g {
						h = append(h, "(and "+a.next()+" "+en.started(a.e.g)+")")
					}
				}
				b := "(and " + n.next() + " " + en.started(g) + " " + smtOr(h) + ")"
				y = append(y, b)
				some = append(some, b)
			case evWait:
				var d []string
				for _, x := range en.nodes {
					if x.e.kind == evDone && x.e.v == n.e.v && x.e.g != g {
						d = append(d, "(not "+x.inc()+")")
					}
				}
				y = append(y, "(and "+n.next()+" "+smtOr(d)+")")
			}
		}
		all = append(all, smtOr(y))
	}
	if locks < 2 {
		return ""
	}
	return "(assert (and " + smtAnd(all) + " " + smtOr(some) + "))"
}

// segs turns a model into a schedule.
func (en *mcrEnc) segs(m map[string]int, after ...*mcrNode) []mcrSeg {
	var ns []*mcrNode
	for _, n := range en.nodes {
		if m[fmt.Sprintf("c%d", n.e.g)] > n.pos {
			ns = append(ns, n)
		}
	}
	sort.SliceStable(ns, func(i, j int) bool { return m[ns[i].o()] < m[ns[j].o()] })
	ns = append(ns, after...)
	var r []mcrSeg
	for _, n := range ns {
		if k := len(r) - 1; k >= 0 && r[k].g == n.e.g {
			r[k].upto = n.e.raw + 1
			continue
		}
		r = append(r, mcrSeg{n.e.g, n.e.raw + 1})
	}
	return r
}

// ---- the solver ----

type mcrSolver struct {
	cmd *exec.Cmd
	in  *bufio.Writer
	out *bufio.Reader
}

func newMcrSolver(bin string, timeout int) (*mcrSolver, error) {
	s := &mcrSolver{cmd: exec.Command(bin, "-in")}
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := s.cmd.Start(); err != nil {
		return nil, err
	}
	s.in, s.out = bufio.NewWriterSize(in, 1<<16), bufio.NewReaderSize(out, 1<<16)
	s.say(fmt.Sprintf("(set-option :timeout %d)", timeout))
	return s, nil
}

func (s *mcrSolver) close() {
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

func (s *mcrSolver) say(x string) {
	s.in.WriteString(x)
	s.in.WriteByte('\n')
}

func (s *mcrSolver) line() string {
	s.in.Flush()
	l, err := s.out.ReadString('\n')
	if err != nil {
		panic(engErr("mcr: the solver died: %v", err))
	}
	return strings.TrimSpace(l)
}

func (w *Worker) mcrCheck(en *mcrEnc) (string, map[string]int) {
	s, st := w.mcrSolv, &w.ex.mcr
	t0 := time.Now()
	s.say("(check-sat)")
	r := s.line()
	atomic.AddInt64(&st.queries, 1)
	var m map[string]int
	switch r {
	case "sat":
		atomic.AddInt64(&st.sat, 1)
		m = map[string]int{}
		names := []string{"wh"}
		for g := range en.by {
			names = append(names, fmt.Sprintf("c%d", g))
		}
		for _, n := range en.nodes {
			names = append(names, n.o())
		}
		s.say("(get-value (" + strings.Join(names, " ") + "))")
		s.in.Flush()
		depth := 0
		var sb strings.Builder
		for {
			b, err := s.out.ReadByte()
			if err != nil {
				panic(engErr("mcr: the solver died: %v", err))
			}
			if b == '(' {
				depth++
			}
			if b == ')' {
				depth--
			}
			sb.WriteByte(b)
			if depth == 0 && b == ')' {
				break
			}
		}
		s.out.ReadString('\n')
		tk := strings.Fields(strings.NewReplacer("(", " ", ")", " ").Replace(sb.String()))
		for i := 0; i+1 < len(tk); {
			name := tk[i]
			neg := 1
			i++
			if tk[i] == "-" {
				neg = -1
				i++
			}
			v, err := strconv.Atoi(tk[i])
			if err != nil {
				panic(engErr("mcr: the solver said %s", sb.String()))
			}
			m[name] = neg * v
			i++
		}
	case "unsat":
		atomic.AddInt64(&st.unsat, 1)
	case "unknown", "timeout":
		atomic.AddInt64(&st.unknown, 1)
		r = "unknown"
	default:
		panic(engErr("mcr: the solver said %s", r))
	}
	atomic.AddInt64(&st.ns, int64(time.Since(t0)))
	return r, m
}

// mcrNext: the next schedule of the group to execute.
func (w *Worker) mcrNext(grp *mcrGroup) ([]mcrSeg, bool) {
	if w.mcrSolv == nil {
		s, err := newMcrSolver(w.ex.cfg.Solver, w.ex.cfg.Timeout)
		if err != nil {
			panic(engErr("mcr: %v", err))
		}
		w.mcrSolv = s
	}
	s := w.mcrSolv
	for grp.cur < len(grp.traces) {
		t := grp.traces[grp.cur]
		if t.bad {
			grp.cur++
			continue
		}
		if !grp.open {
			grp.open = true
			grp.done = 0
			grp.enc = mcrEncode(t)
			if n := int64(len(grp.enc.nodes)); n > atomic.LoadInt64(&w.ex.mcr.maxEv) {
				atomic.StoreInt64(&w.ex.mcr.maxEv, n)
			}
			// races and deadlocks along this trace
			base := grp.enc.base(false)
			ps, q := grp.enc.races()
			dq := grp.enc.stuck()
			if q != "" || dq != "" {
				s.say("(push 1)")
				for _, x := range base {
					s.say(x)
				}
				var seeds [][]mcrSeg
				if q != "" {
					s.say("(push 1)")
					s.say(q)
					r, m := w.mcrCheck(grp.enc)
					if r == "sat" {
						p := ps[m["wh"]]
						seeds = append(seeds, grp.enc.segs(m, p[0], p[1]))
					} else if r == "unknown" {
						grp.failed = "race query unknown"
					}
					s.say("(pop 1)")
				}
				if dq != "" {
					s.say("(push 1)")
					s.say(dq)
					r, m := w.mcrCheck(grp.enc)
					if r == "sat" {
						var ws, rs []*mcrNode
						for g, ns := range grp.enc.by {
							c := m[fmt.Sprintf("c%d", g)]
							if c >= len(ns) {
								continue
							}
							if ns[c].e.kind == evLock {
								ws = append(ws, ns[c])
							} else {
								rs = append(rs, ns[c])
							}
						}
						seeds = append(seeds, grp.enc.segs(m, append(ws, rs...)...))
					} else if r == "unknown" {
						grp.failed = "deadlock query unknown"
					}
					s.say("(pop 1)")
				}
				s.say("(pop 1)")
				for _, sg := range seeds {
					grp.extra = append(grp.extra, sg)
				}
			}
			s.say("(push 1)")
			for _, x := range grp.enc.base(true) {
				s.say(x)
			}
		}
		if n := len(grp.extra); n > 0 {
			x := grp.extra[n-1]
			grp.extra = grp.extra[:n-1]
			return x, true
		}
		for ; grp.done < len(grp.traces); grp.done++ {
			if grp.done != grp.cur {
				s.say(grp.enc.block(grp.traces[grp.done]))
			}
		}
		if len(grp.enc.nodes) > 0 {
			r, m := w.mcrCheck(grp.enc)
			if r == "sat" {
				return grp.enc.segs(m), true
			}
			if r == "unknown" {
				grp.failed = "expansion query unknown"
			}
		}
		s.say("(pop 1)")
		grp.open = false
		grp.cur++
	}
	return nil, false
}

// mcrLoop explores the schedules of a path whose first run just ended.
func (w *Worker) mcrLoop(grp *mcrGroup) {
	ex := w.ex
	atomic.AddInt64(&ex.mcr.groups, 1)
	defer func() {
		if r := recover(); r != nil {
			e, ok := r.(engineError)
			if !ok {
				panic(r)
			}
			grp.failed = e.msg
			if w.mcrSolv != nil {
				w.mcrSolv.close()
				w.mcrSolv = nil
			}
		} else if grp.open {
			w.mcrSolv.say("(pop 1)")
		}
		if grp.failed != "" {
			w.mcrFallback(grp, grp.failed)
		}
	}()
	for {
		if time.Now().After(ex.deadline) || atomic.LoadInt32(&ex.stop) != 0 {
			atomic.AddInt64(&ex.dropped, 1)
			return
		}
		segs, ok := w.mcrNext(grp)
		if !ok {
			return
		}
		w.runItem(Item{prefix: grp.prefix, model: grp.model, grp: grp, segs: segs})
		if grp.failed != "" {
			return
		}
	}
}

// mcrFallback: the schedules of the path are enumerated up to a bound instead.
func (w *Worker) mcrFallback(grp *mcrGroup, why string) {
	atomic.AddInt64(&w.ex.mcr.fallback, 1)
	w.ex.mu.Lock()
	w.ex.mcrWhy[why]++
	w.ex.mu.Unlock()
	w.pushItem(Item{prefix: grp.prefix, model: grp.model, noMcr: true})
}
