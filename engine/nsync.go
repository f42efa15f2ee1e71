package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Synchronisation primitives: their contracts, with scheduling points and
// happens-before edges.

func (w *Worker) mutex(p *Value) *mutexSt {
	if w.run == nil {
		return &mutexSt{}
	}
	m := w.run.ss.mu[p]
	if m == nil {
		m = &mutexSt{}
		w.run.ss.mu[p] = m
	}
	return m
}

// synced notes that g has completed a synchronising operation, for the replay
// of the schedule on the real code: those of the code under test count.
func (w *Worker) synced(g *G) {
	if w.run == nil || !w.run.spawned || w.initDepth > 0 || g.id < 0 || g.inModel() {
		return
	}
	for fr := g.top; fr != nil; fr = fr.caller {
		if fr.fi == nil || fr.fi.fn == nil {
			return
		}
		if fr.fi.fn.Synthetic != "" && fr.fi.fn.Pkg == nil {
			continue
		}
		if p := fnPkg(fr.fi.fn); p != nil {
			if q := p.Pkg.Path(); (q == modPath || strings.HasPrefix(q, modPath+"/")) && !strings.HasPrefix(q, modPath+"/internal/v") {
				w.run.order = append(w.run.order, g.id)
			}
		}
		return
	}
}

func (w *Worker) lock(g *G, p *Value) {
	if w.initDepth > 0 {
		return
	}
	m := w.mutex(p)
	waits := false
	g.onBlock = func() {
		if !waits {
			waits = true
			m.wwait++
		}
	}
	w.schedule(g, func() bool { return !m.owner && m.readers == 0 })
	g.onBlock = nil
	if waits {
		m.wwait--
	}
	if m.owner || m.readers > 0 {
		if g.inModel() {
			panic(engErr("lock contention in model"))
		}
		w.deadlock()
	}
	m.owner = true
	w.mcrLockEv(g, evLock, p)
	w.synced(g)
	w.acquire(g, &m.clk)
	w.acquire(g, &m.rclk)
}

func (w *Worker) unlock(g *G, p *Value) {
	if w.initDepth > 0 {
		return
	}
	m := w.mutex(p)
	if !m.owner {
		panic(targetPanic{v: Iface{T: w.p.rtErrT, V: "sync: unlock of unlocked mutex"}, fatal: true})
	}
	on := w.mcrOn(g)
	if on {
		w.schedule(g, nil)
	}
	m.owner = false
	w.mcrLockEv(g, evUnlock, p)
	w.synced(g)
	w.release(g, &m.clk)
	if !on {
		w.schedule(g, nil)
	}
}

func (w *Worker) rlock(g *G, p *Value) {
	if w.initDepth > 0 {
		return
	}
	m := w.mutex(p)
	w.schedule(g, func() bool { return !m.owner && m.wwait == 0 })
	m.readers++
	w.mcrLockEv(g, evRLock, p)
	w.synced(g)
	w.acquire(g, &m.clk)
}

func (w *Worker) runlock(g *G, p *Value) {
	if w.initDepth > 0 {
		return
	}
	m := w.mutex(p)
	if m.readers == 0 {
		panic(targetPanic{v: Iface{T: w.p.rtErrT, V: "sync: RUnlock of unlocked RWMutex"}, fatal: true})
	}
	on := w.mcrOn(g)
	if on {
		w.schedule(g, nil)
	}
	m.readers--
	w.mcrLockEv(g, evRUnlock, p)
	w.synced(g)
	w.release(g, &m.rclk)
	if !on {
		w.schedule(g, nil)
	}
}

func (w *Worker) atomicClk(p *Value) *vclock {
	c := w.run.ss.at[p]
	if c == nil {
		c = &vclock{}
		w.run.ss.at[p] = c
	}
	return c
}

// atomicOp: one sequentially consistent operation on cell p.
func (w *Worker) atomicOp(g *G, p *Value) {
	if w.initDepth > 0 || g.id < 0 || w.run == nil {
		return
	}
	w.schedule(g, nil)
	w.mcrSync(g, p, true, true)
	c := w.atomicClk(p)
	w.acquire(g, c)
	w.release(g, c)
}

type smapKey = int

// sync.Map: contents in a MapV attached to the object; per-key clocks.
func (w *Worker) smap(p *Value) *MapV {
	m := w.smaps[p]
	if m == nil {
		m = &MapV{idx: map[string]int{}, kt: types.NewInterfaceType(nil, nil)}
		w.smaps[p] = m
		w.onUndo(func() { delete(w.smaps, p) })
	}
	return m
}

func (w *Worker) keyClk(m *MapV, i int) *vclock {
	if w.run == nil {
		return &vclock{}
	}
	mm := w.run.ss.keys[m]
	if mm == nil {
		mm = map[int]*vclock{}
		w.run.ss.keys[m] = mm
	}
	c := mm[i]
	if c == nil {
		c = &vclock{}
		mm[i] = c
	}
	return c
}

func init() {
	N("(*sync.Mutex).Lock", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value { w.lock(g, w.ptr(a[0])); return none })
	N("(*sync.Mutex).Unlock", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value { w.unlock(g, w.ptr(a[0])); return none })
	N("(*internal/sync.Mutex).Lock", natives["(*sync.Mutex).Lock"])
	N("(*internal/sync.Mutex).Unlock", natives["(*sync.Mutex).Unlock"])
	N("(*sync.Mutex).TryLock", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value {
		m := w.mutex(w.ptr(a[0]))
		w.mcrNo("TryLock")
		w.schedule(g, nil)
		w.synced(g)
		if m.owner || m.readers > 0 {
			return false
		}
		m.owner = true
		w.acquire(g, &m.clk)
		return true
	})
	N("(*sync.RWMutex).Lock", natives["(*sync.Mutex).Lock"])
	N("(*sync.RWMutex).Unlock", natives["(*sync.Mutex).Unlock"])
	N("(*sync.RWMutex).RLock", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value { w.rlock(g, w.ptr(a[0])); return none })
	N("(*sync.RWMutex).RUnlock", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value { w.runlock(g, w.ptr(a[0])); return none })

	wg := func(w *Worker, p *Value) *wgSt {
		s := w.run.ss.wg[p]
		if s == nil {
			s = &wgSt{}
			w.run.ss.wg[p] = s
		}
		return s
	}
	N("(*sync.WaitGroup).Add", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value {
		s := wg(w, w.ptr(a[0]))
		w.schedule(g, nil)
		s.n += w.concInt(a[1], types.Typ[types.Int])
		w.release(g, &s.clk)
		if s.n < 0 {
			panic(w.goPanicStr("sync: negative WaitGroup counter"))
		}
		return none
	})
	mcrDone := func(w *Worker, g *G, p *Value) {
		if w.mcrOn(g) {
			w.schedule(g, nil)
			w.mcrEvent(g, mcrEv{kind: evDone, v: w.run.mcr.id(mcrWgKey{p})})
		}
	}
	N("(*sync.WaitGroup).Done", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value {
		s := wg(w, w.ptr(a[0]))
		mcrDone(w, g, w.ptr(a[0]))
		s.n--
		w.release(g, &s.clk)
		if s.n < 0 {
			panic(w.goPanicStr("sync: negative WaitGroup counter"))
		}
		return none
	})
	N("(*sync.WaitGroup).Wait", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value {
		s := wg(w, w.ptr(a[0]))
		w.schedule(g, func() bool { return s.n == 0 })
		if w.mcrOn(g) {
			w.mcrEvent(g, mcrEv{kind: evWait, v: w.run.mcr.id(mcrWgKey{w.ptr(a[0])})})
		}
		w.acquire(g, &s.clk)
		return none
	})
	N("(*sync.WaitGroup).Go", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value {
		s := wg(w, w.ptr(a[0]))
		s.n++
		f := a[1]
		w.spawn(g, func(g2 *G) {
			w.Call(g2, f)
			mcrDone(w, g2, w.ptr(a[0]))
			s.n--
			w.release(g2, &s.clk)
		})
		return none
	})
	N("(*sync.Pool).Get", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value {
		p := w.ptr(a[0])
		s := (*p).(Struct)
		nf, _ := s[len(s)-1].(*Closure)
		if nf == nil {
			return Iface{}
		}
		return w.Call(g, nf)
	})
	N("(*sync.Pool).Put", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value { return none })

	// sync.Once: the contract (mutual exclusion + done flag)
	N("(*sync.Once).Do", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value {
		p := w.ptr(a[0])
		st := (*p).(Struct)
		cell := onceCell(st)
		if w.initDepth > 0 {
			if u, _ := (*cell).(uint64); u == 0 {
				*cell = u64(1)
				w.Call(g, a[1])
			}
			return none
		}
		m := w.mutex(p)
		// fast path: atomic load of done
		w.schedule(g, nil)
		w.mcrSync(g, cell, true, false)
		w.synced(g)
		if u, _ := (*cell).(uint64); u != 0 {
			w.acquire(g, &m.clk)
			return none
		}
		w.lock(g, p)
		if w.mcrOn(g) {
			w.schedule(g, nil)
			w.mcrSync(g, cell, true, false)
		}
		if u, _ := (*cell).(uint64); u != 0 {
			w.unlock(g, p)
			return none
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(targetPanic); ok {
						w.mcrNo("a panic in once.Do")
						w.setCell(cell, u64(1))
						m.owner = false
						w.synced(g)
						w.release(g, &m.clk)
					}
					panic(r)
				}
			}()
			w.Call(g, a[1])
		}()
		if w.mcrOn(g) {
			w.schedule(g, nil)
			w.mcrSync(g, cell, false, true)
			w.release(g, &m.clk)
		}
		w.setCell(cell, u64(1))
		w.unlock(g, p)
		return none
	})

	// ---- sync.Map ----
	sm := func(name string, f func(w *Worker, g *G, m *MapV, a []Value) Value) {
		N("(*sync.Map)."+name, func(w *Worker, g *G, fn *ssa.Function, a []Value) Value {
			p := w.ptr(a[0])
			w.schedule(g, nil)
			w.synced(g)
			return f(w, g, w.smap(p), a)
		})
	}
	sm("Load", func(w *Worker, g *G, m *MapV, a []Value) Value {
		i := w.mapFind(m, a[1])
		w.mcrMapKey(g, m, a[1], true, false)
		if i < 0 {
			return Tuple{Iface{}, false}
		}
		w.acquire(g, w.keyClk(m, i))
		return Tuple{m.vals[i], true}
	})
	store := func(w *Worker, g *G, m *MapV, k, v Value) {
		w.mapSet(m, k, v)
		i := w.mapFind(m, k)
		w.release(g, w.keyClk(m, i))
	}
	sm("Store", func(w *Worker, g *G, m *MapV, a []Value) Value {
		w.mcrMapKey(g, m, a[1], false, true)
		store(w, g, m, a[1], a[2])
		return none
	})
	sm("LoadOrStore", func(w *Worker, g *G, m *MapV, a []Value) Value {
		i := w.mapFind(m, a[1])
		w.mcrMapKey(g, m, a[1], true, i < 0)
		if i >= 0 {
			w.acquire(g, w.keyClk(m, i))
			return Tuple{m.vals[i], true}
		}
		store(w, g, m, a[1], a[2])
		return Tuple{a[2], false}
	})
	sm("LoadAndDelete", func(w *Worker, g *G, m *MapV, a []Value) Value {
		i := w.mapFind(m, a[1])
		w.mcrMapKey(g, m, a[1], true, i >= 0)
		if i < 0 {
			return Tuple{Iface{}, false}
		}
		w.acquire(g, w.keyClk(m, i))
		v := m.vals[i]
		w.mapDelete(m, a[1])
		return Tuple{v, true}
	})
	sm("Swap", func(w *Worker, g *G, m *MapV, a []Value) Value {
		i := w.mapFind(m, a[1])
		w.mcrMapKey(g, m, a[1], true, true)
		var r Value = Tuple{Iface{}, false}
		if i >= 0 {
			w.acquire(g, w.keyClk(m, i))
			r = Tuple{m.vals[i], true}
		}
		store(w, g, m, a[1], a[2])
		return r
	})
	sm("CompareAndSwap", func(w *Worker, g *G, m *MapV, a []Value) Value {
		i := w.mapFind(m, a[1])
		w.mcrMapKey(g, m, a[1], true, true)
		if i < 0 || !w.boolOf(w.eq(m.kt, m.vals[i], a[2])) {
			return false
		}
		w.acquire(g, w.keyClk(m, i))
		store(w, g, m, a[1], a[3])
		return true
	})
	sm("Delete", func(w *Worker, g *G, m *MapV, a []Value) Value {
		w.mcrMapKey(g, m, a[1], false, true)
		w.mapDelete(m, a[1])
		return none
	})
	sm("Clear", func(w *Worker, g *G, m *MapV, a []Value) Value {
		w.mcrNo("sync.Map.Clear")
		w.mapClear(m)
		return none
	})
	sm("Range", func(w *Worker, g *G, m *MapV, a []Value) Value {
		// each key present throughout is visited once; the order is not defined
		var todo []int
		for i := range m.keys {
			if _, dead := m.keys[i].(tombstone); !dead {
				todo = append(todo, i)
			}
		}
		on := w.mcrOn(g)
		keys := append([]Value(nil), m.keys...)
		if on {
			w.mcrMapAll(g, m)
			key := map[int]string{}
			for _, i := range todo {
				key[i] = w.mcrKeyOf(m, keys[i]).k
			}
			sort.Slice(todo, func(i, j int) bool { return key[todo[i]] < key[todo[j]] })
		}
		for len(todo) > 0 {
			k := 0
			if w.run.permMaps && len(todo) > 1 {
				k = w.chooseEnv(len(todo), "maporder")
			}
			i := todo[k]
			todo = append(append([]int(nil), todo[:k]...), todo[k+1:]...)
			if on {
				w.schedule(g, nil)
				w.mcrMapKey(g, m, keys[i], true, false)
			}
			w.synced(g)
			if _, dead := m.keys[i].(tombstone); dead {
				continue
			}
			w.acquire(g, w.keyClk(m, i))
			if !w.boolOf(w.Call(g, a[1], m.keys[i], m.vals[i])) {
				break
			}
			if !on {
				w.schedule(g, nil)
			}
		}
		return none
	})

	// ---- sync/atomic ----
	for _, t := range []struct {
		n  string
		wd uint8
	}{{"Int32", 32}, {"Int64", 64}, {"Uint32", 32}, {"Uint64", 64}, {"Uintptr", 64}, {"Pointer", 0}} {
		t := t
		for _, pkg := range []string{"sync/atomic."} {
			N(pkg+"Load"+t.n, func(w *Worker, g *G, fn *ssa.Function, a []Value) Value {
				p := w.ptr(a[0])
				w.atomicOp(g, p)
				return *p
			})
			N(pkg+"Store"+t.n, func(w *Worker, g *G, fn *ssa.Function, a []Value) Value {
				p := w.ptr(a[0])
				w.atomicOp(g, p)
				w.setCell(p, a[1])
				return none
			})
			N(pkg+"Swap"+t.n, func(w *Worker, g *G, fn *ssa.Function, a []Value) Value {
				p := w.ptr(a[0])
				w.atomicOp(g, p)
				o := *p
				w.setCell(p, a[1])
				return o
			})
			N(pkg+"CompareAndSwap"+t.n, func(w *Worker, g *G, fn *ssa.Function, a []Value) Value {
				p := w.ptr(a[0])
				w.atomicOp(g, p)
				if w.boolOf(w.eq(nil, *p, a[1])) {
					w.setCell(p, a[2])
					return true
				}
				return false
			})
			if t.wd > 0 {
				N(pkg+"Add"+t.n, func(w *Worker, g *G, fn *ssa.Function, a []Value) Value {
					p := w.ptr(a[0])
					w.atomicOp(g, p)
					n := fromTerm(w.tc.Bin(OAdd, w.toTerm(*p, t.wd), w.toTerm(a[1], t.wd)))
					w.setCell(p, n)
					return n
				})
			}
		}
	}
	// atomic.Value: contents in its single field
	N("(*sync/atomic.Value).Load", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value {
		p := w.ptr(a[0])
		w.atomicOp(g, p)
		return (*p).(Struct)[0]
	})
	N("(*sync/atomic.Value).Store", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value {
		p := w.ptr(a[0])
		w.atomicOp(g, p)
		v := a[1].(Iface)
		if v.T == nil {
			panic(w.goPanicStr("sync/atomic: store of nil value into Value"))
		}
		old := (*p).(Struct)[0].(Iface)
		if old.T != nil && w.canon(old.T) != w.canon(v.T) {
			panic(w.goPanicStr("sync/atomic: store of inconsistently typed value into Value"))
		}
		w.setCell(&(*p).(Struct)[0], v)
		return none
	})
	N("(*sync/atomic.Value).Swap", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value {
		p := w.ptr(a[0])
		w.atomicOp(g, p)
		o := (*p).(Struct)[0]
		w.setCell(&(*p).(Struct)[0], a[1])
		return o
	})
	N("(*sync/atomic.Value).CompareAndSwap", func(w *Worker, g *G, fn *ssa.Function, a []Value) Value {
		p := w.ptr(a[0])
		w.atomicOp(g, p)
		o := (*p).(Struct)[0]
		if w.boolOf(w.eq(nil, o, a[1])) {
			w.setCell(&(*p).(Struct)[0], a[2])
			return true
		}
		return false
	})
}

// onceCell finds the done word inside a sync.Once value.
func onceCell(s Struct) *Value {
	var find func(p *Value) *Value
	find = func(p *Value) *Value {
		switch v := (*p).(type) {
		case uint64:
			return p
		case bool:
			return p
		case Struct:
			for i := range v {
				if c := find(&v[i]); c != nil {
					return c
				}
			}
		}
		return nil
	}
	for i := range s {
		if c := find(&s[i]); c != nil {
			return c
		}
	}
	panic(engErr("sync.Once layout"))
}
