//go:build go1.21

// Package vsync stands in for package sync in replays of a schedule: each
// operation of a registered goroutine waits for its turn in the recorded order.
// The wait adds no happens-before edge, so that the race detector sees the
// same synchronisation as without it.
package vsync

import (
	"fmt"
	"runtime"
	"sort"
	"sync"
	"time"
)

type (
	WaitGroup = sync.WaitGroup
	Pool      = sync.Pool
	Cond      = sync.Cond
	Locker    = sync.Locker
)

func NewCond(l Locker) *Cond { return sync.NewCond(l) }

func OnceFunc(f func()) func() { return sync.OnceFunc(f) }

func OnceValue[T any](f func() T) func() T { return sync.OnceValue(f) }

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) { return sync.OnceValues(f) }

const maxG = 64

var (
	order  [1 << 16]int32
	length int32
	given  int32
	pos    int32
	off    int32 // the order could not be kept
	regGo  [maxG]int64
	regN   int32
)

// Start sets the order of the next run; the caller is goroutine 0.
//
//go:norace
func Start(o []int) {
	length, given, pos, off = 0, 0, 0, 0
	for i := range regGo {
		regGo[i] = 0
	}
	regN = 1
	regGo[0] = goid()
	for i, g := range o {
		if i < len(order) {
			order[i] = int32(g)
			given++
		}
	}
}

// Fork numbers the goroutine that is started next. From the first one on, the
// order is kept.
//
//go:norace
func Fork() int {
	length = given
	n := regN
	regN++
	return int(n)
}

// Enter says that the caller is goroutine id.
//
//go:norace
func Enter(id int) {
	if id > 0 && id < maxG {
		regGo[id] = goid()
	}
}

//go:norace
func goid() int64 {
	var b [40]byte
	n := runtime.Stack(b[:], false)
	var id int64
	for i := 10; i < n && b[i] >= '0' && b[i] <= '9'; i++ {
		id = id*10 + int64(b[i]-'0')
	}
	return id
}

//go:norace
func me() int32 {
	id := goid()
	for i := int32(0); i < maxG; i++ {
		if regGo[i] == id {
			return i
		}
	}
	return -1
}

// turn waits until it is the caller's turn; done must follow.
//
//go:norace
func turn() bool {
	if length == 0 || off != 0 || pos >= length {
		return false
	}
	g := me()
	if g < 0 {
		return false
	}
	var t0 time.Time
	for n := 0; ; n++ {
		if off != 0 || pos >= length {
			return false
		}
		if order[pos] == g {
			return true
		}
		if n < 100 {
			runtime.Gosched()
			continue
		}
		if n == 100 {
			t0 = time.Now()
		}
		time.Sleep(20 * time.Microsecond)
		if time.Since(t0) > 2*time.Second {
			off = 1
		}
	}
}

//go:norace
func done(ok bool) {
	if ok {
		pos++
	}
}

type Mutex struct{ m sync.Mutex }

func (m *Mutex) Lock()   { t := turn(); m.m.Lock(); done(t) }
func (m *Mutex) Unlock() { t := turn(); m.m.Unlock(); done(t) }
func (m *Mutex) TryLock() bool {
	t := turn()
	r := m.m.TryLock()
	done(t)
	return r
}

type RWMutex struct{ m sync.RWMutex }

func (m *RWMutex) Lock()    { t := turn(); m.m.Lock(); done(t) }
func (m *RWMutex) Unlock()  { t := turn(); m.m.Unlock(); done(t) }
func (m *RWMutex) RLock()   { t := turn(); m.m.RLock(); done(t) }
func (m *RWMutex) RUnlock() { t := turn(); m.m.RUnlock(); done(t) }
func (m *RWMutex) TryLock() bool {
	t := turn()
	r := m.m.TryLock()
	done(t)
	return r
}
func (m *RWMutex) TryRLock() bool {
	t := turn()
	r := m.m.TryRLock()
	done(t)
	return r
}
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type Once struct {
	o    sync.RWMutex
	done bool
	m    Mutex
}

func (o *Once) isDone() bool {
	o.o.RLock()
	defer o.o.RUnlock()
	return o.done
}

func (o *Once) Do(f func()) {
	t := turn()
	d := o.isDone()
	done(t)
	if d {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if o.isDone() {
		return
	}
	defer func() {
		o.o.Lock()
		o.done = true
		o.o.Unlock()
	}()
	f()
}

type Map struct{ m sync.Map }

func (m *Map) Load(k any) (any, bool) {
	t := turn()
	v, ok := m.m.Load(k)
	done(t)
	return v, ok
}
func (m *Map) Store(k, v any) { t := turn(); m.m.Store(k, v); done(t) }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	t := turn()
	r, ok := m.m.LoadOrStore(k, v)
	done(t)
	return r, ok
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	t := turn()
	r, ok := m.m.LoadAndDelete(k)
	done(t)
	return r, ok
}
func (m *Map) Delete(k any) { t := turn(); m.m.Delete(k); done(t) }
func (m *Map) Clear()       { t := turn(); m.m.Clear(); done(t) }
func (m *Map) Swap(k, v any) (any, bool) {
	t := turn()
	r, ok := m.m.Swap(k, v)
	done(t)
	return r, ok
}
func (m *Map) CompareAndSwap(k, o, n any) bool {
	t := turn()
	r := m.m.CompareAndSwap(k, o, n)
	done(t)
	return r
}
func (m *Map) CompareAndDelete(k, o any) bool {
	t := turn()
	r := m.m.CompareAndDelete(k, o)
	done(t)
	return r
}

// Range visits the entries there are when it starts, in no order.
func (m *Map) Range(f func(k, v any) bool) {
	if length == 0 || off != 0 {
		m.m.Range(f)
		return
	}
	t := turn()
	var ks []any
	m.m.Range(func(k, _ any) bool { ks = append(ks, k); return true })
	done(t)
	sortKeys(ks)
	for _, k := range ks {
		t := turn()
		v, ok := m.m.Load(k)
		done(t)
		if ok && !f(k, v) {
			return
		}
	}
}

func sortKeys(ks []any) {
	s := make([]string, len(ks))
	for i, k := range ks {
		s[i] = fmt.Sprintf("%T %v", k, k)
	}
	sort.Sort(&byText{ks, s})
}

type byText struct {
	k []any
	s []string
}

func (b *byText) Len() int           { return len(b.k) }
func (b *byText) Less(i, j int) bool { return b.s[i] < b.s[j] }
func (b *byText) Swap(i, j int) {
	b.k[i], b.k[j] = b.k[j], b.k[i]
	b.s[i], b.s[j] = b.s[j], b.s[i]
}
