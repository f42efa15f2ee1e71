package vmodel

import (
	"runtime"
	"sync"
	"time"
)

// Conditions and timers. A timer may go off at any time.

var condMu sync.Mutex
var conds = map[*sync.Cond][]chan struct{}{}

func Cond_Wait(c *sync.Cond) {
	ch := make(chan struct{}, 1)
	condMu.Lock()
	conds[c] = append(conds[c], ch)
	condMu.Unlock()
	c.L.Unlock()
	<-ch
	c.L.Lock()
}

func Cond_Signal(c *sync.Cond) {
	condMu.Lock()
	defer condMu.Unlock()
	if w := conds[c]; len(w) > 0 {
		w[0] <- struct{}{}
		conds[c] = w[1:]
	}
}

func Cond_Broadcast(c *sync.Cond) {
	condMu.Lock()
	defer condMu.Unlock()
	for _, ch := range conds[c] {
		ch <- struct{}{}
	}
	delete(conds, c)
}

func Time_Sleep(d time.Duration) { runtime.Gosched() }

var timerMu sync.Mutex
var timers = map[*time.Timer]bool{} // still to go off

func fires(t *time.Timer) bool {
	timerMu.Lock()
	defer timerMu.Unlock()
	x := timers[t]
	timers[t] = false
	return x
}

func Time_NewTimer(d time.Duration) *time.Timer {
	c := make(chan time.Time, 1)
	t := &time.Timer{C: c}
	timerMu.Lock()
	timers[t] = true
	timerMu.Unlock()
	go func() {
		if fires(t) {
			c <- time.Now()
		}
	}()
	return t
}

func Time_AfterFunc(d time.Duration, f func()) *time.Timer {
	t := &time.Timer{}
	timerMu.Lock()
	timers[t] = true
	timerMu.Unlock()
	go func() {
		if fires(t) {
			f()
		}
	}()
	return t
}

func Timer_Stop(t *time.Timer) bool { return fires(t) }
