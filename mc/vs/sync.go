package vs

import (
	"fmt"
	"log"
	"os"
	"sync"
	"time"
)

// Mutex replaces sync.Mutex.
type Mutex struct {
	mu   sync.Mutex
	held bool
}

func (m *Mutex) ready() bool { return !m.held }

// Lock locks.
func (m *Mutex) Lock() {
	g := cur()
	if g == nil {
		m.mu.Lock()
		return
	}
	if g.killed {
		return
	}
	g.yield(nil, "lock")
	for m.held {
		g.yield(m, "waiting for a lock")
	}
	m.held = true
	m.mu.Lock()
}

// TryLock tries to.
func (m *Mutex) TryLock() bool {
	g := cur()
	if g == nil {
		return m.mu.TryLock()
	}
	g.yield(nil, "try lock")
	if m.held {
		return false
	}
	m.held = true
	m.mu.Lock()
	return true
}

// Unlock unlocks.
func (m *Mutex) Unlock() {
	g := cur()
	if g != nil && g.killed && !m.held {
		return
	}
	m.held = false
	m.mu.Unlock()
}

// RWMutex replaces sync.RWMutex.
type RWMutex struct {
	mu   sync.RWMutex
	w    bool
	r    int
	ww   int
	wait [maxG]*rwWait
}

type rwWait struct{ ok bool }

func (w *rwWait) ready() bool { return w.ok }

type rwFree struct{ m *RWMutex }

func (f rwFree) ready() bool { return !f.m.w && f.m.r == 0 }

// RLock locks for reading.
func (m *RWMutex) RLock() {
	g := cur()
	if g == nil {
		m.mu.RLock()
		return
	}
	if g.killed {
		return
	}
	g.yield(nil, "read lock")
	if m.w || m.ww > 0 {
		w := &rwWait{}
		m.wait[g.id] = w
		g.yield(w, "waiting for a read lock") // Unlock counts it in
	} else {
		m.r++
	}
	m.mu.RLock()
}

// RUnlock unlocks.
func (m *RWMutex) RUnlock() {
	g := cur()
	if g != nil && g.killed && m.r == 0 {
		return
	}
	if g != nil {
		m.r--
	}
	m.mu.RUnlock()
}

// Lock locks.
func (m *RWMutex) Lock() {
	g := cur()
	if g == nil {
		m.mu.Lock()
		return
	}
	if g.killed {
		return
	}
	g.yield(nil, "write lock")
	m.ww++
	for m.w || m.r > 0 {
		g.yield(rwFree{m}, "waiting for a write lock")
	}
	m.ww--
	m.w = true
	m.mu.Lock()
}

// Unlock unlocks.
func (m *RWMutex) Unlock() {
	g := cur()
	if g != nil && g.killed && !m.w {
		return
	}
	m.w = false
	m.mu.Unlock()
	if g != nil {
		for i, w := range m.wait {
			if w != nil {
				w.ok = true
				m.r++
				m.wait[i] = nil
			}
		}
	}
}

// TryRLock tries to.
func (m *RWMutex) TryRLock() bool {
	g := cur()
	if g == nil {
		return m.mu.TryRLock()
	}
	g.yield(nil, "try read lock")
	if m.w || m.ww > 0 {
		return false
	}
	m.r++
	m.mu.RLock()
	return true
}

// TryLock tries to.
func (m *RWMutex) TryLock() bool {
	g := cur()
	if g == nil {
		return m.mu.TryLock()
	}
	g.yield(nil, "try write lock")
	if m.w || m.r > 0 || m.ww > 0 {
		return false
	}
	m.w = true
	m.mu.Lock()
	return true
}

// RLocker is as in sync.
func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Once replaces sync.Once.
type Once struct {
	m    Mutex
	done bool
}

// Do runs f the first time.
func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// WaitGroup replaces sync.WaitGroup.
type WaitGroup struct {
	wg sync.WaitGroup
	n  int
}

func (w *WaitGroup) ready() bool { return w.n == 0 }

// Add adds.
func (w *WaitGroup) Add(n int) {
	if cur() != nil {
		w.n += n
	}
	w.wg.Add(n)
}

// Done is Add(-1).
func (w *WaitGroup) Done() { w.Add(-1) }

// Go is as in sync.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() {
		defer w.Done()
		f()
	})
}

// Wait waits.
func (w *WaitGroup) Wait() {
	if g := cur(); g != nil {
		if g.killed {
			return
		}
		g.yield(nil, "wait")
		for w.n > 0 {
			g.yield(w, "waiting for a group")
		}
	}
	w.wg.Wait()
}

// Cond replaces sync.Cond.
type Cond struct {
	L    sync.Locker
	c    *sync.Cond
	wait [maxG]*rwWait
}

// NewCond is as in sync.
func NewCond(l sync.Locker) *Cond { return &Cond{L: l, c: sync.NewCond(l)} }

// Wait waits.
func (c *Cond) Wait() {
	g := cur()
	if g == nil {
		c.c.Wait()
		return
	}
	w := &rwWait{}
	c.wait[g.id] = w
	c.L.Unlock()
	if !g.killed {
		g.yield(w, "waiting for a condition")
	}
	c.L.Lock()
}

// Signal wakes one.
func (c *Cond) Signal() {
	if cur() == nil {
		c.c.Signal()
		return
	}
	for i, w := range c.wait {
		if w != nil {
			w.ok = true
			c.wait[i] = nil
			return
		}
	}
}

// Broadcast wakes all.
func (c *Cond) Broadcast() {
	if cur() == nil {
		c.c.Broadcast()
		return
	}
	for i, w := range c.wait {
		if w != nil {
			w.ok = true
			c.wait[i] = nil
		}
	}
}

// ---- time

type timerWait struct{ t *timer }

func (w timerWait) ready() bool { return w.t.state != 0 }

// Sleep replaces time.Sleep.
func Sleep(d time.Duration) {
	g := cur()
	if g == nil {
		time.Sleep(d)
		return
	}
	if g.killed {
		return
	}
	t := g.s.addTimer(&timer{d: d, sleep: true})
	g.yield(timerWait{t}, "sleeping")
}

// Now replaces time.Now.
func Now() time.Time {
	if g := cur(); g != nil {
		return g.s.now()
	}
	return time.Now()
}

// Since replaces time.Since.
func Since(t time.Time) time.Duration { return Now().Sub(t) }

// Until replaces time.Until.
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// After replaces time.After.
func After(d time.Duration) <-chan time.Time {
	g := cur()
	if g == nil {
		return time.After(d)
	}
	ch := make(chan time.Time, 1)
	g.s.addTimer(&timer{ch: ch, d: d})
	return ch
}

// Timer replaces time.Timer.
type Timer struct {
	C  <-chan time.Time
	rt *time.Timer
	t  *timer
	ch chan time.Time
	s  *Sched
}

// NewTimer replaces time.NewTimer.
func NewTimer(d time.Duration) *Timer {
	g := cur()
	if g == nil {
		t := time.NewTimer(d)
		return &Timer{C: t.C, rt: t}
	}
	ch := make(chan time.Time, 1)
	return &Timer{C: ch, ch: ch, s: g.s, t: g.s.addTimer(&timer{ch: ch, d: d})}
}

// AfterFunc replaces time.AfterFunc.
func AfterFunc(d time.Duration, f func()) *Timer {
	g := cur()
	if g == nil {
		return &Timer{rt: time.AfterFunc(d, f)}
	}
	return &Timer{s: g.s, t: g.s.addTimer(&timer{f: f, d: d})}
}

// Stop stops it.
func (t *Timer) Stop() bool {
	if t.rt != nil {
		return t.rt.Stop()
	}
	was := t.t.state == 0
	t.t.state = 2
	if t.ch != nil {
		select {
		case <-t.ch:
			was = true
		default:
		}
	}
	return was
}

// Reset restarts it.
func (t *Timer) Reset(d time.Duration) bool {
	if t.rt != nil {
		return t.rt.Reset(d)
	}
	was := t.Stop()
	t.t = t.s.addTimer(&timer{ch: t.ch, f: t.t.f, d: d})
	return was
}

// Ticker replaces time.Ticker. It ticks a few times only.
type Ticker struct {
	C    <-chan time.Time
	rt   *time.Ticker
	stop bool
	t    *timer
}

// NewTicker replaces time.NewTicker.
func NewTicker(d time.Duration) *Ticker {
	g := cur()
	if g == nil {
		t := time.NewTicker(d)
		return &Ticker{C: t.C, rt: t}
	}
	ch := make(chan time.Time, 1)
	rv := &Ticker{C: ch}
	s := g.s
	left := 8
	var arm func()
	arm = func() {
		rv.t = s.addTimer(&timer{d: d, f: func() {
			select {
			case ch <- s.now():
			default:
			}
			left--
			if !rv.stop && left > 0 {
				arm()
			}
		}})
	}
	arm()
	return rv
}

// Tick replaces time.Tick.
func Tick(d time.Duration) <-chan time.Time { return NewTicker(d).C }

// Stop stops it.
func (t *Ticker) Stop() {
	if t.rt != nil {
		t.rt.Stop()
		return
	}
	t.stop = true
	t.t.state = 2
}

// Reset restarts it.
func (t *Ticker) Reset(d time.Duration) {
	if t.rt != nil {
		t.rt.Reset(d)
	}
}

// ---- ending the process

// Fatal replaces log.Fatal.
func Fatal(v ...interface{}) {
	if cur() == nil {
		log.Fatal(v...)
	}
	Die(fmt.Sprint(v...))
}

// Fatalf replaces log.Fatalf.
func Fatalf(f string, v ...interface{}) {
	if cur() == nil {
		log.Fatalf(f, v...)
	}
	Die(fmt.Sprintf(f, v...))
}

// Fatalln replaces log.Fatalln.
func Fatalln(v ...interface{}) {
	if cur() == nil {
		log.Fatalln(v...)
	}
	Die(fmt.Sprintln(v...))
}

// Exit replaces os.Exit.
func Exit(code int) {
	if cur() == nil {
		os.Exit(code)
	}
	Die(fmt.Sprint("exit ", code))
}

// Gosched replaces runtime.Gosched.
func Gosched() { Point("yield") }
