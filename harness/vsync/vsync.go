// Package vsync stands in for sync in instrumented code: the same types, with
// a scheduling gate at each operation and blocking that testing/synctest sees.
package vsync

import (
	"sync"

	"github.com/bab-sh/bab/internal/zzverif/sched"
)

// Types that need no gate.
type (
	Locker = sync.Locker
	Map    = sync.Map
	Pool   = sync.Pool
)

type waiters struct {
	mu sync.Mutex
	ws []chan struct{}
}

// wait blocks until wake; the caller holds w.mu, which is released.
func (w *waiters) wait() {
	c := make(chan struct{})
	w.ws = append(w.ws, c)
	w.mu.Unlock()
	<-c
	sched.Post()
}

func (w *waiters) wake() {
	for _, c := range w.ws {
		close(c)
	}
	w.ws = nil
}

// Mutex is sync.Mutex.
type Mutex struct {
	w    waiters
	held bool
}

// Lock is sync.Mutex.Lock.
func (m *Mutex) Lock() {
	sched.Pre()
	for {
		m.w.mu.Lock()
		if !m.held {
			m.held = true
			m.w.mu.Unlock()
			return
		}
		m.w.wait()
	}
}

// TryLock is sync.Mutex.TryLock.
func (m *Mutex) TryLock() bool {
	sched.Pre()
	m.w.mu.Lock()
	defer m.w.mu.Unlock()
	if m.held {
		return false
	}
	m.held = true
	return true
}

// Unlock is sync.Mutex.Unlock.
func (m *Mutex) Unlock() {
	m.w.mu.Lock()
	if !m.held {
		m.w.mu.Unlock()
		panic("sync: unlock of unlocked mutex")
	}
	m.held = false
	m.w.wake()
	m.w.mu.Unlock()
}

// RWMutex is sync.RWMutex.
type RWMutex struct {
	w       waiters
	writer  bool
	readers int
}

// Lock is sync.RWMutex.Lock.
func (m *RWMutex) Lock() {
	sched.Pre()
	for {
		m.w.mu.Lock()
		if !m.writer && m.readers == 0 {
			m.writer = true
			m.w.mu.Unlock()
			return
		}
		m.w.wait()
	}
}

// Unlock is sync.RWMutex.Unlock.
func (m *RWMutex) Unlock() {
	m.w.mu.Lock()
	if !m.writer {
		m.w.mu.Unlock()
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	m.w.wake()
	m.w.mu.Unlock()
}

// RLock is sync.RWMutex.RLock.
func (m *RWMutex) RLock() {
	sched.Pre()
	for {
		m.w.mu.Lock()
		if !m.writer {
			m.readers++
			m.w.mu.Unlock()
			return
		}
		m.w.wait()
	}
}

// RUnlock is sync.RWMutex.RUnlock.
func (m *RWMutex) RUnlock() {
	m.w.mu.Lock()
	if m.readers == 0 {
		m.w.mu.Unlock()
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	m.w.wake()
	m.w.mu.Unlock()
}

// TryLock is sync.RWMutex.TryLock.
func (m *RWMutex) TryLock() bool {
	sched.Pre()
	m.w.mu.Lock()
	defer m.w.mu.Unlock()
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	return true
}

// TryRLock is sync.RWMutex.TryRLock.
func (m *RWMutex) TryRLock() bool {
	sched.Pre()
	m.w.mu.Lock()
	defer m.w.mu.Unlock()
	if m.writer {
		return false
	}
	m.readers++
	return true
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker is sync.RWMutex.RLocker.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// WaitGroup is sync.WaitGroup.
type WaitGroup struct {
	w waiters
	n int
}

// Add is sync.WaitGroup.Add.
func (g *WaitGroup) Add(d int) {
	sched.Pre()
	g.w.mu.Lock()
	g.n += d
	n := g.n
	if n == 0 {
		g.w.wake()
	}
	g.w.mu.Unlock()
	if n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

// Done is sync.WaitGroup.Done.
func (g *WaitGroup) Done() { g.Add(-1) }

// Wait is sync.WaitGroup.Wait.
func (g *WaitGroup) Wait() {
	sched.Pre()
	g.w.mu.Lock()
	if g.n == 0 {
		g.w.mu.Unlock()
		return
	}
	g.w.wait()
}

// Go is sync.WaitGroup.Go.
func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	sched.Go(func() {
		defer g.Done()
		f()
	})
}

// Once is sync.Once.
type Once struct {
	m    Mutex
	done bool
}

// Do is sync.Once.Do.
func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if o.done {
		return
	}
	defer func() { o.done = true }()
	f()
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// OnceValues is sync.OnceValues.
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v T1
	var w T2
	return func() (T1, T2) { o.Do(func() { v, w = f() }); return v, w }
}

// Cond is sync.Cond.
type Cond struct {
	L  Locker
	mu sync.Mutex
	ws []chan struct{}
}

// NewCond is sync.NewCond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

// Wait is sync.Cond.Wait.
func (c *Cond) Wait() {
	ch := make(chan struct{})
	c.mu.Lock()
	c.ws = append(c.ws, ch)
	c.mu.Unlock()
	c.L.Unlock()
	<-ch
	sched.Post()
	c.L.Lock()
}

// Signal is sync.Cond.Signal.
func (c *Cond) Signal() {
	sched.Pre()
	c.mu.Lock()
	if len(c.ws) > 0 {
		close(c.ws[0])
		c.ws = c.ws[1:]
	}
	c.mu.Unlock()
}

// Broadcast is sync.Cond.Broadcast.
func (c *Cond) Broadcast() {
	sched.Pre()
	c.mu.Lock()
	for _, w := range c.ws {
		close(w)
	}
	c.ws = nil
	c.mu.Unlock()
}
