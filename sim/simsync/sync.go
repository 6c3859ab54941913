// Package simsync stands for package sync under the simulator.
package simsync

import (
	real "sync"

	zs "github.com/dball/destructive/internal/zsim/simrt"
)

type Locker = real.Locker
type Map = real.Map

// Mutex stands for sync.Mutex.
type Mutex struct {
	locked bool
	queue  []*zs.Task
	sem    byte
}

//go:norace
func (m *Mutex) Lock() {
	zs.Y(zs.HarnessSite)
	if !m.TryLock() {
		t := zs.Current()
		if t == nil {
			panic("simsync: a lock is held outside of the simulation")
		}
		m.queue = append(m.queue, t)
		zs.Block("a mutex")
		// The unlocker handed the lock to this task.
		zs.Acquire(&m.sem)
	}
}

//go:norace
func (m *Mutex) TryLock() bool {
	if m.locked {
		return false
	}
	m.locked = true
	zs.Acquire(&m.sem)
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	zs.Release(&m.sem)
	if len(m.queue) > 0 {
		t := m.queue[0]
		m.queue = m.queue[1:]
		zs.Wake(t)
	} else {
		m.locked = false
	}
	zs.Y(zs.HarnessSite)
}

// RWMutex stands for sync.RWMutex, including its precedence of waiting writers over new readers.
type RWMutex struct {
	writer  bool
	readers int
	writers []*zs.Task
	waiting []*zs.Task
	readSem byte
	wrSem   byte
}

//go:norace
func (m *RWMutex) RLock() {
	zs.Y(zs.HarnessSite)
	if !m.TryRLock() {
		t := zs.Current()
		if t == nil {
			panic("simsync: a lock is held outside of the simulation")
		}
		m.waiting = append(m.waiting, t)
		zs.Block("a read lock")
		zs.Acquire(&m.readSem)
	}
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	if m.writer || len(m.writers) > 0 {
		return false
	}
	m.readers++
	zs.Acquire(&m.readSem)
	return true
}

//go:norace
func (m *RWMutex) RUnlock() {
	if m.readers <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	zs.ReleaseMerge(&m.wrSem)
	m.readers--
	if m.readers == 0 && len(m.writers) > 0 {
		t := m.writers[0]
		m.writers = m.writers[1:]
		m.writer = true
		zs.Wake(t)
	}
	zs.Y(zs.HarnessSite)
}

//go:norace
func (m *RWMutex) Lock() {
	zs.Y(zs.HarnessSite)
	if !m.TryLock() {
		t := zs.Current()
		if t == nil {
			panic("simsync: a lock is held outside of the simulation")
		}
		m.writers = append(m.writers, t)
		zs.Block("a write lock")
		zs.Acquire(&m.readSem)
		zs.Acquire(&m.wrSem)
	}
}

//go:norace
func (m *RWMutex) TryLock() bool {
	if m.writer || m.readers > 0 || len(m.writers) > 0 {
		return false
	}
	m.writer = true
	zs.Acquire(&m.readSem)
	zs.Acquire(&m.wrSem)
	return true
}

//go:norace
func (m *RWMutex) Unlock() {
	if !m.writer {
		panic("sync: Unlock of unlocked RWMutex")
	}
	zs.Release(&m.readSem)
	m.writer = false
	switch {
	case len(m.waiting) > 0:
		// The readers that arrived while the lock was held go first.
		m.readers += len(m.waiting)
		for _, t := range m.waiting {
			zs.Wake(t)
		}
		m.waiting = m.waiting[:0]
	case len(m.writers) > 0:
		t := m.writers[0]
		m.writers = m.writers[1:]
		m.writer = true
		zs.Wake(t)
	}
	zs.Y(zs.HarnessSite)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker stands for sync.RWMutex.RLocker.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once stands for sync.Once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if o.done {
		return
	}
	defer func() { o.done = true }()
	f()
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) {
		o.Do(func() { v1, v2 = f() })
		return v1, v2
	}
}

// WaitGroup stands for sync.WaitGroup.
type WaitGroup struct {
	n     int
	queue []*zs.Task
	sem   byte
	live  real.WaitGroup
}

//go:norace
func (wg *WaitGroup) Add(n int) {
	if zs.Current() == nil {
		wg.live.Add(n)
		return
	}
	if n < 0 {
		zs.ReleaseMerge(&wg.sem)
	}
	wg.n += n
	if wg.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if wg.n == 0 {
		for _, t := range wg.queue {
			zs.Wake(t)
		}
		wg.queue = nil
	}
	zs.Y(zs.HarnessSite)
}

func (wg *WaitGroup) Done() { wg.Add(-1) }

//go:norace
func (wg *WaitGroup) Wait() {
	t := zs.Current()
	if t == nil {
		wg.live.Wait()
		return
	}
	for wg.n > 0 {
		wg.queue = append(wg.queue, t)
		zs.Block("a wait group")
	}
	zs.Acquire(&wg.sem)
}

func (wg *WaitGroup) Go(f func()) {
	wg.Add(1)
	zs.Go(func() {
		defer wg.Done()
		f()
	})
}

// Cond stands for sync.Cond.
type Cond struct {
	L     Locker
	queue []*zs.Task
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) Wait() {
	c.queue = append(c.queue, zs.Current())
	c.L.Unlock()
	for _, t := range c.queue {
		if t == zs.Current() {
			zs.Block("a condition")
			break
		}
	}
	c.L.Lock()
}

//go:norace
func (c *Cond) Signal() {
	if len(c.queue) > 0 {
		t := c.queue[0]
		c.queue = c.queue[1:]
		zs.Wake(t)
	}
}

//go:norace
func (c *Cond) Broadcast() {
	for _, t := range c.queue {
		zs.Wake(t)
	}
	c.queue = nil
}

// Pool stands for sync.Pool.
type Pool struct {
	New   func() any
	items []any
}

//go:norace
func (p *Pool) Get() any {
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

//go:norace
func (p *Pool) Put(x any) { p.items = append(p.items, x) }
