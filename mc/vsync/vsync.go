// Package vsync is package sync under the scheduler of package vs.
package vsync

import (
	"sync"

	"verif.local/mc/vs"
)

// Locker is sync.Locker.
type Locker = sync.Locker

// Map is sync.Map, whose operations are atomic.
type Map = sync.Map

// Pool is sync.Pool, whose operations are atomic.
type Pool = sync.Pool

// Mutex is a mutual exclusion lock.
type Mutex struct {
	held bool
	m    sync.Mutex
}

// Lock locks.
func (m *Mutex) Lock() {
	if !vs.Active() {
		m.m.Lock()
		return
	}
	vs.Await("Mutex", func() bool { return !m.held })
	m.held = true
}

// TryLock locks if possible.
func (m *Mutex) TryLock() bool {
	if !vs.Active() {
		return m.m.TryLock()
	}
	vs.Yield()
	if m.held {
		return false
	}
	m.held = true
	return true
}

// Unlock unlocks.
func (m *Mutex) Unlock() {
	if !vs.Active() {
		m.m.Unlock()
		return
	}
	if !m.held {
		panic("unlock of unlocked mutex")
	}
	m.held = false
	vs.Yield()
}

// RWMutex is a reader/writer lock.
type RWMutex struct {
	w bool
	r int
	m sync.RWMutex
}

// Lock locks for writing.
func (m *RWMutex) Lock() {
	if !vs.Active() {
		m.m.Lock()
		return
	}
	vs.Await("RWMutex", func() bool { return !m.w && m.r == 0 })
	m.w = true
}

// Unlock unlocks.
func (m *RWMutex) Unlock() {
	if !vs.Active() {
		m.m.Unlock()
		return
	}
	if !m.w {
		panic("unlock of unlocked mutex")
	}
	m.w = false
	vs.Yield()
}

// RLock locks for reading.
func (m *RWMutex) RLock() {
	if !vs.Active() {
		m.m.RLock()
		return
	}
	vs.Await("RWMutex", func() bool { return !m.w })
	m.r++
}

// RUnlock unlocks.
func (m *RWMutex) RUnlock() {
	if !vs.Active() {
		m.m.RUnlock()
		return
	}
	if m.r == 0 {
		panic("unlock of unlocked mutex")
	}
	m.r--
	vs.Yield()
}

// RLocker is a Locker for reading.
func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type rlocker struct{ m *RWMutex }

func (l rlocker) Lock()   { l.m.RLock() }
func (l rlocker) Unlock() { l.m.RUnlock() }

// WaitGroup waits for a number of threads.
type WaitGroup struct {
	n  int
	wg sync.WaitGroup
}

// Add adds to the number.
func (wg *WaitGroup) Add(n int) {
	if !vs.Active() {
		wg.wg.Add(n)
		return
	}
	vs.Yield()
	if wg.n += n; wg.n < 0 {
		panic("negative WaitGroup counter")
	}
}

// Done is Add(-1).
func (wg *WaitGroup) Done() { wg.Add(-1) }

// Wait waits.
func (wg *WaitGroup) Wait() {
	if !vs.Active() {
		wg.wg.Wait()
		return
	}
	vs.Await("WaitGroup", func() bool { return wg.n == 0 })
}

// Go starts a thread to be waited for.
func (wg *WaitGroup) Go(f func()) {
	wg.Add(1)
	vs.Go(func() {
		defer wg.Done()
		f()
	})
}

// Once does something once.
type Once struct {
	m    Mutex
	done bool
}

// Do calls f the first time.
func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc returns a function that calls f once.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// Cond is a condition variable.
type Cond struct {
	L Locker
	n []*bool
}

// NewCond makes a condition variable.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

// Wait waits for Signal or Broadcast.
func (c *Cond) Wait() {
	ok := false
	c.n = append(c.n, &ok)
	c.L.Unlock()
	vs.Await("Cond", func() bool { return ok })
	c.L.Lock()
}

// Signal wakes one thread.
func (c *Cond) Signal() {
	vs.Yield()
	if len(c.n) > 0 {
		*c.n[0] = true
		c.n = c.n[1:]
	}
}

// Broadcast wakes all threads.
func (c *Cond) Broadcast() {
	vs.Yield()
	for _, ok := range c.n {
		*ok = true
	}
	c.n = nil
}
