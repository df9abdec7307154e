// Package syncx has the interface of package sync with locks that block cooperatively under package sched (and work as
// usual elsewhere).
package syncx

import (
	"sync"
	"unsafe"

	"verif/mc/sched"
)

type (
	Pool   = sync.Pool
	Map    = sync.Map
	Locker = sync.Locker
)

func OnceFunc(f func()) func()                           { return sync.OnceFunc(f) }
func OnceValue[T any](f func() T) func() T               { return sync.OnceValue(f) }
func OnceValues[A, B any](f func() (A, B)) func() (A, B) { return sync.OnceValues(f) }

// Mutex is a mutual exclusion lock.
type Mutex struct{ held bool }

func (m *Mutex) Lock() {
	m.lock()
	sched.Acquire(unsafe.Pointer(m))
}

func (m *Mutex) lock() {
	sched.Y("Mutex.Lock")
	sched.Lock()
	defer sched.Unlock()
	sched.Block(m, "waiting for a mutex", func() bool { return !m.held })
	m.held = true
}

func (m *Mutex) TryLock() bool {
	ok := m.tryLock()
	if ok {
		sched.Acquire(unsafe.Pointer(m))
	}
	return ok
}

func (m *Mutex) tryLock() bool {
	sched.Y("Mutex.TryLock")
	sched.Lock()
	defer sched.Unlock()
	if m.held {
		return false
	}
	m.held = true
	return true
}

func (m *Mutex) Unlock() {
	sched.Release(unsafe.Pointer(m))
	m.unlock()
}

func (m *Mutex) unlock() {
	sched.Lock()
	defer sched.Unlock()
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	m.held = false
	sched.Wake(m)
}

// RWMutex is a reader/writer lock; a waiting writer keeps new readers out.
type RWMutex struct {
	w        bool
	readers  int
	writersW int   // waiting writers
	waiting  []*rw // waiting readers
}

type rw struct{ granted bool }

func (m *RWMutex) Lock() {
	m.lock()
	sched.Acquire(unsafe.Pointer(&m.w))
	sched.Acquire(unsafe.Pointer(&m.readers))
}

func (m *RWMutex) lock() {
	sched.Y("RWMutex.Lock")
	sched.Lock()
	defer sched.Unlock()
	m.writersW++
	ok := false
	defer func() {
		m.writersW--
		if !ok {
			sched.Wake(m)
		}
	}()
	sched.Block(m, "waiting for a write lock", func() bool { return !m.w && m.readers == 0 })
	m.w, ok = true, true
}

func (m *RWMutex) TryLock() bool {
	ok := m.tryLock()
	if ok {
		sched.Acquire(unsafe.Pointer(&m.w))
		sched.Acquire(unsafe.Pointer(&m.readers))
	}
	return ok
}

func (m *RWMutex) tryLock() bool {
	sched.Y("RWMutex.TryLock")
	sched.Lock()
	defer sched.Unlock()
	if m.w || m.readers > 0 {
		return false
	}
	m.w = true
	return true
}

func (m *RWMutex) Unlock() {
	sched.Release(unsafe.Pointer(&m.w))
	m.unlock()
}

func (m *RWMutex) unlock() {
	sched.Lock()
	defer sched.Unlock()
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	for _, x := range m.waiting {
		x.granted = true
		m.readers++
	}
	m.waiting = nil
	sched.Wake(m)
}

func (m *RWMutex) RLock() {
	m.rlock()
	sched.Acquire(unsafe.Pointer(&m.w))
}

func (m *RWMutex) rlock() {
	sched.Y("RWMutex.RLock")
	sched.Lock()
	defer sched.Unlock()
	if !m.w && m.writersW == 0 {
		m.readers++
		return
	}
	x := &rw{}
	m.waiting = append(m.waiting, x)
	sched.Block(m, "waiting for a read lock", func() bool {
		if !x.granted && !m.w && m.writersW == 0 {
			x.granted = true
			m.readers++
			for i, y := range m.waiting {
				if y == x {
					m.waiting = append(m.waiting[:i:i], m.waiting[i+1:]...)
					break
				}
			}
		}
		return x.granted
	})
}

func (m *RWMutex) TryRLock() bool {
	ok := m.tryRLock()
	if ok {
		sched.Acquire(unsafe.Pointer(&m.w))
	}
	return ok
}

func (m *RWMutex) tryRLock() bool {
	sched.Y("RWMutex.TryRLock")
	sched.Lock()
	defer sched.Unlock()
	if m.w || m.writersW > 0 {
		return false
	}
	m.readers++
	return true
}

func (m *RWMutex) RUnlock() {
	sched.Release(unsafe.Pointer(&m.readers))
	m.runlock()
}

func (m *RWMutex) runlock() {
	sched.Lock()
	defer sched.Unlock()
	if m.readers == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	sched.Wake(m)
}

// RLocker returns a Locker using RLock and RUnlock.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Once runs a function once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// WaitGroup waits for a collection of goroutines.
type WaitGroup struct{ n int }

func (w *WaitGroup) Add(d int) {
	if d < 0 {
		sched.Release(unsafe.Pointer(w))
	}
	sched.Lock()
	defer sched.Unlock()
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		sched.Wake(w)
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	go func() {
		defer w.Done()
		f()
	}()
}

func (w *WaitGroup) Wait() {
	w.wait()
	sched.Acquire(unsafe.Pointer(w))
}

func (w *WaitGroup) wait() {
	sched.Y("WaitGroup.Wait")
	sched.Lock()
	defer sched.Unlock()
	sched.Block(w, "waiting for a wait group", func() bool { return w.n == 0 })
}

// Cond is a condition variable.
type Cond struct {
	L       Locker
	waiting []*rw
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	x := &rw{}
	sched.Lock()
	c.waiting = append(c.waiting, x)
	sched.Unlock()
	c.L.Unlock()
	sched.Lock()
	sched.Block(c, "waiting for a condition", func() bool { return x.granted })
	sched.Unlock()
	sched.Acquire(unsafe.Pointer(c))
	c.L.Lock()
}

func (c *Cond) Signal() {
	sched.Release(unsafe.Pointer(c))
	sched.Lock()
	defer sched.Unlock()
	if len(c.waiting) > 0 {
		c.waiting[0].granted = true
		c.waiting = c.waiting[1:]
		sched.Wake(c)
	}
}

func (c *Cond) Broadcast() {
	sched.Release(unsafe.Pointer(c))
	sched.Lock()
	defer sched.Unlock()
	for _, x := range c.waiting {
		x.granted = true
	}
	c.waiting = nil
	sched.Wake(c)
}
