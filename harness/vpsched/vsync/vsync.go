// Package vsync replaces sync in the controlled replay build: same API, but blocked lockers block on channels, so
// that the schedule controller sees that they are blocked.
package vsync

import (
	"fmt"
	"os"
	"sync"

	"vpharness/vpsched"
)

type (
	Locker    = sync.Locker
	Once      = sync.Once
	WaitGroup = sync.WaitGroup
	Map       = sync.Map
	Pool      = sync.Pool
)

func OnceFunc(f func()) func()                           { return sync.OnceFunc(f) }
func OnceValue[T any](f func() T) func() T               { return sync.OnceValue(f) }
func NewCond(l Locker) *Cond                             { return &Cond{L: l} }
func OnceValues[A, B any](f func() (A, B)) func() (A, B) { return sync.OnceValues(f) }

func fatal(msg string) {
	fmt.Printf("fatal error: %s\n", msg)
	os.Exit(2)
}

type waiters struct{ q []chan struct{} }

func (w *waiters) add() chan struct{} {
	c := make(chan struct{})
	w.q = append(w.q, c)
	return c
}
func (w *waiters) wakeAll() {
	for _, c := range w.q {
		close(c)
	}
	w.q = nil
}

type Mutex struct {
	mu     sync.Mutex
	locked bool
	w      waiters
}

func (m *Mutex) TryLock() bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.locked {
		return false
	}
	m.locked = true
	return true
}
func (m *Mutex) Lock() {
	for {
		m.mu.Lock()
		if !m.locked {
			m.locked = true
			m.mu.Unlock()
			return
		}
		c := m.w.add()
		m.mu.Unlock()
		<-c
		vpsched.P()
	}
}
func (m *Mutex) Unlock() {
	m.mu.Lock()
	if !m.locked {
		fatal("sync: unlock of unlocked mutex")
	}
	m.locked = false
	m.w.wakeAll()
	m.mu.Unlock()
	vpsched.P()
}

type RWMutex struct {
	mu      sync.Mutex
	writer  bool
	pending int
	readers int
	w       waiters
}

func (m *RWMutex) TryLock() bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	return true
}
func (m *RWMutex) TryRLock() bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.writer || m.pending > 0 {
		return false
	}
	m.readers++
	return true
}
func (m *RWMutex) Lock() {
	m.mu.Lock()
	m.pending++
	for m.writer || m.readers > 0 {
		c := m.w.add()
		m.mu.Unlock()
		<-c
		vpsched.P()
		m.mu.Lock()
	}
	m.pending--
	m.writer = true
	m.mu.Unlock()
}
func (m *RWMutex) Unlock() {
	m.mu.Lock()
	if !m.writer {
		fatal("sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	m.w.wakeAll()
	m.mu.Unlock()
	vpsched.P()
}
func (m *RWMutex) RLock() {
	m.mu.Lock()
	for m.writer || m.pending > 0 {
		c := m.w.add()
		m.mu.Unlock()
		<-c
		vpsched.P()
		m.mu.Lock()
	}
	m.readers++
	m.mu.Unlock()
}
func (m *RWMutex) RUnlock() {
	m.mu.Lock()
	if m.readers == 0 {
		fatal("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	if m.readers == 0 {
		m.w.wakeAll()
	}
	m.mu.Unlock()
	vpsched.P()
}

type rlocker RWMutex

func (r *rlocker) Lock()           { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock()         { (*RWMutex)(r).RUnlock() }
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type Cond struct {
	L  Locker
	mu sync.Mutex
	w  waiters
}

func (c *Cond) Wait() {
	c.mu.Lock()
	ch := c.w.add()
	c.mu.Unlock()
	c.L.Unlock()
	<-ch
	c.L.Lock()
}
func (c *Cond) Signal() {
	c.mu.Lock()
	if len(c.w.q) > 0 {
		close(c.w.q[0])
		c.w.q = c.w.q[1:]
	}
	c.mu.Unlock()
}
func (c *Cond) Broadcast() {
	c.mu.Lock()
	c.w.wakeAll()
	c.mu.Unlock()
}
