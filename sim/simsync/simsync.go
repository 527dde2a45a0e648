// Package simsync replaces "sync" in the code under test. Locks are under the control of the simulator: in a simulation with
// one thread a lock that is already held is a deadlock, and in the concurrency simulation the scheduler decides who gets it.
package simsync

import (
	"runtime"
	"sync"
	"sync/atomic"
)

type (
	Locker    = sync.Locker
	WaitGroup = sync.WaitGroup
	Cond      = sync.Cond
	Map       = sync.Map
	Pool      = sync.Pool
)

func NewCond(l Locker) *Cond { return sync.NewCond(l) }

// Once is a sync.Once whose callers wait under the control of the simulator.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) {
		o.Do(func() { v1, v2 = f() })
		return v1, v2
	}
}

// Block, if set, suspends the calling goroutine until free returns true (the concurrency simulator).
var Block func(free func() bool)

// Mutex is a sync.Mutex under the control of the simulator.
type Mutex struct {
	mu    sync.Mutex
	held  bool
	owner uint64
}

//go:norace
func (m *Mutex) free() bool { return !m.held }

//go:norace
func (m *Mutex) setHeld(b bool) { m.held, m.owner = b, runtime.SimGoid() }

//go:norace
func (m *Mutex) Lock() {
	if Block != nil {
		Block(m.free)
	} else if m.held {
		wait("Mutex.Lock", m.owner, m.mu.TryLock)
		m.setHeld(true)
		return
	}
	m.mu.Lock()
	m.setHeld(true)
}

//go:norace
func (m *Mutex) TryLock() bool {
	if Block != nil {
		Block(alwaysFree)
	}
	if m.held || !m.mu.TryLock() {
		return false
	}
	m.setHeld(true)
	return true
}

func alwaysFree() bool { return true }

//go:norace
func (m *Mutex) Unlock() {
	m.held = false
	m.mu.Unlock()
	if Block != nil {
		Block(alwaysFree)
	}
}

// wait acquires a lock that is held while there is no scheduler: by the goroutine itself, which is a deadlock, or by another
// one that the code under test has started, which has some time to release it.
func wait(what string, owner uint64, try func() bool) {
	if owner != runtime.SimGoid() {
		for i := 0; i < 3000000; i++ {
			if try() {
				return
			}
			runtime.Gosched()
		}
	}
	panic("simsync: deadlock: " + what + " of a lock that is held")
}

// RWMutex is a sync.RWMutex under the control of the simulator.
type RWMutex struct {
	mu      sync.RWMutex
	writer  bool
	owner   uint64 // the last one who acquired it
	readers int32
}

//go:norace
func (m *RWMutex) wfree() bool { return !m.writer && m.readers == 0 }

//go:norace
func (m *RWMutex) rfree() bool { return !m.writer }

// count must not look like synchronisation of the code under test where the race detector watches.
//
//go:norace
func (m *RWMutex) count(n int32) {
	if Block != nil {
		m.readers += n
	} else {
		atomic.AddInt32(&m.readers, n)
	}
}

//go:norace
func (m *RWMutex) got(writer bool, readers int32) {
	m.writer = writer
	m.count(readers)
	m.owner = runtime.SimGoid()
}

//go:norace
func (m *RWMutex) Lock() {
	if Block != nil {
		Block(m.wfree)
		m.mu.Lock()
	} else if m.wfree() {
		m.mu.Lock()
	} else {
		wait("RWMutex.Lock", m.owner, m.mu.TryLock)
	}
	m.got(true, 0)
}

//go:norace
func (m *RWMutex) Unlock() {
	m.writer = false
	m.mu.Unlock()
	if Block != nil {
		Block(alwaysFree)
	}
}

//go:norace
func (m *RWMutex) RLock() {
	if Block != nil {
		Block(m.rfree)
		m.mu.RLock()
	} else if m.rfree() {
		m.mu.RLock()
	} else {
		wait("RWMutex.RLock", m.owner, m.mu.TryRLock)
	}
	m.got(false, 1)
}

//go:norace
func (m *RWMutex) RUnlock() {
	m.count(-1)
	m.mu.RUnlock()
	if Block != nil {
		Block(alwaysFree)
	}
}

//go:norace
func (m *RWMutex) TryLock() bool {
	if Block != nil {
		Block(alwaysFree)
	}
	if !m.wfree() || !m.mu.TryLock() {
		return false
	}
	m.got(true, 0)
	return true
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	if Block != nil {
		Block(alwaysFree)
	}
	if !m.rfree() || !m.mu.TryRLock() {
		return false
	}
	m.got(false, 1)
	return true
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }
