// Package ssync stands in for package sync in the instrumented code: the same operations with scheduling points.
package ssync

import (
	"sync"
	"unsafe"

	"verif/harness/sched"
)

type (
	// Locker is sync.Locker.
	Locker = sync.Locker
	// Pool is sync.Pool.
	Pool = sync.Pool
	// Cond is sync.Cond.
	Cond = sync.Cond
	// WaitGroup is sync.WaitGroup.
	WaitGroup = sync.WaitGroup
)

// Map is a sync.Map with scheduling points.
type Map struct{ m sync.Map }

// Load is sync.Map's.
func (m *Map) Load(k any) (any, bool) { sched.S(); return m.m.Load(k) }

// Store is sync.Map's.
func (m *Map) Store(k, v any) { sched.S(); m.m.Store(k, v) }

// LoadOrStore is sync.Map's.
func (m *Map) LoadOrStore(k, v any) (any, bool) { sched.S(); return m.m.LoadOrStore(k, v) }

// LoadAndDelete is sync.Map's.
func (m *Map) LoadAndDelete(k any) (any, bool) { sched.S(); return m.m.LoadAndDelete(k) }

// Delete is sync.Map's.
func (m *Map) Delete(k any) { sched.S(); m.m.Delete(k) }

// Swap is sync.Map's.
func (m *Map) Swap(k, v any) (any, bool) { sched.S(); return m.m.Swap(k, v) }

// CompareAndSwap is sync.Map's.
func (m *Map) CompareAndSwap(k, o, n any) bool { sched.S(); return m.m.CompareAndSwap(k, o, n) }

// CompareAndDelete is sync.Map's.
func (m *Map) CompareAndDelete(k, o any) bool { sched.S(); return m.m.CompareAndDelete(k, o) }

// Range is sync.Map's.
func (m *Map) Range(f func(k, v any) bool) { sched.S(); m.m.Range(f) }

// NewCond is sync.NewCond.
func NewCond(l Locker) *Cond { return sync.NewCond(l) }

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() { var o Once; return func() { o.Do(f) } }

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// OnceValues is sync.OnceValues.
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var w U
	return func() (T, U) { o.Do(func() { v, w = f() }); return v, w }
}

// Mutex is a sync.Mutex the scheduler knows.
type Mutex struct{ m sync.Mutex }

// Lock locks m.
func (m *Mutex) Lock() {
	sched.S()
	for !m.m.TryLock() {
		if !sched.Block(uintptr(unsafe.Pointer(m))) {
			m.m.Lock()
			return
		}
	}
}

// TryLock tries to lock m.
func (m *Mutex) TryLock() bool { sched.S(); return m.m.TryLock() }

// Unlock unlocks m.
func (m *Mutex) Unlock() {
	m.m.Unlock()
	sched.Wake(uintptr(unsafe.Pointer(m)))
	sched.S()
}

// RWMutex is a sync.RWMutex the scheduler knows.
type RWMutex struct{ m sync.RWMutex }

// Lock locks m.
func (m *RWMutex) Lock() {
	sched.S()
	for !m.m.TryLock() {
		if !sched.Block(uintptr(unsafe.Pointer(m))) {
			m.m.Lock()
			return
		}
	}
}

// RLock locks m for reading.
func (m *RWMutex) RLock() {
	sched.S()
	for !m.m.TryRLock() {
		if !sched.Block(uintptr(unsafe.Pointer(m))) {
			m.m.RLock()
			return
		}
	}
}

// TryLock tries to lock m.
func (m *RWMutex) TryLock() bool { sched.S(); return m.m.TryLock() }

// TryRLock tries to lock m for reading.
func (m *RWMutex) TryRLock() bool { sched.S(); return m.m.TryRLock() }

// Unlock unlocks m.
func (m *RWMutex) Unlock() {
	m.m.Unlock()
	sched.Wake(uintptr(unsafe.Pointer(m)))
	sched.S()
}

// RUnlock unlocks m for reading.
func (m *RWMutex) RUnlock() {
	m.m.RUnlock()
	sched.Wake(uintptr(unsafe.Pointer(m)))
	sched.S()
}

// RLocker is the read side of m.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Once is a sync.Once the scheduler knows.
type Once struct {
	m    Mutex
	done bool
}

// Do calls f the first time.
func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}
