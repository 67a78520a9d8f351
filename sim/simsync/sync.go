// Package simsync stands in for package sync in the instrumented code: the
// same types, blocking in the simulator's scheduler.
package simsync

import (
	"sync"
	"unsafe"

	"wpkverif/simrt"
)

// Locker is sync.Locker.
type Locker = sync.Locker

// Contended counts the locks that had to wait.
var Contended int64

// Mutex is a simulated sync.Mutex.
type Mutex struct {
	held bool
}

// Lock locks m.
func (m *Mutex) Lock() {
	simrt.Point()
	if m.held {
		Contended++
		simrt.Block("mutex", func() bool { return !m.held })
	}
	m.held = true
	simrt.Acq(unsafe.Pointer(m))
}

// TryLock tries to lock m.
func (m *Mutex) TryLock() bool {
	simrt.Point()
	if m.held {
		return false
	}
	m.held = true
	simrt.Acq(unsafe.Pointer(m))
	return true
}

// Unlock unlocks m.
func (m *Mutex) Unlock() {
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	m.held = false
	simrt.Rel(unsafe.Pointer(m))
	simrt.Point()
}

// RWMutex is a simulated sync.RWMutex: a waiting writer keeps new readers out.
type RWMutex struct {
	readers int
	writer  bool
	pending int
}

// acqw orders a writer after the writers and the readers before it.
func (rw *RWMutex) acqw() {
	simrt.Acq(unsafe.Pointer(&rw.writer))
	simrt.Acq(unsafe.Pointer(&rw.readers))
}

// Lock locks rw for writing.
func (rw *RWMutex) Lock() {
	simrt.Point()
	if rw.writer || rw.readers > 0 {
		Contended++
		rw.pending++
		simrt.Block("rwmutex(w)", func() bool { return !rw.writer && rw.readers == 0 })
		rw.pending--
	}
	rw.writer = true
	rw.acqw()
}

// TryLock tries to lock rw for writing.
func (rw *RWMutex) TryLock() bool {
	simrt.Point()
	if rw.writer || rw.readers > 0 {
		return false
	}
	rw.writer = true
	rw.acqw()
	return true
}

// Unlock unlocks rw for writing.
func (rw *RWMutex) Unlock() {
	if !rw.writer {
		panic("sync: Unlock of unlocked RWMutex")
	}
	rw.writer = false
	simrt.Rel(unsafe.Pointer(&rw.writer))
	simrt.Point()
}

// RLock locks rw for reading.
func (rw *RWMutex) RLock() {
	simrt.Point()
	if rw.writer || rw.pending > 0 {
		Contended++
		simrt.Block("rwmutex(r)", func() bool { return !rw.writer && rw.pending == 0 })
	}
	rw.readers++
	simrt.Acq(unsafe.Pointer(&rw.writer))
}

// TryRLock tries to lock rw for reading.
func (rw *RWMutex) TryRLock() bool {
	simrt.Point()
	if rw.writer || rw.pending > 0 {
		return false
	}
	rw.readers++
	simrt.Acq(unsafe.Pointer(&rw.writer))
	return true
}

// RUnlock undoes a single RLock call.
func (rw *RWMutex) RUnlock() {
	if rw.readers <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	rw.readers--
	simrt.Rel(unsafe.Pointer(&rw.readers))
	simrt.Point()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker returns a Locker for reading.
func (rw *RWMutex) RLocker() Locker { return (*rlocker)(rw) }

// Once is a simulated sync.Once.
type Once struct {
	done bool
	m    Mutex
}

// Do calls f once.
func (o *Once) Do(f func()) {
	if o.done {
		simrt.Acq(unsafe.Pointer(&o.m))
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// OnceValues is sync.OnceValues.
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var a T1
	var b T2
	return func() (T1, T2) { o.Do(func() { a, b = f() }); return a, b }
}

// WaitGroup is a simulated sync.WaitGroup.
type WaitGroup struct{ n int }

// Add adds delta.
func (wg *WaitGroup) Add(delta int) {
	wg.n += delta
	if wg.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	simrt.Rel(unsafe.Pointer(wg))
	simrt.Point()
}

// Done takes one off.
func (wg *WaitGroup) Done() { wg.Add(-1) }

// Wait blocks until the counter is zero.
func (wg *WaitGroup) Wait() {
	simrt.Point()
	if wg.n > 0 {
		simrt.Block("waitgroup", func() bool { return wg.n == 0 })
	}
	simrt.Acq(unsafe.Pointer(wg))
}

// Go runs f in a task.
func (wg *WaitGroup) Go(f func()) {
	wg.Add(1)
	simrt.Go(func() { defer wg.Done(); f() })
}

// Cond is a simulated sync.Cond.
type Cond struct {
	L       Locker
	waiters []*bool
}

// NewCond is sync.NewCond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

// Wait waits for a signal.
func (c *Cond) Wait() {
	ready := new(bool)
	c.waiters = append(c.waiters, ready)
	c.L.Unlock()
	simrt.Block("cond", func() bool { return *ready })
	simrt.Acq(unsafe.Pointer(c))
	c.L.Lock()
}

// Signal wakes one waiter.
func (c *Cond) Signal() {
	simrt.Rel(unsafe.Pointer(c))
	if len(c.waiters) > 0 {
		*c.waiters[0] = true
		c.waiters = c.waiters[1:]
	}
	simrt.Point()
}

// Broadcast wakes all waiters.
func (c *Cond) Broadcast() {
	simrt.Rel(unsafe.Pointer(c))
	for _, r := range c.waiters {
		*r = true
	}
	c.waiters = nil
	simrt.Point()
}

// Pool is a simulated sync.Pool; it keeps everything.
type Pool struct {
	New func() any
	l   []any
}

// Get takes an item.
func (p *Pool) Get() any {
	simrt.Point()
	simrt.Acq(unsafe.Pointer(p))
	if n := len(p.l); n > 0 {
		v := p.l[n-1]
		p.l = p.l[:n-1]
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Put gives an item back.
func (p *Pool) Put(v any) {
	simrt.Rel(unsafe.Pointer(p))
	p.l = append(p.l, v)
	simrt.Point()
}

// Map is a simulated sync.Map.
type Map struct {
	keys []any
	m    map[any]any
}

func (m *Map) set(k, v any) {
	if m.m == nil {
		m.m = map[any]any{}
	}
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}

func (m *Map) del(k any) {
	if _, ok := m.m[k]; ok {
		delete(m.m, k)
		for i, o := range m.keys {
			if o == k {
				m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
				break
			}
		}
	}
}

func (m *Map) point() {
	simrt.Point()
	simrt.Acq(unsafe.Pointer(m))
	simrt.Rel(unsafe.Pointer(m))
}

// Load is sync.Map.Load.
func (m *Map) Load(k any) (v any, ok bool) { m.point(); v, ok = m.m[k]; return }

// Store is sync.Map.Store.
func (m *Map) Store(k, v any) { m.point(); m.set(k, v) }

// LoadOrStore is sync.Map.LoadOrStore.
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.point()
	if o, ok := m.m[k]; ok {
		return o, true
	}
	m.set(k, v)
	return v, false
}

// LoadAndDelete is sync.Map.LoadAndDelete.
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.point()
	v, ok := m.m[k]
	m.del(k)
	return v, ok
}

// Delete is sync.Map.Delete.
func (m *Map) Delete(k any) { m.point(); m.del(k) }

// Swap is sync.Map.Swap.
func (m *Map) Swap(k, v any) (any, bool) {
	m.point()
	o, ok := m.m[k]
	m.set(k, v)
	return o, ok
}

// CompareAndSwap is sync.Map.CompareAndSwap.
func (m *Map) CompareAndSwap(k, old, new any) bool {
	m.point()
	if o, ok := m.m[k]; ok && o == old {
		m.set(k, new)
		return true
	}
	return false
}

// CompareAndDelete is sync.Map.CompareAndDelete.
func (m *Map) CompareAndDelete(k, old any) bool {
	m.point()
	if o, ok := m.m[k]; ok && o == old {
		m.del(k)
		return true
	}
	return false
}

// Range is sync.Map.Range.
func (m *Map) Range(f func(k, v any) bool) {
	m.point()
	for _, k := range append([]any(nil), m.keys...) {
		if v, ok := m.m[k]; ok && !f(k, v) {
			return
		}
	}
}

// Clear is sync.Map.Clear.
func (m *Map) Clear() { m.point(); m.keys, m.m = nil, nil }
