// Package vsync stands in for sync in rewritten sources.
package vsync

import (
	"sync"

	"verifharness/vs"
)

// Locker is sync.Locker.
type Locker = sync.Locker

// Mutex is a mutual exclusion lock.
type Mutex struct {
	locked bool
	ep     int64
}

func (m *Mutex) fresh() {
	if e := vs.Epoch(); m.ep != e {
		m.ep = e
		m.locked = false
	}
}

// Lock locks.
func (m *Mutex) Lock() {
	vs.Point()
	m.fresh()
	vs.Block("mutex", func() bool { return !m.locked })
	m.locked = true
}

// TryLock tries.
func (m *Mutex) TryLock() bool {
	vs.Point()
	m.fresh()
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

// Unlock unlocks.
func (m *Mutex) Unlock() {
	if vs.Killing() {
		return
	}
	vs.Point()
	m.fresh()
	if !m.locked {
		panic("fatal error: sync: unlock of unlocked mutex")
	}
	m.locked = false
}

// RWMutex is a reader/writer lock in which a waiting writer excludes new readers.
type RWMutex struct {
	w       Mutex
	readers int
	announ  bool
	waiting []*bool
	ep      int64
}

func (m *RWMutex) fresh() {
	if e := vs.Epoch(); m.ep != e {
		*m = RWMutex{ep: e}
		m.w.ep = e
	}
}

// Lock locks for writing.
func (m *RWMutex) Lock() {
	vs.Point()
	m.fresh()
	vs.Block("rwmutex writer", func() bool { return !m.w.locked })
	m.w.locked = true
	m.announ = true
	vs.Block("rwmutex readers", func() bool { return m.readers == 0 })
}

// TryLock tries.
func (m *RWMutex) TryLock() bool {
	vs.Point()
	m.fresh()
	if m.w.locked || m.readers > 0 {
		return false
	}
	m.w.locked, m.announ = true, true
	return true
}

// Unlock unlocks for writing.
func (m *RWMutex) Unlock() {
	if vs.Killing() {
		return
	}
	vs.Point()
	m.fresh()
	if !m.announ {
		panic("fatal error: sync: Unlock of unlocked RWMutex")
	}
	m.announ = false
	for _, t := range m.waiting {
		*t = true
		m.readers++
	}
	m.waiting = nil
	m.w.locked = false
}

// RLock locks for reading.
func (m *RWMutex) RLock() {
	vs.Point()
	m.fresh()
	if !m.announ {
		m.readers++
		return
	}
	t := new(bool)
	m.waiting = append(m.waiting, t)
	vs.Block("rwmutex reader", func() bool { return *t })
}

// TryRLock tries.
func (m *RWMutex) TryRLock() bool {
	vs.Point()
	m.fresh()
	if m.announ {
		return false
	}
	m.readers++
	return true
}

// RUnlock unlocks for reading.
func (m *RWMutex) RUnlock() {
	if vs.Killing() {
		return
	}
	vs.Point()
	m.fresh()
	if m.readers <= 0 {
		panic("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker is the reading side.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once runs once.
type Once struct {
	m    Mutex
	done bool
}

// Do runs f on the first call.
func (o *Once) Do(f func()) {
	vs.Point()
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() {
			vs.Point()
			o.done = true
		}()
		f()
	}
}

// OnceFunc is sync.OnceFunc: a panic of f reaches every call.
func OnceFunc(f func()) func() {
	var o Once
	var p any
	ok := false
	return func() {
		o.Do(func() {
			defer func() {
				if !ok {
					p = recover()
				}
			}()
			f()
			ok = true
		})
		if !ok {
			panic(p)
		}
	}
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var v T
	do := OnceFunc(func() { v = f() })
	return func() T { do(); return v }
}

// OnceValues is sync.OnceValues.
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var v T
	var u U
	do := OnceFunc(func() { v, u = f() })
	return func() (T, U) { do(); return v, u }
}

// WaitGroup waits.
type WaitGroup struct{ n int }

// Add adds.
func (w *WaitGroup) Add(d int) {
	vs.Point()
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

// Done subtracts one.
func (w *WaitGroup) Done() { w.Add(-1) }

// Wait waits for zero.
func (w *WaitGroup) Wait() {
	vs.Point()
	vs.Block("waitgroup", func() bool { return w.n == 0 })
}

// Go runs f in a goroutine.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vs.Go(func() { defer w.Done(); f() })
}

// Cond is a condition variable.
type Cond struct {
	L Locker
	q []*bool
}

// NewCond makes one.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

// Wait waits.
func (c *Cond) Wait() {
	t := new(bool)
	c.q = append(c.q, t)
	c.L.Unlock()
	vs.Block("cond", func() bool { return *t })
	c.L.Lock()
}

// Signal wakes one.
func (c *Cond) Signal() {
	vs.Point()
	if len(c.q) > 0 {
		*c.q[0] = true
		c.q = c.q[1:]
	}
}

// Broadcast wakes all.
func (c *Cond) Broadcast() {
	vs.Point()
	for _, t := range c.q {
		*t = true
	}
	c.q = nil
}

// Pool hands out the most recently returned object first.
type Pool struct {
	New   func() any
	items []any
	ep    int64
}

func (p *Pool) fresh() {
	if e := vs.Epoch(); p.ep != e && p.ep != 0 {
		p.items = nil
	}
	p.ep = vs.Epoch()
}

// Get takes an object.
func (p *Pool) Get() any {
	vs.Point()
	p.fresh()
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[: n-1 : n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Put returns an object.
func (p *Pool) Put(x any) {
	vs.Point()
	p.fresh()
	if x == nil {
		return
	}
	p.items = append(p.items, x)
}

// Map is sync.Map.
type Map struct {
	m    map[any]any
	keys []any
	ep   int64
}

func (m *Map) fresh() {
	if e := vs.Epoch(); m.ep != e && m.ep != 0 {
		m.m, m.keys = nil, nil
	}
	m.ep = vs.Epoch()
	if m.m == nil {
		m.m = map[any]any{}
	}
}

func (m *Map) del(k any) {
	delete(m.m, k)
	for i, x := range m.keys {
		if x == k {
			m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
			return
		}
	}
}

func (m *Map) set(k, v any) {
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}

// Load and the rest are as in sync.Map.
func (m *Map) Load(k any) (any, bool) { vs.Point(); m.fresh(); v, ok := m.m[k]; return v, ok }

// Store stores.
func (m *Map) Store(k, v any) { vs.Point(); m.fresh(); m.set(k, v) }

// LoadOrStore loads or stores.
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	vs.Point()
	m.fresh()
	if x, ok := m.m[k]; ok {
		return x, true
	}
	m.set(k, v)
	return v, false
}

// LoadAndDelete deletes.
func (m *Map) LoadAndDelete(k any) (any, bool) {
	vs.Point()
	m.fresh()
	v, ok := m.m[k]
	m.del(k)
	return v, ok
}

// Delete deletes.
func (m *Map) Delete(k any) {
	if vs.Killing() {
		return
	}
	m.LoadAndDelete(k)
}

// Swap swaps.
func (m *Map) Swap(k, v any) (any, bool) {
	vs.Point()
	m.fresh()
	x, ok := m.m[k]
	m.set(k, v)
	return x, ok
}

// CompareAndSwap swaps if equal.
func (m *Map) CompareAndSwap(k, o, n any) bool {
	vs.Point()
	m.fresh()
	if x, ok := m.m[k]; ok && x == o {
		m.m[k] = n
		return true
	}
	return false
}

// CompareAndDelete deletes if equal.
func (m *Map) CompareAndDelete(k, o any) bool {
	vs.Point()
	m.fresh()
	if x, ok := m.m[k]; ok && x == o {
		m.del(k)
		return true
	}
	return false
}

// Range ranges.
func (m *Map) Range(f func(k, v any) bool) {
	vs.Point()
	m.fresh()
	for _, k := range append([]any(nil), m.keys...) {
		vs.Point()
		if v, ok := m.m[k]; ok {
			if !f(k, v) {
				return
			}
		}
	}
}

// Clear clears.
func (m *Map) Clear() { vs.Point(); m.fresh(); m.m, m.keys = map[any]any{}, nil }
