// Package ssync replaces package sync in the instrumented code: every blocking
// operation goes through the simulator's scheduler.
package ssync

import (
	"bibsim/simrt"
	"sync"
)

type Locker = sync.Locker

// Mutex is a cooperative mutex. The embedded real mutex is only ever locked
// uncontended; it gives the race detector the usual happens-before edges.
type Mutex struct {
	held bool
	real sync.Mutex
}

//go:norace
func (m *Mutex) isFree() bool { return !m.held }

//go:norace
func (m *Mutex) set(b bool) { m.held = b }

func (m *Mutex) Lock() {
	simrt.WaitUntil("Mutex.Lock", m.isFree)
	m.set(true)
	m.real.Lock()
}

func (m *Mutex) TryLock() bool {
	if !m.isFree() {
		return false
	}
	m.set(true)
	m.real.Lock()
	return true
}

func (m *Mutex) Unlock() {
	if m.isFree() {
		panic("sync: unlock of unlocked mutex")
	}
	m.real.Unlock()
	m.set(false)
}

// RWMutex is a cooperative readers/writer lock.
type RWMutex struct {
	w       bool
	r       int
	waiting int
	real    sync.RWMutex
}

//go:norace
func (m *RWMutex) wfree() bool { return !m.w && m.r == 0 }

//go:norace
func (m *RWMutex) rfree() bool { return !m.w && m.waiting == 0 }

//go:norace
func (m *RWMutex) setw(b bool) { m.w = b }

//go:norace
func (m *RWMutex) addr(n int) { m.r += n }

//go:norace
func (m *RWMutex) addwait(n int) { m.waiting += n }

//go:norace
func (m *RWMutex) readers() int { return m.r }

func (m *RWMutex) Lock() {
	m.addwait(1)
	simrt.WaitUntil("RWMutex.Lock", m.wfree)
	m.addwait(-1)
	m.setw(true)
	m.real.Lock()
}

func (m *RWMutex) TryLock() bool {
	if !m.wfree() {
		return false
	}
	m.setw(true)
	m.real.Lock()
	return true
}

func (m *RWMutex) Unlock() {
	m.real.Unlock()
	m.setw(false)
}

func (m *RWMutex) RLock() {
	simrt.WaitUntil("RWMutex.RLock", m.rfree)
	m.addr(1)
	m.real.RLock()
}

func (m *RWMutex) TryRLock() bool {
	if !m.rfree() {
		return false
	}
	m.addr(1)
	m.real.RLock()
	return true
}

func (m *RWMutex) RUnlock() {
	if m.readers() <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.real.RUnlock()
	m.addr(-1)
}

type rlocker struct{ m *RWMutex }

func (l rlocker) Lock()   { l.m.RLock() }
func (l rlocker) Unlock() { l.m.RUnlock() }

func (m *RWMutex) RLocker() Locker { return rlocker{m} }

// Once is a cooperative sync.Once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var a T1
	var b T2
	return func() (T1, T2) { o.Do(func() { a, b = f() }); return a, b }
}

// WaitGroup is a cooperative wait group.
type WaitGroup struct {
	n    int
	real sync.WaitGroup
}

//go:norace
func (w *WaitGroup) add(n int) { w.n += n }

//go:norace
func (w *WaitGroup) zero() bool { return w.n <= 0 }

func (w *WaitGroup) Add(n int) { w.real.Add(n); w.add(n) }
func (w *WaitGroup) Done()     { w.real.Done(); w.add(-1) }
func (w *WaitGroup) Wait() {
	simrt.WaitUntil("WaitGroup.Wait", w.zero)
	w.real.Wait()
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Go(func() { defer w.Done(); f() })
}

// Pool always hands back the most recently returned item: the adversarial
// choice, since the real pool may do so too.
type Pool struct {
	New   func() any
	m     Mutex
	items []any
}

func (p *Pool) Get() any {
	p.m.Lock()
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		p.m.Unlock()
		return x
	}
	p.m.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	p.m.Lock()
	p.items = append(p.items, x)
	p.m.Unlock()
}

// Cond is a cooperative condition variable.
type Cond struct {
	L   Locker
	gen int
	sig int
	n   int
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	g := c.enter()
	c.L.Unlock()
	simrt.WaitDo("Cond.Wait", func() bool { return c.woken(g) })
	c.leave()
	c.L.Lock()
}

//go:norace
func (c *Cond) enter() int { c.n++; return c.gen }

//go:norace
func (c *Cond) leave() { c.n-- }

//go:norace
func (c *Cond) woken(g int) bool {
	if c.gen != g {
		return true
	}
	if c.sig > 0 {
		c.sig--
		return true
	}
	return false
}

//go:norace
func (c *Cond) Signal() {
	if c.sig < c.n {
		c.sig++
	}
}

//go:norace
func (c *Cond) Broadcast() { c.gen++; c.sig = 0 }

// Map is a deterministic sync.Map.
type Map struct {
	m    Mutex
	keys []any
	vals map[any]any
}

func (m *Map) Load(k any) (any, bool) {
	m.m.Lock()
	defer m.m.Unlock()
	v, ok := m.vals[k]
	return v, ok
}

func (m *Map) store(k, v any) {
	if m.vals == nil {
		m.vals = map[any]any{}
	}
	if _, ok := m.vals[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.vals[k] = v
}

func (m *Map) Store(k, v any) { m.m.Lock(); defer m.m.Unlock(); m.store(k, v) }

func (m *Map) Swap(k, v any) (any, bool) {
	m.m.Lock()
	defer m.m.Unlock()
	o, ok := m.vals[k]
	m.store(k, v)
	return o, ok
}

func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.m.Lock()
	defer m.m.Unlock()
	if o, ok := m.vals[k]; ok {
		return o, true
	}
	m.store(k, v)
	return v, false
}

func (m *Map) del(k any) {
	delete(m.vals, k)
	for i, x := range m.keys {
		if x == k {
			m.keys = append(append([]any(nil), m.keys[:i]...), m.keys[i+1:]...)
			break
		}
	}
}

func (m *Map) Delete(k any) { m.m.Lock(); defer m.m.Unlock(); m.del(k) }

func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.m.Lock()
	defer m.m.Unlock()
	o, ok := m.vals[k]
	m.del(k)
	return o, ok
}

func (m *Map) CompareAndSwap(k, o, n any) bool {
	m.m.Lock()
	defer m.m.Unlock()
	if v, ok := m.vals[k]; !ok || v != o {
		return false
	}
	m.store(k, n)
	return true
}

func (m *Map) CompareAndDelete(k, o any) bool {
	m.m.Lock()
	defer m.m.Unlock()
	if v, ok := m.vals[k]; !ok || v != o {
		return false
	}
	m.del(k)
	return true
}

func (m *Map) Clear() { m.m.Lock(); defer m.m.Unlock(); m.keys, m.vals = nil, nil }

func (m *Map) Range(f func(k, v any) bool) {
	m.m.Lock()
	ks := append([]any(nil), m.keys...)
	m.m.Unlock()
	for _, k := range ks {
		v, ok := m.Load(k)
		if ok && !f(k, v) {
			return
		}
	}
}
