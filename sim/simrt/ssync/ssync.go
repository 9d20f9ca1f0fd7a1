// Package ssync replaces package sync in the instrumented copy: waiting goes
// through the simulated scheduler instead of blocking the thread.
package ssync

import (
	"sync"
	"sync/atomic"

	"verif.local/simrt"
)

type Locker = sync.Locker

// Map is a map whose iteration order is decided by the simulator.
type Map struct {
	mu sync.Mutex
	m  map[interface{}]interface{}
	ks []interface{}
}

func (m *Map) Load(k interface{}) (interface{}, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	v, ok := m.m[k]
	return v, ok
}

func (m *Map) put(k, v interface{}) {
	if m.m == nil {
		m.m = map[interface{}]interface{}{}
	}
	if _, ok := m.m[k]; !ok {
		m.ks = append(m.ks, k)
	}
	m.m[k] = v
}

func (m *Map) drop(k interface{}) {
	if _, ok := m.m[k]; !ok {
		return
	}
	delete(m.m, k)
	for i := range m.ks {
		if m.ks[i] == k {
			m.ks = append(m.ks[:i:i], m.ks[i+1:]...)
			return
		}
	}
}

func (m *Map) Store(k, v interface{}) { m.Swap(k, v) }
func (m *Map) Swap(k, v interface{}) (interface{}, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	old, ok := m.m[k]
	m.put(k, v)
	return old, ok
}

func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if old, ok := m.m[k]; ok {
		return old, true
	}
	m.put(k, v)
	return v, false
}

func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	v, ok := m.m[k]
	m.drop(k)
	return v, ok
}

func (m *Map) Delete(k interface{}) { m.LoadAndDelete(k) }

func (m *Map) CompareAndSwap(k, old, v interface{}) bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if x, ok := m.m[k]; !ok || x != old {
		return false
	}
	m.put(k, v)
	return true
}

func (m *Map) CompareAndDelete(k, old interface{}) bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if x, ok := m.m[k]; !ok || x != old {
		return false
	}
	m.drop(k)
	return true
}

func (m *Map) Clear() {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.m, m.ks = nil, nil
}

func (m *Map) Range(f func(k, v interface{}) bool) {
	m.mu.Lock()
	ks := append([]interface{}{}, m.ks...)
	m.mu.Unlock()
	for i := len(ks) - 1; i > 0; i-- {
		j := int(simrt.Rand() % uint64(i+1))
		ks[i], ks[j] = ks[j], ks[i]
	}
	for _, k := range ks {
		if v, ok := m.Load(k); ok && !f(k, v) {
			return
		}
	}
}

type Mutex struct{ mu sync.Mutex }

func (m *Mutex) Lock() {
	if !simrt.Active() {
		m.mu.Lock()
		return
	}
	for !m.mu.TryLock() {
		simrt.Block()
	}
	simrt.Unblocked()
}
func (m *Mutex) TryLock() bool { return m.mu.TryLock() }
func (m *Mutex) Unlock()       { m.mu.Unlock() }

type RWMutex struct{ mu sync.RWMutex }

func (m *RWMutex) Lock() {
	if !simrt.Active() {
		m.mu.Lock()
		return
	}
	for !m.mu.TryLock() {
		simrt.Block()
	}
	simrt.Unblocked()
}
func (m *RWMutex) TryLock() bool { return m.mu.TryLock() }
func (m *RWMutex) Unlock()       { m.mu.Unlock() }
func (m *RWMutex) RLock() {
	if !simrt.Active() {
		m.mu.RLock()
		return
	}
	for !m.mu.TryRLock() {
		simrt.Block()
	}
	simrt.Unblocked()
}
func (m *RWMutex) TryRLock() bool { return m.mu.TryRLock() }
func (m *RWMutex) RUnlock()       { m.mu.RUnlock() }
func (m *RWMutex) RLocker() Locker {
	return (*rlocker)(m)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type Once struct {
	done uint32
	m    Mutex
}

func (o *Once) Do(f func()) {
	if atomic.LoadUint32(&o.done) == 1 {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if o.done == 0 {
		defer atomic.StoreUint32(&o.done, 1)
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) {
		o.Do(func() { a, b = f() })
		return a, b
	}
}

// Pool is a deterministic last-in first-out pool.
type Pool struct {
	New   func() interface{}
	mu    sync.Mutex
	items []interface{}
}

func (p *Pool) Get() interface{} {
	p.mu.Lock()
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		p.mu.Unlock()
		return x
	}
	p.mu.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x interface{}) {
	if x == nil {
		return
	}
	p.mu.Lock()
	p.items = append(p.items, x)
	p.mu.Unlock()
}

type WaitGroup struct {
	mu sync.Mutex
	n  int
}

func (w *WaitGroup) Add(d int) {
	w.mu.Lock()
	w.n += d
	neg := w.n < 0
	w.mu.Unlock()
	if neg {
		panic("sync: negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Go(func() { defer w.Done(); f() })
}
func (w *WaitGroup) Wait() {
	for {
		w.mu.Lock()
		z := w.n == 0
		w.mu.Unlock()
		if z {
			simrt.Unblocked()
			return
		}
		simrt.Block()
	}
}

type Cond struct {
	L   Locker
	mu  sync.Mutex
	seq uint64
	one uint64
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	c.mu.Lock()
	s := c.seq
	c.mu.Unlock()
	c.L.Unlock()
	for {
		c.mu.Lock()
		woken := c.seq != s
		c.mu.Unlock()
		if woken {
			break
		}
		simrt.Block()
	}
	c.L.Lock()
}
func (c *Cond) Broadcast() { c.mu.Lock(); c.seq++; c.mu.Unlock() }
func (c *Cond) Signal()    { c.Broadcast() } // spurious wake-ups are legal
