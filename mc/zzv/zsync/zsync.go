// Package zsync stands in for package sync in the instrumented copy: waiting is
// visible to the controlled scheduler, and the order between threads that the
// real primitives establish is kept (the race detector sees it).
package zsync

import (
	"sync"
	"sync/atomic"

	"urnverif/zzv"
)

// Locker is sync.Locker.
type Locker = sync.Locker

// Map is sync.Map, which never waits.
type Map = sync.Map

// Mutex is a mutual exclusion lock.
type Mutex struct{ m sync.Mutex }

func (m *Mutex) Lock() {
	zzv.Sync()
	for !m.m.TryLock() {
		zzv.Block()
	}
}
func (m *Mutex) TryLock() bool { zzv.Sync(); return m.m.TryLock() }
func (m *Mutex) Unlock()       { m.m.Unlock(); zzv.Sync() }

// RWMutex is a reader/writer lock.
type RWMutex struct{ m sync.RWMutex }

func (m *RWMutex) Lock() {
	zzv.Sync()
	for !m.m.TryLock() {
		zzv.Block()
	}
}
func (m *RWMutex) RLock() {
	zzv.Sync()
	for !m.m.TryRLock() {
		zzv.Block()
	}
}
func (m *RWMutex) TryLock() bool  { zzv.Sync(); return m.m.TryLock() }
func (m *RWMutex) TryRLock() bool { zzv.Sync(); return m.m.TryRLock() }
func (m *RWMutex) Unlock()        { m.m.Unlock(); zzv.Sync() }
func (m *RWMutex) RUnlock()       { m.m.RUnlock(); zzv.Sync() }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once runs a function once.
type Once struct {
	done uint32
	m    Mutex
}

func (o *Once) Do(f func()) {
	zzv.Sync()
	if atomic.LoadUint32(&o.done) == 1 {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if o.done == 0 {
		defer atomic.StoreUint32(&o.done, 1)
		f()
	}
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var r T
	return func() T { o.Do(func() { r = f() }); return r }
}

// OnceValues is sync.OnceValues.
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var a T1
	var b T2
	return func() (T1, T2) { o.Do(func() { a, b = f() }); return a, b }
}

// Pool is a deterministic pool: the last one put is the first one got.
type Pool struct {
	New func() any
	m   sync.Mutex
	l   []any
}

func (p *Pool) Get() any {
	zzv.Sync()
	p.m.Lock()
	if n := len(p.l); n > 0 {
		x := p.l[n-1]
		p.l = p.l[:n-1]
		p.m.Unlock()
		return x
	}
	p.m.Unlock()
	if p.New == nil {
		return nil
	}
	return p.New()
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	p.m.Lock()
	p.l = append(p.l, x)
	p.m.Unlock()
	zzv.Sync()
}

// WaitGroup waits for a collection of goroutines.
type WaitGroup struct{ n int64 }

func (w *WaitGroup) Add(d int) { atomic.AddInt64(&w.n, int64(d)) }
func (w *WaitGroup) Done()     { atomic.AddInt64(&w.n, -1); zzv.Sync() }
func (w *WaitGroup) Wait() {
	for atomic.LoadInt64(&w.n) > 0 {
		zzv.Block()
	}
}

// Cond is a condition variable.
type Cond struct {
	L     Locker
	q     []*uint32
	order sync.Mutex // what Signal orders
}

// NewCond returns a condition variable.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	woken := new(uint32)
	c.order.Lock()
	c.q = append(c.q, woken)
	c.order.Unlock()
	c.L.Unlock()
	for atomic.LoadUint32(woken) == 0 {
		zzv.Block()
	}
	c.L.Lock()
}

func (c *Cond) Signal() {
	zzv.Sync()
	c.order.Lock()
	if len(c.q) > 0 {
		atomic.StoreUint32(c.q[0], 1)
		c.q = c.q[1:]
	}
	c.order.Unlock()
}

func (c *Cond) Broadcast() {
	zzv.Sync()
	c.order.Lock()
	for _, w := range c.q {
		atomic.StoreUint32(w, 1)
	}
	c.q = nil
	c.order.Unlock()
}
