// Package vsync stands in for sync in the instrumented sources.
package vsync

import (
	"sync"
	"unsafe"

	"verif/vs"
)

type (
	Locker = sync.Locker

	Mutex struct {
		m sync.Mutex
		_ int64
	}
	RWMutex struct {
		m sync.RWMutex
		q int64
	}
	WaitGroup struct {
		m sync.WaitGroup
		_ int64
	}
	Once struct {
		m    sync.Once
		done bool // outside an execution
	}
	Cond struct {
		L Locker
		m *sync.Cond
		o sync.Once
	}
	Pool struct {
		New func() any
		mu  sync.Mutex
		x   []any
	}
)

func (m *Mutex) Lock() {
	if !vs.Active() {
		m.m.Lock()
		return
	}
	vs.MutexLock(unsafe.Pointer(m))
}

func (m *Mutex) TryLock() bool {
	if !vs.Active() {
		return m.m.TryLock()
	}
	return vs.MutexTryLock(unsafe.Pointer(m))
}

func (m *Mutex) Unlock() {
	if !vs.Active() {
		m.m.Unlock()
		return
	}
	vs.MutexUnlock(unsafe.Pointer(m))
}

func (m *RWMutex) Lock() {
	if !vs.Active() {
		m.m.Lock()
		return
	}
	vs.WLock(unsafe.Pointer(m), unsafe.Pointer(&m.q))
}

func (m *RWMutex) Unlock() {
	if !vs.Active() {
		m.m.Unlock()
		return
	}
	vs.MutexUnlock(unsafe.Pointer(m))
}

func (m *RWMutex) TryLock() bool {
	if !vs.Active() {
		return m.m.TryLock()
	}
	return vs.MutexTryLock(unsafe.Pointer(m))
}

func (m *RWMutex) RLock() {
	if !vs.Active() {
		m.m.RLock()
		return
	}
	vs.RLock(unsafe.Pointer(m), unsafe.Pointer(&m.q))
}

func (m *RWMutex) RUnlock() {
	if !vs.Active() {
		m.m.RUnlock()
		return
	}
	vs.RUnlock(unsafe.Pointer(m), unsafe.Pointer(&m.q))
}

func (m *RWMutex) TryRLock() bool {
	if !vs.Active() {
		return m.m.TryRLock()
	}
	return vs.TryRLock(unsafe.Pointer(m), unsafe.Pointer(&m.q))
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

func (m *RWMutex) RLocker() Locker { return rlocker{m} }

func (w *WaitGroup) Add(n int) {
	if !vs.Active() {
		w.m.Add(n)
		return
	}
	vs.WGAdd(unsafe.Pointer(w), n)
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	if !vs.Active() {
		w.m.Wait()
		return
	}
	vs.WGWait(unsafe.Pointer(w))
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vs.Go("WaitGroup.Go", func() {
		defer w.Done()
		f()
	})
}

func (o *Once) Do(f func()) {
	if !vs.Active() {
		o.m.Do(func() {
			defer func() { o.done = true }()
			f()
		})
		return
	}
	vs.OnceDo(unsafe.Pointer(o), f, o.done)
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

func NewCond(l Locker) *Cond { return &Cond{L: l, m: sync.NewCond(l)} }

func (c *Cond) real() *sync.Cond {
	c.o.Do(func() {
		if c.m == nil {
			c.m = sync.NewCond(c.L)
		}
	})
	return c.m
}

func (c *Cond) Wait() {
	if !vs.Active() {
		c.real().Wait()
		return
	}
	vs.CondWait(unsafe.Pointer(c), c.L.Unlock, c.L.Lock)
}

func (c *Cond) Signal() {
	if !vs.Active() {
		c.real().Signal()
		return
	}
	vs.CondSignal(unsafe.Pointer(c), false)
}

func (c *Cond) Broadcast() {
	if !vs.Active() {
		c.real().Broadcast()
		return
	}
	vs.CondSignal(unsafe.Pointer(c), true)
}

// Pool is deterministic: last in, first out.
func (p *Pool) Get() any {
	vs.AtomicPoint(unsafe.Pointer(p))
	p.mu.Lock()
	var v any
	if n := len(p.x); n > 0 {
		v = p.x[n-1]
		p.x = p.x[:n-1]
	}
	p.mu.Unlock()
	if v == nil && p.New != nil {
		v = p.New()
	}
	return v
}

func (p *Pool) Put(v any) {
	if v == nil {
		return
	}
	vs.AtomicPoint(unsafe.Pointer(p))
	p.mu.Lock()
	p.x = append(p.x, v)
	p.mu.Unlock()
}

// Map is sync.Map with a scheduling point before every operation.
type Map struct {
	m sync.Map
	_ int64
}

func (m *Map) point() { vs.AtomicPoint(unsafe.Pointer(m)) }

func (m *Map) Load(k any) (any, bool) {
	m.point()
	return m.m.Load(k)
}

func (m *Map) Store(k, v any) {
	m.point()
	m.m.Store(k, v)
}

func (m *Map) Clear() {
	m.point()
	m.m.Clear()
}

func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.point()
	return m.m.LoadOrStore(k, v)
}

func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.point()
	return m.m.LoadAndDelete(k)
}

func (m *Map) Delete(k any) {
	m.point()
	m.m.Delete(k)
}

func (m *Map) Swap(k, v any) (any, bool) {
	m.point()
	return m.m.Swap(k, v)
}

func (m *Map) CompareAndSwap(k, o, n any) bool {
	m.point()
	return m.m.CompareAndSwap(k, o, n)
}

func (m *Map) CompareAndDelete(k, o any) bool {
	m.point()
	return m.m.CompareAndDelete(k, o)
}

func (m *Map) Range(f func(k, v any) bool) {
	m.point()
	m.m.Range(func(k, v any) bool { return f(k, v) })
}
