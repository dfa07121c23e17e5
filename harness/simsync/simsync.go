//go:build go1.21

// Package simsync replaces package sync in instrumented code.  The types wrap
// the real ones, so the happens-before edges are the real ones, but a task
// that cannot proceed hands its turn to another task instead of blocking the
// process.
package simsync

import (
	"sync"

	"aqwari.net/xml/internal/verifsim/simrt"
)

type Locker = sync.Locker

// Pool hands back what was put in last, always: that is what makes the use
// of an object after it was put back visible.  Only the Put of an object
// happens before the Get that returns it, as in the real one.  Nothing
// survives from one run into the next.
type Pool struct {
	New   func() any
	epoch int64
	top   *pooled
}

type pooled struct {
	mu   sync.Mutex
	v    any
	next *pooled
}

func (p *Pool) Put(v any) {
	simrt.Y(0)
	if v == nil {
		return
	}
	it := newPooled()
	it.mu.Lock()
	it.v = v
	it.mu.Unlock()
	p.push(it)
	simrt.Y(0)
}

func (p *Pool) Get() any {
	simrt.Y(0)
	if it := p.pop(); it != nil {
		it.mu.Lock()
		defer it.mu.Unlock()
		return it.v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

// The lock is not the only access to an item that other tasks make: the
// writes that make it must be invisible too.
//
//go:norace
//go:noinline
func newPooled() *pooled { return new(pooled) }

//go:norace
func (p *Pool) push(it *pooled) {
	if e := simrt.Epoch(); p.epoch != e {
		p.epoch, p.top = e, nil
	}
	it.next, p.top = p.top, it
}

//go:norace
func (p *Pool) pop() *pooled {
	if p.epoch != simrt.Epoch() || p.top == nil {
		return nil
	}
	it := p.top
	p.top = it.next
	return it
}

// Map is the real one with scheduling points, and an order of Range that the
// simulator decides.
type Map struct{ m sync.Map }

func (m *Map) Load(k any) (any, bool) { simrt.Y(0); return m.m.Load(k) }
func (m *Map) Store(k, v any)         { simrt.Y(0); m.m.Store(k, v); simrt.Y(0) }
func (m *Map) Clear()                 { simrt.Y(0); m.m.Clear(); simrt.Y(0) }
func (m *Map) Delete(k any)           { simrt.Y(0); m.m.Delete(k); simrt.Y(0) }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	simrt.Y(0)
	defer simrt.Y(0)
	return m.m.LoadOrStore(k, v)
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	simrt.Y(0)
	defer simrt.Y(0)
	return m.m.LoadAndDelete(k)
}
func (m *Map) Swap(k, v any) (any, bool) {
	simrt.Y(0)
	defer simrt.Y(0)
	return m.m.Swap(k, v)
}
func (m *Map) CompareAndSwap(k, old, new any) bool {
	simrt.Y(0)
	defer simrt.Y(0)
	return m.m.CompareAndSwap(k, old, new)
}
func (m *Map) CompareAndDelete(k, old any) bool {
	simrt.Y(0)
	defer simrt.Y(0)
	return m.m.CompareAndDelete(k, old)
}
func (m *Map) Range(f func(k, v any) bool) {
	simrt.Y(0)
	all := make(map[any]any)
	m.m.Range(func(k, v any) bool { all[k] = v; return true })
	var k, v any
	for it := simrt.IterKVA(0, all); it.Next(&k, &v); {
		if !f(k, v) {
			return
		}
	}
}

type Mutex struct{ mu sync.Mutex }

func (m *Mutex) Lock() {
	simrt.Y(0)
	for !m.mu.TryLock() {
		simrt.Blocked()
	}
}
func (m *Mutex) TryLock() bool { simrt.Y(0); return m.mu.TryLock() }
func (m *Mutex) Unlock()       { m.mu.Unlock(); simrt.Y(0) }

type RWMutex struct{ mu sync.RWMutex }

func (m *RWMutex) Lock() {
	simrt.Y(0)
	for !m.mu.TryLock() {
		simrt.Blocked()
	}
}
func (m *RWMutex) RLock() {
	simrt.Y(0)
	for !m.mu.TryRLock() {
		simrt.Blocked()
	}
}
func (m *RWMutex) TryLock() bool  { simrt.Y(0); return m.mu.TryLock() }
func (m *RWMutex) TryRLock() bool { simrt.Y(0); return m.mu.TryRLock() }
func (m *RWMutex) Unlock()        { m.mu.Unlock(); simrt.Y(0) }
func (m *RWMutex) RUnlock()       { m.mu.RUnlock(); simrt.Y(0) }

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type Once struct {
	mu   Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.mu.Lock()
	defer o.mu.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

type WaitGroup struct {
	wg sync.WaitGroup
	mu sync.Mutex
	n  int
}

func (w *WaitGroup) Add(d int) {
	w.mu.Lock()
	w.n += d
	w.mu.Unlock()
	w.wg.Add(d)
}
func (w *WaitGroup) Done() { w.Add(-1); simrt.Y(0) }
func (w *WaitGroup) Wait() {
	simrt.Y(0)
	for {
		w.mu.Lock()
		n := w.n
		w.mu.Unlock()
		if n <= 0 {
			break
		}
		simrt.Blocked()
	}
	w.wg.Wait()
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Go(func() {
		defer w.Done()
		f()
	})
}

type Cond struct {
	L  Locker
	mu sync.Mutex
	// tickets: a waiter may proceed when its ticket is below released
	next, released int
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	c.mu.Lock()
	t := c.next
	c.next++
	c.mu.Unlock()
	c.L.Unlock()
	for {
		c.mu.Lock()
		ok := t < c.released
		c.mu.Unlock()
		if ok {
			break
		}
		simrt.Blocked()
	}
	c.L.Lock()
}
func (c *Cond) Signal() {
	c.mu.Lock()
	if c.released < c.next {
		c.released++
	}
	c.mu.Unlock()
}
func (c *Cond) Broadcast() {
	c.mu.Lock()
	c.released = c.next
	c.mu.Unlock()
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}
