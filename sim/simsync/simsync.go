//go:build go1.25

// Package simsync stands in for package sync in the instrumented copy: the
// same semantics, but waiting is a scheduling decision of the simulator.  The
// real primitive is operated too (it never blocks), so that the race detector
// sees exactly the happens-before edges the program would have.
package simsync

import (
	"sync"

	"github.com/qiniu/uip/verifsim/rt"
)

type Locker = sync.Locker

// Map is sync.Map, ranged over in an order the simulator chooses.
type Map struct{ sync.Map }

// Range visits the entries there are when it is called.
func (m *Map) Range(f func(k, v any) bool) {
	all := map[any]any{}
	m.Map.Range(func(k, v any) bool {
		all[k] = v
		return true
	})
	it, k, _ := rt.MapIter(all)
	for it.Next(&k, nil) {
		v, ok := m.Load(k)
		if ok && !f(k, v) {
			return
		}
	}
}

type Mutex struct {
	held bool
	real sync.Mutex
}

//go:norace
func (m *Mutex) Lock() {
	rt.Y(0)
	rt.Block(func() bool { return !m.isHeld() })
	m.held = true
	m.real.Lock()
}

//go:norace
func (m *Mutex) isHeld() bool { return m.held }

//go:norace
func (m *Mutex) TryLock() bool {
	rt.Y(0)
	if m.held {
		return false
	}
	m.held = true
	m.real.Lock()
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	m.held = false
	m.real.Unlock()
	rt.Y(0)
}

type RWMutex struct {
	w    bool
	r    int
	want int
	real sync.RWMutex
}

//go:norace
func (m *RWMutex) free() bool { return !m.w && m.r == 0 }

//go:norace
func (m *RWMutex) canRead() bool { return !m.w && m.want == 0 }

//go:norace
func (m *RWMutex) Lock() {
	rt.Y(0)
	m.want++
	rt.Block(func() bool { return m.free() })
	m.want--
	m.w = true
	m.real.Lock()
}

//go:norace
func (m *RWMutex) TryLock() bool {
	rt.Y(0)
	if !m.free() {
		return false
	}
	m.w = true
	m.real.Lock()
	return true
}

//go:norace
func (m *RWMutex) Unlock() {
	m.w = false
	m.real.Unlock()
	rt.Y(0)
}

//go:norace
func (m *RWMutex) RLock() {
	rt.Y(0)
	rt.Block(func() bool { return m.canRead() })
	m.r++
	m.real.RLock()
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	rt.Y(0)
	if !m.canRead() {
		return false
	}
	m.r++
	m.real.RLock()
	return true
}

//go:norace
func (m *RWMutex) RUnlock() {
	m.r--
	m.real.RUnlock()
	rt.Y(0)
}

type rlocker RWMutex

func (r *rlocker) Lock()           { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock()         { (*RWMutex)(r).RUnlock() }
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type Once struct {
	m    Mutex
	done bool
}

//go:norace
func (o *Once) isDone() bool { return o.done }

//go:norace
func (o *Once) set() { o.done = true }

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.isDone() {
		defer o.set()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var a T1
	var b T2
	return func() (T1, T2) { o.Do(func() { a, b = f() }); return a, b }
}

type WaitGroup struct {
	n    int
	real sync.WaitGroup
}

//go:norace
func (w *WaitGroup) zero() bool { return w.n == 0 }

//go:norace
func (w *WaitGroup) Add(d int) {
	w.n += d
	w.real.Add(d)
	rt.Y(0)
}
func (w *WaitGroup) Done() { w.Add(-1) }

//go:norace
func (w *WaitGroup) Wait() {
	rt.Y(0)
	rt.Block(func() bool { return w.zero() })
	w.real.Wait()
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	rt.Go(func() {
		defer w.Done()
		f()
	})
}

type Cond struct {
	L     Locker
	seq   int
	woken int
	edge  sync.Mutex
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) ticket() int { c.seq++; return c.seq }

//go:norace
func (c *Cond) ok(t int) bool { return c.woken >= t }

func (c *Cond) Wait() {
	t := c.ticket()
	c.L.Unlock()
	rt.Block(func() bool { return c.ok(t) })
	c.edge.Lock()
	c.edge.Unlock()
	c.L.Lock()
}

//go:norace
func (c *Cond) wake(all bool) {
	if all {
		c.woken = c.seq
	} else if c.woken < c.seq {
		c.woken++
	}
}

func (c *Cond) Signal() {
	c.edge.Lock()
	c.edge.Unlock()
	c.wake(false)
	rt.Y(0)
}

func (c *Cond) Broadcast() {
	c.edge.Lock()
	c.edge.Unlock()
	c.wake(true)
	rt.Y(0)
}

// Pool hands objects back last in, first out: the order that exposes reuse.
type Pool struct {
	New   func() any
	items []any
	real  sync.Mutex
}

func (p *Pool) Get() any {
	rt.Y(0)
	p.real.Lock()
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		p.real.Unlock()
		return x
	}
	p.real.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	p.real.Lock()
	p.items = append(p.items, x)
	p.real.Unlock()
	rt.Y(0)
}
