// Package vsync replaces package sync in instrumented code. Every operation
// is a scheduling point of package sched.
package vsync

import (
	"sync"

	"verif/harness/sched"
	"verif/harness/sym"
)

type Locker = sync.Locker

type Mutex struct{ locked bool }

func (m *Mutex) Lock() {
	sched.Await(func() bool { return !m.locked })
	m.locked = true
}

func (m *Mutex) TryLock() bool {
	sched.Point()
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func (m *Mutex) Unlock() {
	if !m.locked {
		sym.Fatal("sync: unlock of unlocked mutex")
	}
	m.locked = false
}

// RWMutex does not model writer preference, which only removes schedules.
type RWMutex struct {
	w bool
	r int
}

func (m *RWMutex) Lock() {
	sched.Await(func() bool { return !m.w && m.r == 0 })
	m.w = true
}

func (m *RWMutex) TryLock() bool {
	sched.Point()
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	return true
}

func (m *RWMutex) Unlock() {
	if !m.w {
		sym.Fatal("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
}

func (m *RWMutex) RLock() {
	sched.Await(func() bool { return !m.w })
	m.r++
}

func (m *RWMutex) TryRLock() bool {
	sched.Point()
	if m.w {
		return false
	}
	m.r++
	return true
}

func (m *RWMutex) RUnlock() {
	if m.r <= 0 {
		sym.Fatal("sync: RUnlock of unlocked RWMutex")
	}
	m.r--
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type Once struct {
	done bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	sched.Point()
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer o.set()
		f()
	}
}

func (o *Once) set() { o.done = true }

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

// WaitGroup panics where sync.WaitGroup may: waiters are released when the
// counter reaches zero and check, when they resume, that it still is.
type WaitGroup struct {
	n       int
	waiting []*bool
}

func (w *WaitGroup) Add(d int) {
	sched.Point()
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		for _, r := range w.waiting {
			*r = true
		}
		w.waiting = nil
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	sched.Point()
	if w.n == 0 {
		return
	}
	released := false
	w.waiting = append(w.waiting, &released)
	sched.Await(func() bool { return released })
	if w.n != 0 {
		panic("sync: WaitGroup is reused before previous Wait has returned")
	}
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	sched.Go(func() {
		defer w.Done()
		f()
	})
}

// Pool returns the most recently put item; with the parameter "pool" set it
// may return any of the stored items or a new one.
type Pool struct {
	New   func() interface{}
	items []interface{}
}

func (p *Pool) Put(x interface{}) {
	sched.Point()
	if x == nil {
		return
	}
	p.items = append(p.items, x)
}

func (p *Pool) Get() interface{} {
	sched.Point()
	n := len(p.items)
	if n > 0 {
		k := 0
		if sym.Param("pool", 0) != 0 {
			k = sym.Choice(n + 1)
		}
		if k < n {
			i := n - 1 - k
			x := p.items[i]
			rest := make([]interface{}, 0, n-1)
			rest = append(rest, p.items[:i]...)
			p.items = append(rest, p.items[i+1:]...)
			return x
		}
	}
	if p.New == nil {
		return nil
	}
	return p.New()
}

type Cond struct {
	L       Locker
	waiting []*bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	woken := new(bool)
	c.waiting = append(c.waiting, woken)
	c.L.Unlock()
	sched.Await(func() bool { return *woken })
	c.L.Lock()
}

func (c *Cond) Signal() {
	sched.Point()
	if len(c.waiting) > 0 {
		*c.waiting[0] = true
		c.waiting = c.waiting[1:]
	}
}

func (c *Cond) Broadcast() {
	sched.Point()
	for _, w := range c.waiting {
		*w = true
	}
	c.waiting = nil
}

// Map is a sequentially consistent map.
type Map struct {
	m    map[any]any
	keys []any
}

func (m *Map) Load(k any) (any, bool) {
	sched.Point()
	v, ok := m.m[k]
	return v, ok
}

func (m *Map) Store(k, v any) {
	sched.Point()
	m.set(k, v)
}

func (m *Map) set(k, v any) {
	if m.m == nil {
		m.m = map[any]any{}
	}
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}

func (m *Map) LoadOrStore(k, v any) (any, bool) {
	sched.Point()
	if o, ok := m.m[k]; ok {
		return o, true
	}
	m.set(k, v)
	return v, false
}

func (m *Map) LoadAndDelete(k any) (any, bool) {
	sched.Point()
	v, ok := m.m[k]
	m.del(k)
	return v, ok
}

func (m *Map) del(k any) {
	if _, ok := m.m[k]; !ok {
		return
	}
	delete(m.m, k)
	for i, x := range m.keys {
		if x == k {
			m.keys = append(append([]any(nil), m.keys[:i]...), m.keys[i+1:]...)
			return
		}
	}
}

func (m *Map) Delete(k any) {
	sched.Point()
	m.del(k)
}

func (m *Map) Range(f func(k, v any) bool) {
	for _, k := range append([]any(nil), m.keys...) {
		sched.Point()
		if v, ok := m.m[k]; ok {
			if !f(k, v) {
				return
			}
		}
	}
}
