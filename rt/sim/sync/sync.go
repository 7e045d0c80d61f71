// Package sync replaces the standard sync package inside the simulator.
package sync

import (
	"zz.test/sim"
)

type Locker interface {
	Lock()
	Unlock()
}

// Mutex is a simulated mutual exclusion lock.
type Mutex struct {
	held bool
	vc   sim.VC
}

func (m *Mutex) Lock() {
	sim.Point("Mutex.Lock")
	if m.held {
		if sim.S != nil {
			sim.S.Probe("mutex contended")
		}
		sim.Block("Mutex.Lock", func() bool { return !m.held })
	}
	m.held = true
	sim.Acquire(&m.vc)
}

func (m *Mutex) TryLock() bool {
	sim.Point("Mutex.TryLock")
	if m.held {
		return false
	}
	m.held = true
	sim.Acquire(&m.vc)
	return true
}

func (m *Mutex) Unlock() {
	sim.Point("Mutex.Unlock")
	if !m.held {
		if sim.Dying() {
			return
		}
		panic("fatal error: sync: unlock of unlocked mutex")
	}
	sim.Release(&m.vc)
	m.held = false
}

// RWMutex is a simulated reader/writer lock; as in the real one a waiting
// writer blocks new readers.
type RWMutex struct {
	w       bool // writer active
	pending int  // writers waiting or active
	r       int
	vc, rvc sim.VC
}

func (m *RWMutex) Lock() {
	sim.Point("RWMutex.Lock")
	m.pending++
	if m.w || m.r > 0 {
		sim.Block("RWMutex.Lock", func() bool { return !m.w && m.r == 0 })
	}
	m.w = true
	sim.Acquire(&m.vc)
	sim.Acquire(&m.rvc)
}

func (m *RWMutex) TryLock() bool {
	sim.Point("RWMutex.TryLock")
	if m.w || m.r > 0 || m.pending > 0 {
		return false
	}
	m.pending++
	m.w = true
	sim.Acquire(&m.vc)
	sim.Acquire(&m.rvc)
	return true
}

func (m *RWMutex) Unlock() {
	sim.Point("RWMutex.Unlock")
	if !m.w {
		if sim.Dying() {
			return
		}
		panic("fatal error: sync: Unlock of unlocked RWMutex")
	}
	sim.Release(&m.vc)
	m.w = false
	m.pending--
}

func (m *RWMutex) RLock() {
	sim.Point("RWMutex.RLock")
	if m.pending > 0 {
		sim.Block("RWMutex.RLock", func() bool { return m.pending == 0 })
	}
	m.r++
	sim.Acquire(&m.vc)
}

func (m *RWMutex) TryRLock() bool {
	sim.Point("RWMutex.TryRLock")
	if m.pending > 0 {
		return false
	}
	m.r++
	sim.Acquire(&m.vc)
	return true
}

func (m *RWMutex) RUnlock() {
	sim.Point("RWMutex.RUnlock")
	if m.r <= 0 {
		if sim.Dying() {
			return
		}
		panic("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	sim.Release(&m.rvc)
	m.r--
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

func (m *RWMutex) RLocker() Locker { return rlocker{m} }

// Once runs a function once; concurrent callers wait for it.
type Once struct {
	m    Mutex
	done bool
	vc   sim.VC
}

func (o *Once) Do(f func()) {
	sim.Point("Once.Do")
	if o.done {
		sim.Acquire(&o.vc)
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() {
			sim.Release(&o.vc)
			o.done = true
		}()
		f()
	} else {
		sim.Acquire(&o.vc)
	}
}

func OnceFunc(f func()) func() {
	var once Once
	var valid bool
	var p any
	g := func() {
		defer func() {
			p = recover()
			if !valid {
				panic(p)
			}
		}()
		f()
		f = nil
		valid = true
	}
	return func() {
		once.Do(g)
		if !valid {
			panic(p)
		}
	}
}

func OnceValue[T any](f func() T) func() T {
	var r T
	o := OnceFunc(func() { r = f() })
	return func() T { o(); return r }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var r1 T1
	var r2 T2
	o := OnceFunc(func() { r1, r2 = f() })
	return func() (T1, T2) { o(); return r1, r2 }
}

// WaitGroup counts tasks.
type WaitGroup struct {
	n  int
	vc sim.VC
}

func (w *WaitGroup) Add(d int) {
	sim.Point("WaitGroup.Add")
	if d < 0 {
		sim.Release(&w.vc)
	}
	w.n += d
	if w.n < 0 && !sim.Dying() {
		panic("sync: negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	sim.Point("WaitGroup.Wait")
	if w.n > 0 {
		sim.Block("WaitGroup.Wait", func() bool { return w.n == 0 })
	}
	sim.Acquire(&w.vc)
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	sim.Go(func() {
		defer w.Done()
		f()
	})
}

// Cond is a condition variable.
type Cond struct {
	L  Locker
	q  []*bool
	vc sim.VC
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	sig := new(bool)
	c.q = append(c.q, sig)
	c.L.Unlock()
	sim.Point("Cond.Wait")
	sim.Block("Cond.Wait", func() bool { return *sig })
	sim.Acquire(&c.vc)
	c.L.Lock()
}
func (c *Cond) Signal() {
	sim.Point("Cond.Signal")
	sim.Release(&c.vc)
	if len(c.q) > 0 {
		*c.q[0] = true
		c.q = c.q[1:]
	}
}
func (c *Cond) Broadcast() {
	sim.Point("Cond.Broadcast")
	sim.Release(&c.vc)
	for _, s := range c.q {
		*s = true
	}
	c.q = nil
}

// Pool hands back the most recently put item, or a new one.
type Pool struct {
	New   func() any
	items []any
	vc    sim.VC
}

func (p *Pool) Get() any {
	sim.Point("Pool.Get")
	if n := len(p.items); n > 0 {
		// a real pool may drop anything at any time
		if sim.S == nil || sim.S.Choose("pool miss", 2, 0.2) == 0 {
			x := p.items[n-1]
			p.items = p.items[:n-1]
			sim.Acquire(&p.vc)
			return x
		}
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(x any) {
	sim.Point("Pool.Put")
	if x == nil {
		return
	}
	sim.Release(&p.vc)
	p.items = append(p.items, x)
}

// Map is a linearizable map with deterministic iteration.
type Map struct {
	m    map[any]any
	keys []any
	vc   sim.VC
}

func (m *Map) pt() {
	sim.Point("Map")
	sim.Acquire(&m.vc)
}
func (m *Map) rel() { sim.Release(&m.vc) }
func (m *Map) set(k, v any) {
	if m.m == nil {
		m.m = map[any]any{}
	}
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
	m.rel()
}
func (m *Map) del(k any) {
	if _, ok := m.m[k]; ok {
		delete(m.m, k)
		for i, x := range m.keys {
			if x == k {
				m.keys = append(append([]any{}, m.keys[:i]...), m.keys[i+1:]...)
				break
			}
		}
	}
	m.rel()
}
func (m *Map) Load(k any) (any, bool) { m.pt(); v, ok := m.m[k]; return v, ok }
func (m *Map) Store(k, v any)         { m.pt(); m.set(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.pt()
	if x, ok := m.m[k]; ok {
		return x, true
	}
	m.set(k, v)
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.pt()
	v, ok := m.m[k]
	m.del(k)
	return v, ok
}
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }
func (m *Map) Swap(k, v any) (any, bool) {
	m.pt()
	o, ok := m.m[k]
	m.set(k, v)
	return o, ok
}
func (m *Map) CompareAndSwap(k, o, n any) bool {
	m.pt()
	if v, ok := m.m[k]; !ok || v != o {
		return false
	}
	m.set(k, n)
	return true
}
func (m *Map) CompareAndDelete(k, o any) bool {
	m.pt()
	if v, ok := m.m[k]; !ok || v != o {
		return false
	}
	m.del(k)
	return true
}
func (m *Map) Range(f func(k, v any) bool) {
	m.pt()
	for _, k := range append([]any{}, m.keys...) {
		sim.Point("Map.Range")
		sim.Acquire(&m.vc)
		if v, ok := m.m[k]; ok && !f(k, v) {
			return
		}
	}
}
func (m *Map) Clear() {
	m.pt()
	m.m, m.keys = nil, nil
	m.rel()
}
