// Package vsync stands in for sync: real primitives in passive mode,
// scheduling points under exploration.
package vsync

import (
	"sync"

	"gotor/zv/vs"
)

type Locker = sync.Locker

type Mutex struct {
	obj    vs.Obj
	locked bool
	n      sync.Mutex
}

func (m *Mutex) reset() { m.locked = false }

//go:norace
func (m *Mutex) Lock() {
	if !vs.Active() {
		m.n.Lock()
		return
	}
	if vs.Killing() {
		return
	}
	vs.Do(&vs.Op{Kind: "lock", Obj: &m.obj, Reset: m.reset, Productive: true, Weak: true,
		Enabled: func() bool { return !m.locked }, Exec: func() { m.locked = true }})
	vs.RaceAcquire(m.obj.R0())
}

//go:norace
func (m *Mutex) TryLock() bool {
	if !vs.Active() {
		return m.n.TryLock()
	}
	if vs.Killing() {
		return false
	}
	ok := false
	vs.Do(&vs.Op{Kind: "trylock", Obj: &m.obj, Reset: m.reset,
		Exec: func() {
			ok = !m.locked
			m.locked = true
		}})
	if ok {
		vs.RaceAcquire(m.obj.R0())
	}
	return ok
}

//go:norace
func (m *Mutex) Unlock() {
	if !vs.Active() {
		m.n.Unlock()
		return
	}
	if vs.Killing() {
		return
	}
	vs.RaceRelease(m.obj.R0())
	bad := false
	vs.Do(&vs.Op{Kind: "unlock", Obj: &m.obj, Reset: m.reset, Productive: true, Weak: true,
		Exec: func() {
			bad = !m.locked
			m.locked = false
		}})
	if bad {
		panic("sync: unlock of unlocked mutex")
	}
}

type RWMutex struct {
	obj     vs.Obj
	w       bool
	readers int
	n       sync.RWMutex
}

func (m *RWMutex) reset() { m.w, m.readers = false, 0 }

//go:norace
func (m *RWMutex) Lock() {
	if !vs.Active() {
		m.n.Lock()
		return
	}
	if vs.Killing() {
		return
	}
	wait := false
	vs.Do(&vs.Op{Kind: "wlock", Obj: &m.obj, Reset: m.reset, Productive: true, Weak: true,
		Enabled: func() bool { return !m.w }, Exec: func() {
			m.w = true
			wait = m.readers > 0
		}})
	if wait {
		vs.Do(&vs.Op{Kind: "wlock2", Obj: &m.obj, Reset: m.reset, Enabled: func() bool { return m.readers == 0 }})
	}
	vs.RaceAcquire(m.obj.R0())
	vs.RaceAcquire(m.obj.R1())
}

//go:norace
func (m *RWMutex) TryLock() bool {
	if !vs.Active() {
		return m.n.TryLock()
	}
	if vs.Killing() {
		return false
	}
	ok := false
	vs.Do(&vs.Op{Kind: "wtrylock", Obj: &m.obj, Reset: m.reset, Exec: func() {
		if !m.w && m.readers == 0 {
			m.w, ok = true, true
		}
	}})
	if ok {
		vs.RaceAcquire(m.obj.R0())
		vs.RaceAcquire(m.obj.R1())
	}
	return ok
}

//go:norace
func (m *RWMutex) Unlock() {
	if !vs.Active() {
		m.n.Unlock()
		return
	}
	if vs.Killing() {
		return
	}
	vs.RaceRelease(m.obj.R0())
	bad := false
	vs.Do(&vs.Op{Kind: "wunlock", Obj: &m.obj, Reset: m.reset, Productive: true, Weak: true, Exec: func() {
		bad = !m.w
		m.w = false
	}})
	if bad {
		panic("sync: Unlock of unlocked RWMutex")
	}
}

//go:norace
func (m *RWMutex) RLock() {
	if !vs.Active() {
		m.n.RLock()
		return
	}
	if vs.Killing() {
		return
	}
	vs.Do(&vs.Op{Kind: "rlock", Obj: &m.obj, Reset: m.reset, Productive: true, Weak: true,
		Enabled: func() bool { return !m.w }, Exec: func() { m.readers++ }})
	vs.RaceAcquire(m.obj.R0())
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	if !vs.Active() {
		return m.n.TryRLock()
	}
	if vs.Killing() {
		return false
	}
	ok := false
	vs.Do(&vs.Op{Kind: "rtrylock", Obj: &m.obj, Reset: m.reset, Exec: func() {
		if !m.w {
			m.readers++
			ok = true
		}
	}})
	if ok {
		vs.RaceAcquire(m.obj.R0())
	}
	return ok
}

//go:norace
func (m *RWMutex) RUnlock() {
	if !vs.Active() {
		m.n.RUnlock()
		return
	}
	if vs.Killing() {
		return
	}
	vs.RaceReleaseMerge(m.obj.R1())
	bad := false
	vs.Do(&vs.Op{Kind: "runlock", Obj: &m.obj, Reset: m.reset, Productive: true, Weak: true, Exec: func() {
		bad = m.readers <= 0
		m.readers--
	}})
	if bad {
		panic("sync: RUnlock of unlocked RWMutex")
	}
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type WaitGroup struct {
	obj vs.Obj
	cnt int
	n   sync.WaitGroup
}

func (w *WaitGroup) reset() { w.cnt = 0 }

//go:norace
func (w *WaitGroup) Add(delta int) {
	if !vs.Active() {
		w.n.Add(delta)
		return
	}
	if vs.Killing() {
		return
	}
	if delta < 0 {
		vs.RaceReleaseMerge(w.obj.R0())
	}
	bad := false
	vs.Do(&vs.Op{Kind: "wg.add", Obj: &w.obj, Reset: w.reset, Productive: true, Exec: func() {
		w.cnt += delta
		bad = w.cnt < 0
	}})
	if bad {
		panic("sync: negative WaitGroup counter")
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

//go:norace
func (w *WaitGroup) Wait() {
	if !vs.Active() {
		w.n.Wait()
		return
	}
	if vs.Killing() {
		return
	}
	vs.Do(&vs.Op{Kind: "wg.wait", Obj: &w.obj, Reset: w.reset, Enabled: func() bool { return w.cnt == 0 }})
	vs.RaceAcquire(w.obj.R0())
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vs.Go(func() {
		defer w.Done()
		f()
	})
}

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) {
		o.Do(func() { v1, v2 = f() })
		return v1, v2
	}
}

type Cond struct {
	L   Locker
	obj vs.Obj
	seq int64 // waiters admitted so far
	num int64 // waiters that arrived
	n   *sync.Cond
	mu  sync.Mutex
}

func NewCond(l Locker) *Cond { return &Cond{L: l, n: sync.NewCond(l)} }

func (c *Cond) native() *sync.Cond {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.n == nil {
		c.n = sync.NewCond(c.L)
	}
	return c.n
}

func (c *Cond) reset() { c.seq, c.num = 0, 0 }

func (c *Cond) Wait() {
	if !vs.Active() {
		c.native().Wait()
		return
	}
	if vs.Killing() {
		return
	}
	my := int64(0)
	vs.Do(&vs.Op{Kind: "cond.enter", Obj: &c.obj, Reset: c.reset, Immediate: true, Exec: func() {
		c.num++
		my = c.num
	}})
	c.L.Unlock()
	vs.Do(&vs.Op{Kind: "cond.wait", Obj: &c.obj, Reset: c.reset, Enabled: func() bool { return c.seq >= my }})
	vs.RaceAcquire(c.obj.R0())
	c.L.Lock()
}

func (c *Cond) Signal() {
	if !vs.Active() {
		c.native().Signal()
		return
	}
	if vs.Killing() {
		return
	}
	vs.RaceReleaseMerge(c.obj.R0())
	vs.Do(&vs.Op{Kind: "cond.signal", Obj: &c.obj, Reset: c.reset, Productive: true, Exec: func() {
		if c.seq < c.num {
			c.seq++
		}
	}})
}

func (c *Cond) Broadcast() {
	if !vs.Active() {
		c.native().Broadcast()
		return
	}
	if vs.Killing() {
		return
	}
	vs.RaceReleaseMerge(c.obj.R0())
	vs.Do(&vs.Op{Kind: "cond.broadcast", Obj: &c.obj, Reset: c.reset, Productive: true, Exec: func() { c.seq = c.num }})
}

// Pool hands out the most recently returned value, deterministically.
type Pool struct {
	New   func() any
	obj   vs.Obj
	mu    sync.Mutex
	items []any
}

func (p *Pool) reset() { p.items = nil }

func (p *Pool) Get() any {
	if vs.Active() && !vs.Killing() {
		vs.Do(&vs.Op{Kind: "pool.get", Obj: &p.obj, Reset: p.reset, Productive: true, Weak: true})
		vs.RaceAcquire(p.obj.R0())
	}
	if x, ok := p.pop(); ok {
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

//go:norace
func (p *Pool) pop() (any, bool) {
	if !vs.Active() {
		p.mu.Lock()
		defer p.mu.Unlock()
	}
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		return x, true
	}
	return nil, false
}

//go:norace
func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	if vs.Active() {
		if vs.Killing() {
			return
		}
		vs.RaceReleaseMerge(p.obj.R0())
		vs.Do(&vs.Op{Kind: "pool.put", Obj: &p.obj, Reset: p.reset, Productive: true, Weak: true})
		p.items = append(p.items, x)
		return
	}
	p.mu.Lock()
	p.items = append(p.items, x)
	p.mu.Unlock()
}

// Map keeps insertion order so that Range is deterministic.
type Map struct {
	m    Mutex
	keys []any
	vals map[any]any
}

func (m *Map) del(k any) {
	delete(m.vals, k)
	for i, x := range m.keys {
		if x == k {
			m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
			break
		}
	}
}

func (m *Map) put(k, v any) {
	if m.vals == nil {
		m.vals = map[any]any{}
	}
	if _, ok := m.vals[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.vals[k] = v
}

func (m *Map) Load(k any) (any, bool) {
	m.m.Lock()
	defer m.m.Unlock()
	v, ok := m.vals[k]
	return v, ok
}
func (m *Map) Store(k, v any) { m.Swap(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.m.Lock()
	defer m.m.Unlock()
	if o, ok := m.vals[k]; ok {
		return o, true
	}
	m.put(k, v)
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.m.Lock()
	defer m.m.Unlock()
	v, ok := m.vals[k]
	if ok {
		m.del(k)
	}
	return v, ok
}
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }
func (m *Map) Swap(k, v any) (any, bool) {
	m.m.Lock()
	defer m.m.Unlock()
	o, ok := m.vals[k]
	m.put(k, v)
	return o, ok
}
func (m *Map) CompareAndSwap(k, o, n any) bool {
	m.m.Lock()
	defer m.m.Unlock()
	if v, ok := m.vals[k]; ok && v == o {
		m.put(k, n)
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, o any) bool {
	m.m.Lock()
	defer m.m.Unlock()
	if v, ok := m.vals[k]; ok && v == o {
		m.del(k)
		return true
	}
	return false
}
func (m *Map) Clear() {
	m.m.Lock()
	defer m.m.Unlock()
	m.keys, m.vals = nil, nil
}
func (m *Map) Range(f func(k, v any) bool) {
	m.m.Lock()
	ks := append([]any{}, m.keys...)
	m.m.Unlock()
	for _, k := range ks {
		if v, ok := m.Load(k); ok {
			if !f(k, v) {
				return
			}
		}
	}
}
