//go:build go1.22

package simrt

import "sync"

// Cooperative replacements for the blocking primitives of package sync.

// outside a world (package initialisation, or a command's real goroutines)
// a real lock guards the state; inside, tasks switch only at known points.

type Mutex struct {
	locked bool
	real   sync.Mutex
}

func (m *Mutex) Lock() {
	if w == nil {
		m.real.Lock()
		m.locked = true
		return
	}
	Y()
	Block(m.take)
}

func (m *Mutex) take() bool {
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func (m *Mutex) TryLock() bool {
	if w == nil {
		if !m.real.TryLock() {
			return false
		}
		m.locked = true
		return true
	}
	return m.take()
}

func (m *Mutex) Unlock() {
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	m.locked = false
	if w == nil {
		m.real.Unlock()
		return
	}
	Y()
}

type RWMutex struct {
	w    bool
	rs   int
	real sync.RWMutex
}

func (m *RWMutex) Lock() {
	if w == nil {
		m.real.Lock()
		return
	}
	Y()
	Block(m.take)
}

func (m *RWMutex) take() bool {
	if m.w || m.rs > 0 {
		return false
	}
	m.w = true
	return true
}

func (m *RWMutex) rtake() bool {
	if m.w {
		return false
	}
	m.rs++
	return true
}

func (m *RWMutex) Unlock() {
	if w == nil {
		m.real.Unlock()
		return
	}
	m.w = false
	Y()
}

func (m *RWMutex) RLock() {
	if w == nil {
		m.real.RLock()
		return
	}
	Y()
	Block(m.rtake)
}

func (m *RWMutex) RUnlock() {
	if w == nil {
		m.real.RUnlock()
		return
	}
	m.rs--
	Y()
}

func (m *RWMutex) TryLock() bool {
	if w == nil {
		return m.real.TryLock()
	}
	return m.take()
}

func (m *RWMutex) TryRLock() bool {
	if w == nil {
		return m.real.TryRLock()
	}
	return m.rtake()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	o := &Once{}
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	o := &Once{}
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	o := &Once{}
	var v T
	var u U
	return func() (T, U) {
		o.Do(func() { v, u = f() })
		return v, u
	}
}

type WaitGroup struct {
	n    int
	real sync.WaitGroup
}

func (g *WaitGroup) Add(n int) {
	if w == nil {
		g.real.Add(n)
		return
	}
	g.n += n
	if g.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

func (g *WaitGroup) Done() { g.Add(-1) }

func (g *WaitGroup) Wait() {
	if w == nil {
		g.real.Wait()
		return
	}
	Block(func() bool { return g.n <= 0 })
}

func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	Go(func() { defer g.Done(); f() })
}

type Cond struct {
	L sync.Locker
	q []*bool
}

func NewCond(l sync.Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	woken := new(bool)
	c.q = append(c.q, woken)
	c.L.Unlock()
	Block(func() bool { return *woken })
	c.L.Lock()
}

func (c *Cond) Signal() {
	if len(c.q) > 0 {
		*c.q[0] = true
		c.q = c.q[1:]
	}
}

func (c *Cond) Broadcast() {
	for _, b := range c.q {
		*b = true
	}
	c.q = nil
}

// Pool hands out what was put in last: the worst case for code that does not
// clean what it reuses.
type Pool struct {
	New   func() any
	items []any
	mu    sync.Mutex
}

func (p *Pool) Get() any {
	p.mu.Lock()
	if n := len(p.items); n > 0 {
		v := p.items[n-1]
		p.items = p.items[:n-1]
		p.mu.Unlock()
		return v
	}
	p.mu.Unlock()
	if p.New == nil {
		return nil
	}
	return p.New()
}

func (p *Pool) Put(v any) {
	if v == nil {
		return
	}
	p.mu.Lock()
	p.items = append(p.items, v)
	p.mu.Unlock()
}

// Map is sync.Map with a seeded iteration order.
type Map struct {
	mu sync.Mutex
	m  map[any]any
}

func (m *Map) Load(k any) (any, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	v, ok := m.m[k]
	return v, ok
}

func (m *Map) Store(k, v any) { m.Swap(k, v) }

func (m *Map) Swap(k, v any) (any, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.m == nil {
		m.m = map[any]any{}
	}
	o, ok := m.m[k]
	m.m[k] = v
	return o, ok
}

func (m *Map) LoadOrStore(k, v any) (any, bool) {
	if o, ok := m.Load(k); ok {
		return o, true
	}
	m.Store(k, v)
	return v, false
}

func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	v, ok := m.m[k]
	delete(m.m, k)
	return v, ok
}

func (m *Map) Delete(k any) { m.LoadAndDelete(k) }

func (m *Map) CompareAndSwap(k, o, n any) bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if v, ok := m.m[k]; !ok || v != o {
		return false
	}
	m.m[k] = n
	return true
}

func (m *Map) CompareAndDelete(k, o any) bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if v, ok := m.m[k]; !ok || v != o {
		return false
	}
	delete(m.m, k)
	return true
}

func (m *Map) Clear() {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.m = nil
}

func (m *Map) Range(f func(k, v any) bool) {
	m.mu.Lock()
	it := newIter(m.m)
	m.mu.Unlock()
	for {
		var k, v any
		m.mu.Lock()
		ok := it.Next(&k, &v)
		m.mu.Unlock()
		if !ok || !f(k, v) {
			return
		}
	}
}
