// Package vsync stands in for sync in instrumented code: before every operation
// that another thread can affect is a scheduling point, and blocking ones block in the scheduler. The ordering that
// the race detector sees is that of the real operations below.
package vsync

import (
	"sync"
	"sync/atomic"
	"unsafe"

	"github.com/google/licensecheck/verif/vs"
)

// Locker is sync.Locker.
type Locker = sync.Locker

// Mutex is like sync.Mutex.
type Mutex struct{ m sync.Mutex }

func (m *Mutex) key() uintptr { return uintptr(unsafe.Pointer(m)) }

// Lock is like sync.Mutex.Lock.
func (m *Mutex) Lock() {
	vs.Yield()
	for !m.m.TryLock() {
		vs.Block(m.key())
	}
}

// TryLock is like sync.Mutex.TryLock.
func (m *Mutex) TryLock() bool {
	vs.Yield()
	return m.m.TryLock()
}

// Unlock is like sync.Mutex.Unlock.
func (m *Mutex) Unlock() {
	m.m.Unlock()
	vs.Wake(m.key())
}

// RWMutex is like sync.RWMutex: once a writer waits, new readers wait for it,
// and a writer that unlocks lets the readers waiting for it in first.
// Only the running thread touches the fields besides m.
type RWMutex struct {
	m       sync.RWMutex
	held    bool // a writer holds or waits for the lock; other writers wait
	readers int  // readers that hold the lock, or were let in
	waiting int  // readers that wait for the writer
	turn    int  // number of writers that have unlocked
}

func (m *RWMutex) key() uintptr { return uintptr(unsafe.Pointer(m)) }

//go:norace
func (m *RWMutex) Lock() {
	vs.Yield()
	for m.held {
		vs.Block(m.key())
	}
	m.held = true
	for m.readers > 0 {
		vs.Block(m.key())
	}
	m.m.Lock()
}

//go:norace
func (m *RWMutex) TryLock() bool {
	vs.Yield()
	if m.held || m.readers > 0 {
		return false
	}
	m.held = true
	m.m.Lock()
	return true
}

//go:norace
func (m *RWMutex) Unlock() {
	m.m.Unlock() // fatal if it is not locked
	m.held = false
	m.turn++
	m.readers += m.waiting
	m.waiting = 0
	vs.Wake(m.key())
}

//go:norace
func (m *RWMutex) RLock() {
	vs.Yield()
	if m.held {
		m.waiting++
		for turn := m.turn; m.turn == turn; {
			vs.Block(m.key())
		}
	} else {
		m.readers++
	}
	m.m.RLock()
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	vs.Yield()
	if m.held {
		return false
	}
	m.readers++
	m.m.RLock()
	return true
}

//go:norace
func (m *RWMutex) RUnlock() {
	m.m.RUnlock() // fatal if it is not locked for reading
	m.readers--
	vs.Wake(m.key())
}

// RLocker is like sync.RWMutex.RLocker.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Once is like sync.Once, and made the same way.
type Once struct {
	done atomic.Uint32
	m    Mutex
}

// Do is like sync.Once.Do.
func (o *Once) Do(f func()) {
	vs.Yield()
	if o.done.Load() == 0 {
		o.slow(f)
	}
}

func (o *Once) slow(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if o.done.Load() == 0 {
		defer o.done.Store(1)
		f()
	}
}

// OnceFunc is like sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue is like sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

// OnceValues is like sync.OnceValues.
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var a T1
	var b T2
	return func() (T1, T2) {
		o.Do(func() { a, b = f() })
		return a, b
	}
}

// WaitGroup is like sync.WaitGroup.
type WaitGroup struct {
	n atomic.Int64
	w sync.WaitGroup
}

func (g *WaitGroup) key() uintptr { return uintptr(unsafe.Pointer(g)) }

func (g *WaitGroup) Add(d int) {
	vs.Yield()
	g.w.Add(d)
	if g.n.Add(int64(d)) == 0 {
		vs.Wake(g.key())
	}
}
func (g *WaitGroup) Done() { g.Add(-1) }
func (g *WaitGroup) Wait() {
	vs.Yield()
	for g.n.Load() > 0 {
		vs.Block(g.key())
	}
	g.w.Wait()
}
func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	vs.Go(func() {
		defer g.Done()
		f()
	})
}

// Cond is like sync.Cond.
type Cond struct {
	L    Locker
	keys []*byte
}

// NewCond is like sync.NewCond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) Wait() {
	k := new(byte)
	c.keys = append(c.keys, k)
	c.L.Unlock()
	for c.has(k) {
		vs.Block(uintptr(unsafe.Pointer(k)))
	}
	c.L.Lock()
}

//go:norace
func (c *Cond) has(k *byte) bool {
	for _, x := range c.keys {
		if x == k {
			return true
		}
	}
	return false
}

//go:norace
func (c *Cond) Signal() {
	vs.Yield()
	if len(c.keys) > 0 {
		k := c.keys[0]
		c.keys = c.keys[1:]
		vs.Wake(uintptr(unsafe.Pointer(k)))
	}
}

//go:norace
func (c *Cond) Broadcast() {
	for len(c.keys) > 0 {
		c.Signal()
	}
}

// Pool is like sync.Pool: Get may return any value put, or a new one.
type Pool struct {
	New  func() interface{}
	m    sync.Mutex
	list []interface{}
}

func (p *Pool) Get() interface{} {
	vs.Yield()
	p.m.Lock()
	n := len(p.list)
	p.m.Unlock()
	if n > 0 {
		// Newest, oldest, or none.
		k := 3
		if n == 1 {
			k = 2
		}
		c := vs.Choose(k)
		p.m.Lock()
		defer p.m.Unlock()
		switch {
		case c == k-1:
		case c == 0:
			x := p.list[n-1]
			p.list = p.list[:n-1]
			return x
		default:
			x := p.list[0]
			p.list = p.list[1:]
			return x
		}
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x interface{}) {
	if x == nil {
		return
	}
	vs.Yield()
	p.m.Lock()
	p.list = append(p.list, x)
	p.m.Unlock()
}

// Map is like sync.Map.
type Map struct{ m sync.Map }

func (m *Map) Load(k interface{}) (interface{}, bool) { vs.Yield(); return m.m.Load(k) }
func (m *Map) Store(k, v interface{})                 { vs.Yield(); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	vs.Yield()
	return m.m.LoadOrStore(k, v)
}
func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	vs.Yield()
	return m.m.LoadAndDelete(k)
}
func (m *Map) Delete(k interface{})                      { vs.Yield(); m.m.Delete(k) }
func (m *Map) Swap(k, v interface{}) (interface{}, bool) { vs.Yield(); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, a, b interface{}) bool {
	vs.Yield()
	return m.m.CompareAndSwap(k, a, b)
}
func (m *Map) CompareAndDelete(k, a interface{}) bool { vs.Yield(); return m.m.CompareAndDelete(k, a) }
func (m *Map) Range(f func(k, v interface{}) bool)    { vs.Yield(); m.m.Range(f) }
func (m *Map) Clear() {
	vs.Yield()
	m.m.Range(func(k, v interface{}) bool { m.m.Delete(k); return true })
}
