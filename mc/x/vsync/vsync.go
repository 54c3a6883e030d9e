//go:build go1.23

// Package vsync replaces package sync in instrumented code: every blocking
// operation is a scheduling point of package vs. It is compiled without race
// instrumentation and reports the happens-before edges of the real primitives
// to the race detector by hand.
package vsync

import (
	"sync"
	"unsafe"

	"github.com/xtfly/log4g/verifx/vs"
)

// Locker is sync.Locker.
type Locker = sync.Locker

// Mutex is sync.Mutex.
type Mutex struct {
	locked bool
	tok    uint64
}

// Ready implements vs.Waitable.
//
//go:noinline
func (m *Mutex) Ready(int) bool { return !m.locked }

// Lock is sync.Mutex.Lock.
//
//go:noinline
func (m *Mutex) Lock() {
	if vs.Killed() {
		return
	}
	vs.Block("Lock", m, 0)
	m.locked = true
	vs.Acquire(unsafe.Pointer(&m.tok))
}

// TryLock is sync.Mutex.TryLock.
//
//go:noinline
func (m *Mutex) TryLock() bool {
	if vs.Killed() {
		return false
	}
	vs.Point("TryLock")
	if m.locked {
		return false
	}
	m.locked = true
	vs.Acquire(unsafe.Pointer(&m.tok))
	return true
}

// Unlock is sync.Mutex.Unlock.
//
//go:noinline
func (m *Mutex) Unlock() {
	if vs.Killed() {
		return
	}
	if vs.UnlockPoints {
		vs.Point("Unlock")
	}
	if !m.locked {
		vs.Fatal("fatal error: sync: unlock of unlocked mutex")
	}
	vs.Release(unsafe.Pointer(&m.tok))
	m.locked = false
}

// RWMutex is sync.RWMutex: a waiting writer keeps new readers out.
type RWMutex struct {
	writer  bool // a writer holds or has announced
	readers int
	wtok    uint64
	rtok    uint64
}

// Ready implements vs.Waitable.
//
//go:noinline
func (m *RWMutex) Ready(what int) bool {
	switch what {
	case 1: // announced writer waits for the readers
		return m.readers == 0
	default:
		return !m.writer
	}
}

// Lock is sync.RWMutex.Lock.
//
//go:noinline
func (m *RWMutex) Lock() {
	if vs.Killed() {
		return
	}
	vs.Block("RW.Lock", m, 0)
	m.writer = true
	if m.readers > 0 {
		vs.Block("RW.Lock readers", m, 1)
	}
	vs.Acquire(unsafe.Pointer(&m.wtok))
	vs.Acquire(unsafe.Pointer(&m.rtok))
}

// TryLock is sync.RWMutex.TryLock.
//
//go:noinline
func (m *RWMutex) TryLock() bool {
	if vs.Killed() {
		return false
	}
	vs.Point("RW.TryLock")
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	vs.Acquire(unsafe.Pointer(&m.wtok))
	vs.Acquire(unsafe.Pointer(&m.rtok))
	return true
}

// Unlock is sync.RWMutex.Unlock.
//
//go:noinline
func (m *RWMutex) Unlock() {
	if vs.Killed() {
		return
	}
	if vs.UnlockPoints {
		vs.Point("RW.Unlock")
	}
	if !m.writer || m.readers > 0 {
		vs.Fatal("fatal error: sync: Unlock of unlocked RWMutex")
	}
	vs.Release(unsafe.Pointer(&m.wtok))
	m.writer = false
}

// RLock is sync.RWMutex.RLock.
//
//go:noinline
func (m *RWMutex) RLock() {
	if vs.Killed() {
		return
	}
	vs.Block("RW.RLock", m, 0)
	m.readers++
	vs.Acquire(unsafe.Pointer(&m.wtok))
}

// TryRLock is sync.RWMutex.TryRLock.
//
//go:noinline
func (m *RWMutex) TryRLock() bool {
	if vs.Killed() {
		return false
	}
	vs.Point("RW.TryRLock")
	if m.writer {
		return false
	}
	m.readers++
	vs.Acquire(unsafe.Pointer(&m.wtok))
	return true
}

// RUnlock is sync.RWMutex.RUnlock.
//
//go:noinline
func (m *RWMutex) RUnlock() {
	if vs.Killed() {
		return
	}
	if vs.UnlockPoints {
		vs.Point("RW.RUnlock")
	}
	if m.readers <= 0 {
		vs.Fatal("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	vs.ReleaseMerge(unsafe.Pointer(&m.rtok))
	m.readers--
}

// RLocker is sync.RWMutex.RLocker.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// WaitGroup is sync.WaitGroup.
type WaitGroup struct {
	n   int
	tok uint64
}

// Ready implements vs.Waitable.
//
//go:noinline
func (w *WaitGroup) Ready(int) bool { return w.n == 0 }

// Add is sync.WaitGroup.Add.
//
//go:noinline
func (w *WaitGroup) Add(d int) {
	if vs.Killed() {
		return
	}
	if d > 0 {
		vs.Point("WaitGroup.Add")
	} else {
		vs.ReleaseMerge(unsafe.Pointer(&w.tok))
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

// Done is sync.WaitGroup.Done.
//
//go:noinline
func (w *WaitGroup) Done() { w.Add(-1) }

// Go is sync.WaitGroup.Go.
//
//go:noinline
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vs.Go(func() {
		defer w.Done()
		f()
	})
}

// Wait is sync.WaitGroup.Wait.
//
//go:noinline
func (w *WaitGroup) Wait() {
	if vs.Killed() {
		return
	}
	vs.Block("WaitGroup.Wait", w, 0)
	vs.Acquire(unsafe.Pointer(&w.tok))
}

// Once is sync.Once.
type Once struct {
	m    Mutex
	done bool
	tok  uint64
}

// Do is sync.Once.Do.
//
//go:noinline
func (o *Once) Do(f func()) {
	if vs.Killed() {
		return
	}
	vs.Point("Once.Do")
	if o.done {
		vs.Acquire(unsafe.Pointer(&o.tok))
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() {
			o.done = true
			vs.ReleaseMerge(unsafe.Pointer(&o.tok))
		}()
		f()
	}
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	ok := false
	var p any
	return func() {
		o.Do(func() {
			defer func() {
				if !ok {
					p = recover()
					panic(p)
				}
			}()
			f()
			ok = true
		})
		if !ok {
			panic(p)
		}
	}
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var r T
	o := OnceFunc(func() { r = f() })
	return func() T { o(); return r }
}

// OnceValues is sync.OnceValues.
func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var a A
	var b B
	o := OnceFunc(func() { a, b = f() })
	return func() (A, B) { o(); return a, b }
}

// Cond is sync.Cond.
type Cond struct {
	L    Locker
	wait []*condWaiter
	tok  uint64
}

type condWaiter struct{ ok bool }

// Ready implements vs.Waitable.
//
//go:noinline
func (w *condWaiter) Ready(int) bool { return w.ok }

// NewCond is sync.NewCond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

// Wait is sync.Cond.Wait.
//
//go:noinline
func (c *Cond) Wait() {
	if vs.Killed() {
		return
	}
	w := &condWaiter{}
	c.wait = append(c.wait, w)
	c.L.Unlock()
	vs.Block("Cond.Wait", w, 0)
	vs.Acquire(unsafe.Pointer(&c.tok))
	c.L.Lock()
}

// Signal is sync.Cond.Signal.
//
//go:noinline
func (c *Cond) Signal() {
	if vs.Killed() {
		return
	}
	vs.Point("Cond.Signal")
	vs.ReleaseMerge(unsafe.Pointer(&c.tok))
	if len(c.wait) > 0 {
		c.wait[0].ok = true
		c.wait = c.wait[1:]
	}
}

// Broadcast is sync.Cond.Broadcast.
//
//go:noinline
func (c *Cond) Broadcast() {
	if vs.Killed() {
		return
	}
	vs.Point("Cond.Broadcast")
	vs.ReleaseMerge(unsafe.Pointer(&c.tok))
	for _, w := range c.wait {
		w.ok = true
	}
	c.wait = nil
}

// Pool is sync.Pool; it always returns the object put last.
type Pool struct {
	New func() any
	l   []any
	tok uint64
}

// Get is sync.Pool.Get.
//
//go:noinline
func (p *Pool) Get() any {
	vs.Point("Pool.Get")
	if n := len(p.l); n > 0 {
		x := p.l[n-1]
		p.l = p.l[:n-1]
		vs.Acquire(unsafe.Pointer(&p.tok))
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Put is sync.Pool.Put.
//
//go:noinline
func (p *Pool) Put(x any) {
	if x == nil || vs.Killed() {
		return
	}
	vs.Point("Pool.Put")
	vs.ReleaseMerge(unsafe.Pointer(&p.tok))
	p.l = append(p.l, x)
}

// Map is sync.Map. Its entries are a list: the runtime's own maps report their
// accesses to the race detector wherever they are used.
type Map struct {
	first *mapEntry
	tok   uint64
}

type mapEntry struct {
	k, v any
	gone bool
	next *mapEntry
}

//go:noinline
func (m *Map) enter(what string) {
	vs.Point(what)
	vs.Acquire(unsafe.Pointer(&m.tok))
}

//go:noinline
func (m *Map) leave() { vs.ReleaseMerge(unsafe.Pointer(&m.tok)) }

func (m *Map) get(k any) *mapEntry {
	for e := m.first; e != nil; e = e.next {
		if e.k == k && !e.gone {
			return e
		}
	}
	return nil
}

func (m *Map) put(k, v any) {
	p := &m.first
	for ; *p != nil; p = &(*p).next {
		if (*p).k == k && !(*p).gone {
			(*p).v = v
			return
		}
	}
	*p = &mapEntry{k: k, v: v}
}

// del takes the entry of k out; a Range at it goes on to the next.
func (m *Map) del(k any) {
	for p := &m.first; *p != nil; p = &(*p).next {
		if (*p).k == k && !(*p).gone {
			(*p).gone = true
			*p = (*p).next
			return
		}
	}
}

// Load is sync.Map.Load.
func (m *Map) Load(k any) (any, bool) {
	m.enter("Map.Load")
	if e := m.get(k); e != nil {
		return e.v, true
	}
	return nil, false
}

// Store is sync.Map.Store.
func (m *Map) Store(k, v any) { m.Swap(k, v) }

// Swap is sync.Map.Swap.
func (m *Map) Swap(k, v any) (any, bool) {
	m.enter("Map.Store")
	defer m.leave()
	if e := m.get(k); e != nil {
		p := e.v
		e.v = v
		return p, true
	}
	m.put(k, v)
	return nil, false
}

// LoadOrStore is sync.Map.LoadOrStore.
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.enter("Map.LoadOrStore")
	if e := m.get(k); e != nil {
		return e.v, true
	}
	defer m.leave()
	m.put(k, v)
	return v, false
}

// LoadAndDelete is sync.Map.LoadAndDelete.
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.enter("Map.LoadAndDelete")
	defer m.leave()
	if e := m.get(k); e != nil {
		m.del(k)
		return e.v, true
	}
	return nil, false
}

// Delete is sync.Map.Delete.
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }

// CompareAndSwap is sync.Map.CompareAndSwap.
func (m *Map) CompareAndSwap(k, o, n any) bool {
	m.enter("Map.CompareAndSwap")
	defer m.leave()
	if e := m.get(k); e != nil && e.v == o {
		e.v = n
		return true
	}
	return false
}

// CompareAndDelete is sync.Map.CompareAndDelete.
func (m *Map) CompareAndDelete(k, o any) bool {
	m.enter("Map.CompareAndDelete")
	defer m.leave()
	if e := m.get(k); e != nil && e.v == o {
		m.del(k)
		return true
	}
	return false
}

// Range is sync.Map.Range; other threads may run between its calls of f.
func (m *Map) Range(f func(k, v any) bool) {
	m.enter("Map.Range")
	for e := m.first; e != nil; e = e.next {
		if e.gone {
			continue
		}
		vs.Acquire(unsafe.Pointer(&m.tok))
		if !f(e.k, e.v) {
			return
		}
	}
}

// Clear is sync.Map.Clear.
func (m *Map) Clear() {
	m.enter("Map.Clear")
	defer m.leave()
	for e := m.first; e != nil; e = e.next {
		e.gone = true
	}
	m.first = nil
}
