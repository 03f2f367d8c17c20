// Package simsync replaces sync in the instrumented code. The primitives wrap
// the real ones, which are only ever used without blocking, so that the race
// detector sees exactly the ordering the real ones establish.
package simsync

import (
	"fmt"
	"sort"
	"sync"
	"sync/atomic"
	"unsafe"

	"github.com/asap2Go/calibrationReader/verifsim/simrt"
)

// Locker is sync.Locker.
type Locker = sync.Locker

// Mutex replaces sync.Mutex.
type Mutex struct{ m sync.Mutex }

func (m *Mutex) Lock() {
	if !simrt.Active() {
		m.m.Lock()
		return
	}
	simrt.SyncPoint()
	for !m.m.TryLock() {
		simrt.Block(unsafe.Pointer(m), "lock of a mutex")
	}
	simrt.Progress()
}

func (m *Mutex) TryLock() bool {
	simrt.SyncPoint()
	return m.m.TryLock()
}

func (m *Mutex) Unlock() {
	m.m.Unlock()
	if simrt.Active() {
		simrt.Notify(unsafe.Pointer(m))
		simrt.SyncPoint()
	}
}

// RWMutex replaces sync.RWMutex.
type RWMutex struct{ m sync.RWMutex }

func (m *RWMutex) Lock() {
	if !simrt.Active() {
		m.m.Lock()
		return
	}
	simrt.SyncPoint()
	for !m.m.TryLock() {
		simrt.Block(unsafe.Pointer(m), "lock of a rwmutex")
	}
	simrt.Progress()
}

func (m *RWMutex) TryLock() bool {
	simrt.SyncPoint()
	return m.m.TryLock()
}

func (m *RWMutex) Unlock() {
	m.m.Unlock()
	if simrt.Active() {
		simrt.Notify(unsafe.Pointer(m))
		simrt.SyncPoint()
	}
}

func (m *RWMutex) RLock() {
	if !simrt.Active() {
		m.m.RLock()
		return
	}
	simrt.SyncPoint()
	for !m.m.TryRLock() {
		simrt.Block(unsafe.Pointer(m), "read lock of a rwmutex")
	}
	simrt.Progress()
}

func (m *RWMutex) TryRLock() bool {
	simrt.SyncPoint()
	return m.m.TryRLock()
}

func (m *RWMutex) RUnlock() {
	m.m.RUnlock()
	if simrt.Active() {
		simrt.Notify(unsafe.Pointer(m))
		simrt.SyncPoint()
	}
}

// RLocker returns a Locker for the read side.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// WaitGroup replaces sync.WaitGroup.
type WaitGroup struct {
	wg  sync.WaitGroup
	n   int
	bad bool // went negative; the code under test recovered from the panic
}

//go:norace
func (w *WaitGroup) count(d int) int { w.n += d; return w.n }

func (w *WaitGroup) Add(d int) {
	if simrt.Aborting() {
		return
	}
	simrt.SyncPoint()
	n := w.count(d)
	if n < 0 {
		w.spoil()
		panic("sync: negative WaitGroup counter")
	}
	if !w.spoilt() {
		w.wg.Add(d)
	}
	if n == 0 && simrt.Active() {
		simrt.Notify(unsafe.Pointer(w))
		simrt.SyncPoint()
	}
}

//go:norace
func (w *WaitGroup) spoil() { w.bad = true }

//go:norace
func (w *WaitGroup) spoilt() bool { return w.bad }

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	if simrt.Aborting() {
		return
	}
	if simrt.Active() {
		simrt.SyncPoint()
		for w.count(0) != 0 {
			simrt.Block(unsafe.Pointer(w), "wait for a wait group")
		}
		simrt.Progress()
		if w.spoilt() {
			return
		}
	}
	w.wg.Wait()
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Go(0, func() {
		defer w.Done()
		f()
	})
}

// Once replaces sync.Once.
type Once struct {
	done atomic.Uint32
	m    Mutex
}

func (o *Once) Do(f func()) {
	if o.done.Load() == 0 {
		o.m.Lock()
		defer o.m.Unlock()
		if o.done.Load() == 0 {
			defer o.done.Store(1)
			f()
		}
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) { o.Do(func() { v1, v2 = f() }); return v1, v2 }
}

// Cond replaces sync.Cond.
type Cond struct {
	L        Locker
	next     int
	released int
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) ticket() int { c.next++; return c.next }

//go:norace
func (c *Cond) waiting(t int) bool { return c.released < t }

//go:norace
func (c *Cond) release(all bool) {
	if all {
		c.released = c.next
	} else if c.released < c.next {
		c.released++
	}
}

func (c *Cond) Wait() {
	t := c.ticket()
	c.L.Unlock()
	for c.waiting(t) && !simrt.Aborting() {
		simrt.Block(unsafe.Pointer(c), "wait on a condition")
	}
	simrt.Progress()
	simrt.RaceAcquire(unsafe.Pointer(&c.next))
	c.L.Lock()
}

func (c *Cond) Signal() {
	simrt.RaceRelease(unsafe.Pointer(&c.next))
	c.release(false)
	simrt.Notify(unsafe.Pointer(c))
	simrt.SyncPoint()
}

func (c *Cond) Broadcast() {
	simrt.RaceRelease(unsafe.Pointer(&c.next))
	c.release(true)
	simrt.Notify(unsafe.Pointer(c))
	simrt.SyncPoint()
}

// Pool replaces sync.Pool; an entry is handed out again, or dropped as the
// garbage collector may do, by draw.
type Pool struct {
	New  func() any
	head *poolNode
}

type poolNode struct {
	v    any
	next *poolNode
}

//go:norace
func (p *Pool) pop() *poolNode {
	n := p.head
	if n != nil {
		p.head = n.next
	}
	return n
}

//go:norace
func (p *Pool) push(n *poolNode) {
	n.next = p.head
	p.head = n
}

//go:norace
func (n *poolNode) val() any { return n.v }

func (p *Pool) Get() any {
	simrt.SyncPoint()
	if n := p.pop(); n != nil {
		simrt.RaceAcquire(unsafe.Pointer(n))
		if !simrt.Active() || simrt.Rand(8) != 0 {
			return n.val()
		}
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(v any) {
	if v == nil {
		return
	}
	n := &poolNode{v: v}
	simrt.RaceRelease(unsafe.Pointer(n))
	p.push(n)
	simrt.SyncPoint()
}

// Map replaces sync.Map.
type Map struct{ m sync.Map }

func (m *Map) Load(k any) (any, bool)           { simrt.SyncPoint(); return m.m.Load(k) }
func (m *Map) Store(k, v any)                   { simrt.SyncPoint(); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) { simrt.SyncPoint(); return m.m.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)  { simrt.SyncPoint(); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                     { simrt.SyncPoint(); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)        { simrt.SyncPoint(); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool  { simrt.SyncPoint(); return m.m.CompareAndSwap(k, o, n) }
func (m *Map) CompareAndDelete(k, o any) bool   { simrt.SyncPoint(); return m.m.CompareAndDelete(k, o) }
func (m *Map) Clear() {
	simrt.SyncPoint()
	m.m.Range(func(k, _ any) bool { m.m.Delete(k); return true })
}
func (m *Map) Range(f func(k, v any) bool) {
	type kv struct {
		s    string
		k, v any
	}
	var l []kv
	m.m.Range(func(k, v any) bool { l = append(l, kv{fmt.Sprintf("%#v", k), k, v}); return true })
	sort.Slice(l, func(i, j int) bool { return l[i].s < l[j].s })
	for _, e := range l {
		if v, ok := m.m.Load(e.k); ok {
			if !f(e.k, v) {
				return
			}
		}
	}
}
