package simrt

import (
	"fmt"
	"reflect"
	"sort"
	"unsafe"
)

// Case is one alternative a task waits for on a channel.
type Case struct {
	ch     unsafe.Pointer
	send   bool
	unbuf  bool
	val    interface{} // value to send, or received by rendezvous
	ok     bool
	try    func() bool // native, non-blocking
	direct bool        // val was set by a counterpart
	sync1  int64
	sync2  int64
}

//go:norace
func chptr[T any](ch chan T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

//go:norace
func notifyCh(p unsafe.Pointer) {
	progress++
	if p == nil {
		return
	}
	for i := 0; i < nlive; i++ {
		c := live[i]
		if c.state != stBlocked {
			continue
		}
		for _, k := range c.wcases {
			if k.ch == p {
				makeReady(c)
				break
			}
		}
	}
}

// counterpart looks for a parked task that can complete case k right away.
//
//go:norace
func counterpart(k *Case) (*Task, int) {
	for i := 0; i < nlive; i++ {
		c := live[i]
		if c.wcases == nil || c.claimed >= 0 || c == cur {
			continue
		}
		if c.state != stBlocked && c.state != stReady {
			continue
		}
		for j, o := range c.wcases {
			if o.ch == k.ch && o.send != k.send {
				return c, j
			}
		}
	}
	return nil, -1
}

//go:norace
func tryCase(k *Case) bool {
	if k.ch == nil {
		return false
	}
	if k.try() {
		notifyCh(k.ch)
		return true
	}
	if !k.unbuf {
		return false
	}
	c, j := counterpart(k)
	if c == nil {
		return false
	}
	o := c.wcases[j]
	if k.send {
		RaceRelease(unsafe.Pointer(&o.sync1))
		o.val, o.ok, o.direct = k.val, true, true
		RaceAcquire(unsafe.Pointer(&o.sync2))
	} else {
		RaceAcquire(unsafe.Pointer(&o.sync2))
		k.val, k.ok, k.direct = o.val, true, true
		RaceRelease(unsafe.Pointer(&o.sync1))
	}
	c.claimed = j
	progress++
	if c.state == stBlocked {
		makeReady(c)
	}
	return true
}

// doSelect waits until one of the cases goes through.
//
//go:norace
func doSelect(hasDefault bool, cases []*Case, why string) int {
	t := cur
	if aborting {
		return -1
	}
	for {
		n := len(cases)
		s := 0
		if n > 1 {
			s = Rand(n)
		}
		for i := 0; i < n; i++ {
			j := (s + i) % n
			if tryCase(cases[j]) {
				return j
			}
		}
		if hasDefault {
			return -1
		}
		for _, k := range cases {
			if k.unbuf {
				RaceRelease(unsafe.Pointer(&k.sync2))
			}
		}
		t.wcases = cases
		t.claimed = -1
		blockOn(why)
		t.wcases = nil
		if t.claimed >= 0 {
			j := t.claimed
			t.claimed = -1
			RaceAcquire(unsafe.Pointer(&cases[j].sync1))
			return j
		}
	}
}

// BlockForever is select{}.
//
//go:norace
func BlockForever() {
	if cur == nil {
		select {}
	}
	for {
		blockOn("select{}")
	}
}

// SendTo(ch)(v) sends v on ch.
//
//go:norace
func SendTo[T any](ch chan<- T) func(T) {
	return func(v T) { sendTo(*(*chan T)(unsafe.Pointer(&ch)), v) }
}

//go:norace
func sendTo[T any](ch chan T, v T) {
	if cur == nil {
		ch <- v
		return
	}
	SyncPoint()
	if ch != nil && cap(ch) > 0 {
		select {
		case ch <- v:
			notifyCh(chptr(ch))
			SyncPoint()
			return
		default:
		}
	}
	doSelect(false, []*Case{sendCase(ch, v)}, "send on channel")
	SyncPoint()
}

func sendCase[T any](ch chan T, v T) *Case {
	return &Case{ch: chptr(ch), send: true, unbuf: ch != nil && cap(ch) == 0, val: v, try: func() bool {
		select {
		case ch <- v:
			return true
		default:
			return false
		}
	}}
}

// Recv receives from ch.
//
//go:norace
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Recv2 is the comma-ok form.
//
//go:norace
func Recv2[T any](rch <-chan T) (T, bool) {
	ch := *(*chan T)(unsafe.Pointer(&rch))
	if cur == nil {
		v, ok := <-ch
		return v, ok
	}
	if aborting {
		var z T
		return z, false
	}
	SyncPoint()
	if ch != nil {
		select {
		case v, ok := <-ch:
			notifyCh(chptr(ch))
			return v, ok
		default:
		}
	}
	c := RCase(rch)
	doSelect(false, []*Case{&c.Case}, "receive from channel")
	return c.Val2()
}

// RangeInit prepares for x := range ch.
func RangeInit[T any](ch <-chan T) (<-chan T, T, bool) {
	var z T
	return ch, z, false
}

// RC is a typed receive case.
type RC[T any] struct {
	Case
	v T
}

// RCase makes a receive case.
func RCase[T any](rch <-chan T) *RC[T] {
	ch := *(*chan T)(unsafe.Pointer(&rch))
	c := &RC[T]{}
	c.ch = chptr(ch)
	c.unbuf = ch != nil && cap(ch) == 0
	c.try = func() bool {
		select {
		case v, ok := <-ch:
			c.v, c.ok = v, ok
			return true
		default:
			return false
		}
	}
	return c
}

// Val is the received value.
//
//go:norace
func (c *RC[T]) Val() T { v, _ := c.Val2(); return v }

// Val2 is the received value and whether it was sent.
//
//go:norace
func (c *RC[T]) Val2() (T, bool) {
	if c.direct {
		v, _ := c.val.(T)
		return v, c.ok
	}
	return c.v, c.ok
}

func (c *RC[T]) base() *Case { return &c.Case }

type SC struct{ Case }

func (c *SC) base() *Case { return &c.Case }

// SCase makes a send case.
func SCase[T any](sch chan<- T) func(v T) *SC {
	return func(v T) *SC { return &SC{*sendCase(*(*chan T)(unsafe.Pointer(&sch)), v)} }
}

type anyCase interface{ base() *Case }

// Select runs a select statement; -1 is the default clause.
//
//go:norace
func Select(hasDefault bool, cs ...anyCase) int {
	cases := make([]*Case, len(cs))
	for i := range cs {
		cases[i] = cs[i].base()
	}
	if cur == nil {
		panic("simrt: select outside a simulated run")
	}
	SyncPoint()
	return doSelect(hasDefault, cases, "select")
}

// Close closes ch.
//
//go:norace
func Close[T any](ch chan<- T) {
	close(ch)
	if cur != nil && !aborting {
		notifyCh(*(*unsafe.Pointer)(unsafe.Pointer(&ch)))
		SyncPoint()
	}
}

// NotifyChan is for channels filled by the simulator itself.
func NotifyChan[T any](ch chan T) { notifyCh(chptr(ch)) }

// MapIter iterates a map in an order drawn from the run's generator.
type MapIter[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
	K    K
	V    V
}

// MapRange starts an iteration.
func MapRange[M ~map[K]V, K comparable, V any](m M) *MapIter[K, V] {
	it := &MapIter[K, V]{m: m}
	for k := range m {
		it.keys = append(it.keys, k)
	}
	sort.Slice(it.keys, func(i, j int) bool { return keyLess(it.keys[i], it.keys[j]) })
	if Active() {
		for i := len(it.keys) - 1; i > 0; i-- {
			j := Rand(i + 1)
			it.keys[i], it.keys[j] = it.keys[j], it.keys[i]
		}
	}
	return it
}

func keyLess(a, b interface{}) bool {
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	if va.IsValid() && vb.IsValid() && va.Kind() == vb.Kind() {
		switch va.Kind() {
		case reflect.String:
			return va.String() < vb.String()
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			return va.Int() < vb.Int()
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			return va.Uint() < vb.Uint()
		}
	}
	return fmt.Sprintf("%#v", a) < fmt.Sprintf("%#v", b)
}

// Next moves to the next entry that is still in the map.
func (it *MapIter[K, V]) Next() bool {
	for it.i < len(it.keys) {
		k := it.keys[it.i]
		it.i++
		if v, ok := it.m[k]; ok {
			it.K, it.V = k, v
			return true
		}
	}
	return false
}
