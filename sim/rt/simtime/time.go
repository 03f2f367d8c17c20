// Package simtime replaces the clock and the timers of package time.
package simtime

import (
	"time"
	"unsafe"

	"github.com/asap2Go/calibrationReader/verifsim/simrt"
)

// Keep is referenced by every instrumented file.
var Keep int

var base = time.Date(2024, 2, 29, 12, 0, 0, 0, time.UTC)

// Now has a wall clock, which can be set, and a monotonic one, which can not:
// differences between two of these do not see the wall clock being set.
func Now() time.Time {
	t := base.Add(time.Duration(simrt.WallNow()))
	if !mono {
		return t
	}
	l := layout{wall: 1<<63 | uint64(t.Unix()+since1885)<<30 | uint64(t.Nanosecond()), ext: simrt.Now() + 1}
	return *(*time.Time)(unsafe.Pointer(&l))
}

type layout struct {
	wall uint64
	ext  int64
	loc  *time.Location
}

const since1885 = 2682288000

// mono: time.Time is laid out as this package believes.
var mono = func() bool {
	if unsafe.Sizeof(layout{}) != unsafe.Sizeof(time.Time{}) {
		return false
	}
	a := layout{wall: 1<<63 | uint64(base.Unix()+since1885)<<30, ext: 5}
	b := layout{wall: 1<<63 | uint64(base.Unix()+since1885+7)<<30, ext: 15}
	x, y := *(*time.Time)(unsafe.Pointer(&a)), *(*time.Time)(unsafe.Pointer(&b))
	return x.Unix() == base.Unix() && y.Sub(x) == 10 && y.Round(0).Sub(x.Round(0)) == 7*time.Second && x.Round(0).Equal(base)
}()

func Since(t time.Time) time.Duration        { return Now().Sub(t) }
func Until(t time.Time) time.Duration        { return t.Sub(Now()) }
func Sleep(d time.Duration)                  { simrt.Sleep(d) }
func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }
func Tick(d time.Duration) <-chan time.Time  { return NewTicker(d).C }

type Timer struct {
	C      <-chan time.Time
	c      chan time.Time
	f      func()
	cancel func() bool
}

func NewTimer(d time.Duration) *Timer {
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c}
	t.arm(d)
	return t
}

func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.arm(d)
	return t
}

//go:norace
func (t *Timer) arm(d time.Duration) {
	t.cancel = simrt.AddTimer(d, func() {
		if t.f != nil {
			simrt.Spawn(t.f)
			return
		}
		select {
		case t.c <- Now():
		default:
		}
		simrt.NotifyChan(t.c)
	})
}

//go:norace
func (t *Timer) Stop() bool { return t.cancel() }

//go:norace
func (t *Timer) Reset(d time.Duration) bool {
	a := t.cancel()
	if t.c != nil {
		select {
		case <-t.c:
		default:
		}
	}
	t.arm(d)
	return a
}

type Ticker struct {
	C      <-chan time.Time
	c      chan time.Time
	d      time.Duration
	cancel func() bool
}

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan time.Time, 1)
	t := &Ticker{C: c, c: c, d: d}
	t.arm()
	return t
}

//go:norace
func (t *Ticker) arm() {
	t.cancel = simrt.AddTimer(t.d, func() {
		select {
		case t.c <- Now():
		default:
		}
		simrt.NotifyChan(t.c)
		t.arm()
	})
}

//go:norace
func (t *Ticker) Stop() { t.cancel() }

//go:norace
func (t *Ticker) Reset(d time.Duration) { t.cancel(); t.d = d; t.arm() }
