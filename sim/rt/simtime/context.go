package simtime

import (
	"context"
	"sync/atomic"
	"time"

	"github.com/asap2Go/calibrationReader/verifsim/simrt"
)

// The functions of package context that make a context which can end. The
// contexts end on the simulated clock and in the simulated order.

type ctxKey struct{}

type simCtx struct {
	parent context.Context
	done   chan struct{}
	err    error
	cause  error
	limit  time.Time
	has    bool
	drop   func() bool
	kids   []*simCtx
	after  []*afterFn
	hb     int32 // orders those who end it, ask it and wait for it
}

type afterFn struct {
	f    func()
	gone bool
}

//go:norace
func (c *simCtx) Deadline() (time.Time, bool) {
	if c.has {
		return c.limit, true
	}
	return c.parent.Deadline()
}
func (c *simCtx) Done() <-chan struct{} { return c.done }

//go:norace
func (c *simCtx) Err() error {
	atomic.LoadInt32(&c.hb)
	return c.err
}

//go:norace
func (c *simCtx) Value(k any) any {
	if k == (ctxKey{}) {
		return c
	}
	return c.parent.Value(k)
}
func (c *simCtx) String() string { return "context" }

//go:norace
func (c *simCtx) end(err, cause error) bool {
	atomic.AddInt32(&c.hb, 1)
	if c.err != nil {
		return false
	}
	if cause == nil {
		cause = err
	}
	c.err, c.cause = err, cause
	if c.drop != nil {
		c.drop()
	}
	close(c.done)
	simrt.NotifyChan(c.done)
	for _, k := range c.kids {
		k.end(err, cause)
	}
	for _, a := range c.after {
		if !a.gone {
			a.gone = true
			simrt.Spawn(a.f)
		}
	}
	c.kids, c.after = nil, nil
	return true
}

//go:norace
func newCtx(parent context.Context) *simCtx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &simCtx{parent: parent, done: make(chan struct{})}
	if p, ok := parent.Value(ctxKey{}).(*simCtx); ok {
		if p.err != nil {
			c.end(p.err, p.cause)
		} else {
			atomic.AddInt32(&p.hb, 1)
			p.kids = append(p.kids, c)
		}
	} else if e := parent.Err(); e != nil {
		c.end(e, context.Cause(parent))
	}
	return c
}

func (c *simCtx) cancel() {
	if c.end(context.Canceled, nil) {
		simrt.SyncPoint()
	}
}

func (c *simCtx) cancelCause(e error) {
	if c.end(context.Canceled, e) {
		simrt.SyncPoint()
	}
}

func WithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	c := newCtx(parent)
	return c, c.cancel
}

func WithCancelCause(parent context.Context) (context.Context, context.CancelCauseFunc) {
	c := newCtx(parent)
	return c, c.cancelCause
}

func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(parent, Now().Add(d), nil)
}

func WithTimeoutCause(parent context.Context, d time.Duration, cause error) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(parent, Now().Add(d), cause)
}

func WithDeadline(parent context.Context, t time.Time) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(parent, t, nil)
}

func WithDeadlineCause(parent context.Context, t time.Time, cause error) (context.Context, context.CancelFunc) {
	c := newCtx(parent)
	c.deadline(t, cause)
	return c, c.cancel
}

//go:norace
func (c *simCtx) deadline(t time.Time, cause error) {
	if l, ok := c.parent.Deadline(); ok && l.Before(t) {
		return // the parent ends first
	}
	c.limit, c.has = t, true
	if c.err != nil {
		return
	}
	d := t.Sub(Now())
	if d <= 0 {
		c.end(context.DeadlineExceeded, cause)
		return
	}
	c.drop = simrt.AddTimer(d, func() { c.end(context.DeadlineExceeded, cause) })
}

// WithoutCancel hides that the parent can end.
func WithoutCancel(parent context.Context) context.Context { return lasting{parent} }

type lasting struct{ context.Context }

func (lasting) Deadline() (t time.Time, ok bool) { return }
func (lasting) Done() <-chan struct{}            { return nil }
func (lasting) Err() error                       { return nil }
func (l lasting) Value(k any) any {
	if k == (ctxKey{}) {
		return nil
	}
	return l.Context.Value(k)
}

//go:norace
func Cause(c context.Context) error {
	if s, ok := c.Value(ctxKey{}).(*simCtx); ok {
		atomic.LoadInt32(&s.hb)
		return s.cause
	}
	return context.Cause(c)
}

// ContextAfterFunc is context.AfterFunc.
//
//go:norace
func ContextAfterFunc(ctx context.Context, f func()) (stop func() bool) {
	a := &afterFn{f: f}
	s, ok := ctx.Value(ctxKey{}).(*simCtx)
	switch {
	case ok && s.err != nil || !ok && ctx.Err() != nil:
		a.gone = true
		simrt.Spawn(f)
	case ok:
		atomic.AddInt32(&s.hb, 1)
		s.after = append(s.after, a)
	}
	return a.stop
}

//go:norace
func (a *afterFn) stop() bool {
	was := !a.gone
	a.gone = true
	return was
}
