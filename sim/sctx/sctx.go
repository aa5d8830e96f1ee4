// Package sctx is package context with simulated deadlines and cancellation.
package sctx

import (
	"context"
	"time"
	"vsa/zsim/rt"
)

type sctx struct {
	parent   context.Context
	done     chan struct{}
	err      error
	cause    error
	deadline int64 // monotonic sim ns, 0 none
	dlWall   time.Time
	kids     []*sctx
	afters   []func()
	stop     func() bool
	detached bool
}

func (c *sctx) Deadline() (time.Time, bool) {
	if c.deadline != 0 {
		return c.dlWall, true
	}
	return c.parent.Deadline()
}
func (c *sctx) Done() <-chan struct{} { return c.done }
func (c *sctx) Err() error            { rt.YS(); return c.err }
func (c *sctx) Value(k any) any {
	if k == &selfKey {
		return c
	}
	return c.parent.Value(k)
}

var selfKey int

func find(p context.Context) *sctx {
	c, _ := p.Value(&selfKey).(*sctx)
	return c
}

func (c *sctx) cancel(err, cause error) {
	if c.err != nil {
		return
	}
	c.err = err
	if cause == nil {
		cause = err
	}
	c.cause = cause
	if c.stop != nil {
		c.stop()
	}
	rt.CloseQuiet(c.done)
	for _, k := range c.kids {
		k.cancel(err, cause)
	}
	for _, f := range c.afters {
		rt.Spawn(nil, "ctx.AfterFunc", f)
	}
	c.kids, c.afters = nil, nil
}

func newC(parent context.Context) *sctx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &sctx{parent: parent, done: make(chan struct{})}
	if p := find(parent); p != nil {
		if p.err != nil {
			c.cancel(p.err, p.cause)
		} else {
			p.kids = append(p.kids, c)
		}
	}
	return c
}

func (c *sctx) cf() context.CancelFunc {
	return func() {
		if rt.Dead() {
			return
		}
		rt.YS()
		c.cancel(context.Canceled, nil)
	}
}

func WithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	c := newC(parent)
	return c, c.cf()
}
func WithCancelCause(parent context.Context) (context.Context, context.CancelCauseFunc) {
	c := newC(parent)
	return c, func(cause error) {
		if !rt.Dead() {
			c.cancel(context.Canceled, cause)
		}
	}
}
func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return WithTimeoutCause(parent, d, nil)
}
func WithTimeoutCause(parent context.Context, d time.Duration, cause error) (context.Context, context.CancelFunc) {
	c := newC(parent)
	c.deadline = rt.Now() + int64(d)
	c.dlWall = time.Unix(0, rt.WallNow()+int64(d))
	if c.err == nil {
		if d <= 0 {
			c.cancel(context.DeadlineExceeded, cause)
		} else {
			c.stop = rt.At(c.deadline, func() { c.cancel(context.DeadlineExceeded, cause) })
		}
	}
	return c, c.cf()
}
func WithDeadline(parent context.Context, t time.Time) (context.Context, context.CancelFunc) {
	return WithTimeout(parent, time.Duration(t.UnixNano()-rt.WallNow()))
}
func WithDeadlineCause(parent context.Context, t time.Time, cause error) (context.Context, context.CancelFunc) {
	return WithTimeoutCause(parent, time.Duration(t.UnixNano()-rt.WallNow()), cause)
}
func AfterFunc(ctx context.Context, f func()) func() bool {
	c := find(ctx)
	if c == nil {
		return func() bool { return true }
	}
	if c.err != nil {
		rt.Spawn(nil, "ctx.AfterFunc", f)
		return func() bool { return false }
	}
	on := true
	c.afters = append(c.afters, func() {
		if on {
			on = false
			f()
		}
	})
	return func() bool { w := on; on = false; return w }
}
func WithoutCancel(parent context.Context) context.Context { return noCancel{parent} }

type noCancel struct{ context.Context }

func (noCancel) Deadline() (time.Time, bool) { return time.Time{}, false }
func (noCancel) Done() <-chan struct{}       { return nil }
func (noCancel) Err() error                  { return nil }
func (n noCancel) Value(k any) any {
	if k == &selfKey {
		return nil
	}
	return n.Context.Value(k)
}
func Cause(ctx context.Context) error {
	if c := find(ctx); c != nil {
		return c.cause
	}
	return ctx.Err()
}
