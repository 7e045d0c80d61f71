// Package context replaces package context inside the simulator; cancellation
// and deadlines go through simulated channels and timers.
package context

import (
	"context"
	"errors"

	"zz.test/sim"
	"zz.test/sim/time"
)

type (
	Context         = context.Context
	CancelFunc      = context.CancelFunc
	CancelCauseFunc = context.CancelCauseFunc
)

var (
	Canceled         = context.Canceled
	DeadlineExceeded = context.DeadlineExceeded
)

func Background() Context                   { return context.Background() }
func TODO() Context                         { return context.TODO() }
func WithValue(p Context, k, v any) Context { return context.WithValue(p, k, v) }
func Cause(c Context) error {
	if x, ok := c.Value(&key).(*ctx); ok && x.err != nil {
		return x.cause
	}
	return context.Cause(c)
}

var key int

type ctx struct {
	Context
	done     chan struct{}
	err      error
	cause    error
	deadline time.Time
	hasDL    bool
	kids     []*ctx
	tm       *time.Timer
	after    []func()
	stopped  bool
}

func (c *ctx) Done() <-chan struct{} { return c.done }
func (c *ctx) Err() error            { sim.Point("ctx.Err"); return c.err }
func (c *ctx) Deadline() (time.Time, bool) {
	if c.hasDL {
		return c.deadline, true
	}
	return c.Context.Deadline()
}
func (c *ctx) Value(k any) any {
	if k == &key {
		return c
	}
	return c.Context.Value(k)
}
func (c *ctx) cancel(err, cause error) {
	if c.err != nil {
		return
	}
	if cause == nil {
		cause = err
	}
	c.err, c.cause = err, cause
	sim.Close(c.done)
	if c.tm != nil {
		c.tm.Stop()
	}
	for _, k := range c.kids {
		k.cancel(err, cause)
	}
	for _, f := range c.after {
		sim.Go(f)
	}
}

func newCtx(p Context) *ctx {
	if p == nil {
		panic("cannot create context from nil parent")
	}
	c := &ctx{Context: p, done: make(chan struct{})}
	if x, ok := p.Value(&key).(*ctx); ok {
		if x.err != nil {
			c.cancel(x.err, x.cause)
		} else {
			x.kids = append(x.kids, c)
		}
	} else if p.Done() != nil {
		if p.Err() != nil {
			c.cancel(p.Err(), nil)
		} else {
			sim.Go(func() {
				sim.Recv(p.Done())
				c.cancel(p.Err(), nil)
			})
		}
	}
	return c
}

func WithCancel(p Context) (Context, CancelFunc) {
	c := newCtx(p)
	return c, func() { sim.Point("cancel"); c.cancel(Canceled, nil) }
}
func WithCancelCause(p Context) (Context, CancelCauseFunc) {
	c := newCtx(p)
	return c, func(e error) { sim.Point("cancel"); c.cancel(Canceled, e) }
}
func WithDeadline(p Context, d time.Time) (Context, CancelFunc) {
	return WithDeadlineCause(p, d, nil)
}
func WithDeadlineCause(p Context, d time.Time, cause error) (Context, CancelFunc) {
	c := newCtx(p)
	if cur, ok := p.Deadline(); ok && cur.Before(d) {
		d = cur
	}
	c.deadline, c.hasDL = d, true
	if c.err == nil {
		dur := time.Until(d)
		if dur <= 0 {
			c.cancel(DeadlineExceeded, cause)
		} else {
			c.tm = time.AfterFunc(dur, func() { c.cancel(DeadlineExceeded, cause) })
		}
	}
	return c, func() { c.cancel(Canceled, nil) }
}
func WithTimeout(p Context, d time.Duration) (Context, CancelFunc) {
	return WithDeadline(p, time.Now().Add(d))
}
func WithTimeoutCause(p Context, d time.Duration, cause error) (Context, CancelFunc) {
	return WithDeadlineCause(p, time.Now().Add(d), cause)
}
func WithoutCancel(p Context) Context { return noCancel{p} }

type noCancel struct{ Context }

func (noCancel) Deadline() (t time.Time, ok bool) { return }
func (noCancel) Done() <-chan struct{}            { return nil }
func (noCancel) Err() error                       { return nil }
func (n noCancel) Value(k any) any {
	if k == &key {
		return nil
	}
	return n.Context.Value(k)
}

func AfterFunc(p Context, f func()) func() bool {
	c := newCtx(p)
	if c.err != nil {
		sim.Go(f)
		return func() bool { return false }
	}
	c.after = append(c.after, f)
	return func() bool {
		if c.err != nil {
			return false
		}
		c.after = nil
		c.cancel(errors.New("stopped"), nil)
		return true
	}
}
