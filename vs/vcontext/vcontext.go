// Package vcontext stands in for context in the instrumented sources.
package vcontext

import (
	"context"
	"time"

	"verif/vs"
	"verif/vs/vsync"
)

type (
	Context         = context.Context
	CancelFunc      = context.CancelFunc
	CancelCauseFunc = context.CancelCauseFunc
)

var (
	Canceled         = context.Canceled
	DeadlineExceeded = context.DeadlineExceeded
)

func Background() Context                   { return context.Background() }
func TODO() Context                         { return context.TODO() }
func WithValue(c Context, k, v any) Context { return context.WithValue(c, k, v) }

type ctx struct {
	Context
	mu   vsync.Mutex
	done chan struct{}
	err  error
	why  error
	fn   []*after
	dl   time.Time
	kids []*ctx
}

func (c *ctx) Done() <-chan struct{} { return c.done }
func (c *ctx) Err() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.err
}
func (c *ctx) Deadline() (time.Time, bool) {
	if !c.dl.IsZero() {
		return c.dl, true
	}
	return c.Context.Deadline()
}

type ckey struct{}

func (c *ctx) Value(k any) any {
	if (k == ckey{}) {
		return c
	}
	return c.Context.Value(k)
}

// after is a function of AfterFunc.
type after struct{ f func() }

func (c *ctx) cancel(err error) { c.cause(err, err) }

func (c *ctx) cause(err, why error) {
	if why == nil {
		why = err
	}
	c.mu.Lock()
	if c.err != nil {
		c.mu.Unlock()
		return
	}
	c.err, c.why = err, why
	kids, fn := c.kids, c.fn
	c.fn = nil
	vs.Close(c.done)
	c.mu.Unlock()
	for _, k := range kids {
		k.cause(err, why)
	}
	for _, a := range fn {
		vs.Go("afterfunc", a.f)
	}
}

func child(p Context) *ctx {
	c := &ctx{Context: p, done: make(chan struct{})}
	if q, ok := p.Value(ckey{}).(*ctx); ok {
		q.mu.Lock()
		q.kids = append(q.kids, c)
		err, why := q.err, q.why
		q.mu.Unlock()
		if err != nil {
			c.cause(err, why)
		}
	}
	return c
}

func WithCancel(p Context) (Context, CancelFunc) {
	if !vs.Active() {
		return context.WithCancel(p)
	}
	c := child(p)
	return c, func() { c.cancel(Canceled) }
}

func WithDeadline(p Context, t time.Time) (Context, CancelFunc) {
	if !vs.Active() {
		return context.WithDeadline(p, t)
	}
	return WithTimeout(p, t.Sub(vs.Now()))
}

func WithTimeout(p Context, d time.Duration) (Context, CancelFunc) {
	if !vs.Active() {
		return context.WithTimeout(p, d)
	}
	c := child(p)
	c.dl = vs.Now().Add(d)
	t := vs.NewTimer(d, 0, nil, func() { c.cancel(DeadlineExceeded) })
	return c, func() { t.Stop(); c.cancel(Canceled) }
}

func WithCancelCause(p Context) (Context, CancelCauseFunc) {
	if !vs.Active() {
		return context.WithCancelCause(p)
	}
	c := child(p)
	return c, func(why error) { c.cause(Canceled, why) }
}

func WithDeadlineCause(p Context, t time.Time, why error) (Context, CancelFunc) {
	if !vs.Active() {
		return context.WithDeadlineCause(p, t, why)
	}
	return WithTimeoutCause(p, t.Sub(vs.Now()), why)
}

func WithTimeoutCause(p Context, d time.Duration, why error) (Context, CancelFunc) {
	if !vs.Active() {
		return context.WithTimeoutCause(p, d, why)
	}
	c := child(p)
	c.dl = vs.Now().Add(d)
	t := vs.NewTimer(d, 0, nil, func() { c.cause(DeadlineExceeded, why) })
	return c, func() { t.Stop(); c.cancel(Canceled) }
}

type free struct{ Context }

func (f free) Value(k any) any {
	if (k == ckey{}) {
		return nil
	}
	return f.Context.Value(k)
}

func WithoutCancel(p Context) Context { return free{context.WithoutCancel(p)} }

func Cause(p Context) error {
	if c, ok := p.Value(ckey{}).(*ctx); ok {
		c.mu.Lock()
		defer c.mu.Unlock()
		return c.why
	}
	return context.Cause(p)
}

func AfterFunc(p Context, f func()) (stop func() bool) {
	c, ok := p.Value(ckey{}).(*ctx)
	if !ok {
		return context.AfterFunc(p, f)
	}
	a := &after{f}
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.err != nil {
		vs.Go("afterfunc", f)
		return func() bool { return false }
	}
	c.fn = append(c.fn, a)
	return func() bool {
		c.mu.Lock()
		defer c.mu.Unlock()
		for i, b := range c.fn {
			if a == b {
				c.fn = append(c.fn[:i:i], c.fn[i+1:]...)
				return true
			}
		}
		return false
	}
}
