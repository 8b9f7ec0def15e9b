// Package vcontext stands in for context in rewritten sources.
package vcontext

import (
	"context"
	"time"

	"verifharness/shim/vtime"
	"verifharness/vs"
)

// Context is context.Context with a controlled channel.
type Context interface {
	Deadline() (time.Time, bool)
	Done() *vs.Chan[struct{}]
	Err() error
	Value(key any) any
}

// CancelFunc cancels.
type CancelFunc = func()

// CancelCauseFunc cancels with a cause.
type CancelCauseFunc = func(error)

// Errors.
var (
	Canceled         = context.Canceled
	DeadlineExceeded = context.DeadlineExceeded
)

type root struct{}

func (root) Deadline() (t time.Time, ok bool) { return }
func (root) Done() *vs.Chan[struct{}]         { return nil }
func (root) Err() error                       { return nil }
func (root) Value(any) any                    { return nil }

// Background is never cancelled.
func Background() Context { return root{} }

// TODO is never cancelled.
func TODO() Context { return root{} }

type cctx struct {
	parent   Context
	done     *vs.Chan[struct{}]
	err      error
	cause    error
	children []*cctx
	at       time.Time
	hasAt    bool
	key, val any
	value    bool
}

func (c *cctx) Deadline() (time.Time, bool) {
	if c.hasAt {
		return c.at, true
	}
	return c.parent.Deadline()
}
func (c *cctx) Done() *vs.Chan[struct{}] {
	vs.Point()
	if c.value {
		return c.parent.Done()
	}
	return c.done
}
func (c *cctx) Err() error {
	vs.Point()
	if c.value {
		return c.parent.Err()
	}
	return c.err
}
func (c *cctx) Value(k any) any {
	if c.value && c.key == k {
		return c.val
	}
	return c.parent.Value(k)
}

func (c *cctx) cancel(err, cause error) {
	if vs.Killing() || c.err != nil {
		return
	}
	c.err, c.cause = err, cause
	c.done.CloseRaw()
	for _, k := range c.children {
		k.cancel(err, cause)
	}
}

func newCtx(p Context) *cctx {
	if p == nil {
		panic("cannot create context from nil parent")
	}
	c := &cctx{parent: p, done: vs.MakeChan[struct{}](0)}
	for q := p; ; {
		x, ok := q.(*cctx)
		if !ok {
			break
		}
		if x.value {
			q = x.parent
			continue
		}
		if x.err != nil {
			c.cancel(x.err, x.cause)
		} else {
			x.children = append(x.children, c)
		}
		break
	}
	return c
}

// WithCancel derives a cancellable context.
func WithCancel(p Context) (Context, CancelFunc) {
	c := newCtx(p)
	return c, func() { vs.Point(); c.cancel(Canceled, Canceled) }
}

// WithCancelCause derives a cancellable context.
func WithCancelCause(p Context) (Context, CancelCauseFunc) {
	c := newCtx(p)
	return c, func(e error) {
		vs.Point()
		if e == nil {
			e = Canceled
		}
		c.cancel(Canceled, e)
	}
}

// WithDeadline derives a context with a deadline.
func WithDeadline(p Context, t time.Time) (Context, CancelFunc) {
	return WithDeadlineCause(p, t, nil)
}

// WithTimeout derives a context with a timeout.
func WithTimeout(p Context, d time.Duration) (Context, CancelFunc) {
	return WithDeadline(p, vtime.Now().Add(d))
}

// WithValue derives a context with a value.
func WithValue(p Context, k, v any) Context {
	return &cctx{parent: p, value: true, key: k, val: v}
}

// Cause is the cancellation cause.
func Cause(c Context) error {
	for {
		x, ok := c.(*cctx)
		if !ok {
			return c.Err()
		}
		if !x.value {
			return x.cause
		}
		c = x.parent
	}
}

// WithDeadlineCause derives a context with a deadline and a cause.
func WithDeadlineCause(p Context, t time.Time, cause error) (Context, CancelFunc) {
	c := newCtx(p)
	c.at, c.hasAt = t, true
	if q, ok := p.Deadline(); ok && q.Before(t) {
		c.at, cause = q, nil
	}
	if cause == nil {
		cause = DeadlineExceeded
	}
	d := vtime.Until(c.at)
	if d <= 0 {
		c.cancel(DeadlineExceeded, cause)
	} else {
		vs.At(vs.NowNS()+int64(d), func() { c.cancel(DeadlineExceeded, cause) })
	}
	return c, func() { vs.Point(); c.cancel(Canceled, Canceled) }
}

// WithTimeoutCause derives a context with a timeout and a cause.
func WithTimeoutCause(p Context, d time.Duration, cause error) (Context, CancelFunc) {
	return WithDeadlineCause(p, vtime.Now().Add(d), cause)
}

type uncancelled struct{ p Context }

func (uncancelled) Deadline() (t time.Time, ok bool) { return }
func (uncancelled) Done() *vs.Chan[struct{}]         { return nil }
func (uncancelled) Err() error                       { return nil }
func (u uncancelled) Value(k any) any                { return u.p.Value(k) }

// WithoutCancel derives a context that outlives its parent.
func WithoutCancel(p Context) Context { return uncancelled{p} }

// AfterFunc runs f once the context is done.
func AfterFunc(ctx Context, f func()) (stop func() bool) {
	c := newCtx(ctx)
	stopped, ran := false, false
	vs.Go(func() {
		c.done.Recv2()
		if !stopped {
			ran = true
			f()
		}
	})
	return func() bool {
		vs.Point()
		if stopped || ran || c.err != nil {
			return false
		}
		stopped = true
		c.cancel(Canceled, Canceled)
		return true
	}
}
