package model

import (
	"context"
	"errors"
	"time"

	"vpharness/vp"
)

// The context package: cancellation of a context and everything derived from it is one atomic step.

type emptyCtx struct{ name string }

func (*emptyCtx) Deadline() (time.Time, bool) { return time.Time{}, false }
func (*emptyCtx) Done() <-chan struct{}       { return nil }
func (*emptyCtx) Err() error                  { return nil }
func (*emptyCtx) Value(any) any               { return nil }

var background, todo = &emptyCtx{"background"}, &emptyCtx{"todo"}

//vp:model context.Background
func Background() context.Context { return background }

//vp:model context.TODO
func TODO() context.Context { return todo }

type cancelCtx struct {
	parent   context.Context
	done     chan struct{}
	err      error
	cause    error
	children []*cancelCtx
	deadline time.Time
	hasDl    bool
	timer    *time.Timer
	after    []func()
}

func (c *cancelCtx) Deadline() (time.Time, bool) {
	if c.hasDl {
		return c.deadline, true
	}
	return c.parent.Deadline()
}
func (c *cancelCtx) Done() <-chan struct{} { return c.done }
func (c *cancelCtx) Err() (err error) {
	select {
	case <-c.done:
		vp.Ghost(func() { err = c.err })
		return err
	default:
		return nil
	}
}

type ctxKey struct{}

func (c *cancelCtx) Value(k any) any {
	if k == (ctxKey{}) {
		return c
	}
	return c.parent.Value(k)
}
func (c *cancelCtx) cancel(err, cause error) {
	vp.Atomic(func() { c.cancel0(err, cause) })
}
func (c *cancelCtx) cancel0(err, cause error) {
	if c.err != nil {
		return
	}
	if cause == nil {
		cause = err
	}
	c.err, c.cause = err, cause
	close(c.done)
	for _, k := range c.children {
		k.cancel0(err, cause)
	}
	c.children = nil
	if c.timer != nil {
		c.timer.Stop()
	}
	for _, f := range c.after {
		go f()
	}
}

func newCancel(parent context.Context) *cancelCtx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &cancelCtx{parent: parent, done: make(chan struct{})}
	if p, ok := parent.Value(ctxKey{}).(*cancelCtx); ok {
		vp.Atomic(func() {
			if p.err != nil {
				c.cancel0(p.err, p.cause)
			} else {
				p.children = append(p.children, c)
			}
		})
		return c
	}
	if parent.Done() != nil {
		go func() {
			select {
			case <-parent.Done():
				c.cancel(parent.Err(), nil)
			case <-c.done:
			}
		}()
	}
	return c
}
func (c *cancelCtx) detach() {
	if p, ok := c.parent.Value(ctxKey{}).(*cancelCtx); ok {
		for i, k := range p.children {
			if k == c {
				p.children = append(p.children[:i:i], p.children[i+1:]...)
				break
			}
		}
	}
}

//vp:model context.WithCancel
func WithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	c := newCancel(parent)
	return c, func() {
		vp.Atomic(func() {
			c.cancel0(context.Canceled, nil)
			c.detach()
		})
	}
}

//vp:model context.WithCancelCause
func WithCancelCause(parent context.Context) (context.Context, context.CancelCauseFunc) {
	c := newCancel(parent)
	return c, func(cause error) {
		vp.Atomic(func() {
			c.cancel0(context.Canceled, cause)
			c.detach()
		})
	}
}

//vp:model context.Cause
func Cause(c context.Context) error {
	if k, ok := c.Value(ctxKey{}).(*cancelCtx); ok {
		var e error
		vp.Atomic(func() { e = k.cause })
		return e
	}
	return c.Err()
}

//vp:model context.WithDeadline
func WithDeadline(parent context.Context, d time.Time) (context.Context, context.CancelFunc) {
	c := newCancel(parent)
	if cur, ok := parent.Deadline(); !ok || d.Before(cur) {
		c.deadline, c.hasDl = d, true
		dur := time.Until(d)
		if dur <= 0 {
			c.cancel(DeadlineExceeded, nil)
		} else {
			c.timer = time.AfterFunc(dur, func() { c.cancel(DeadlineExceeded, nil) })
		}
	}
	return c, func() {
		vp.Atomic(func() {
			c.cancel0(context.Canceled, nil)
			c.detach()
		})
	}
}

// DeadlineExceeded is the real error value.
var DeadlineExceeded = context.DeadlineExceeded

//vp:model context.WithTimeout
func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return WithDeadline(parent, time.Now().Add(d))
}

//vp:model context.AfterFunc
func AfterFunc(ctx context.Context, f func()) func() bool {
	c := newCancel(ctx)
	c.after = []func(){f}
	return func() (stopped bool) {
		vp.Atomic(func() {
			stopped = c.err == nil
			c.after = nil
			c.cancel0(context.Canceled, nil)
			c.detach()
		})
		return
	}
}

type withoutCancel struct{ context.Context }

func (withoutCancel) Deadline() (time.Time, bool) { return time.Time{}, false }
func (withoutCancel) Done() <-chan struct{}       { return nil }
func (withoutCancel) Err() error                  { return nil }
func (w withoutCancel) Value(k any) any {
	if k == (ctxKey{}) {
		return nil
	}
	return w.Context.Value(k)
}

//vp:model context.WithoutCancel
func WithoutCancel(parent context.Context) context.Context { return withoutCancel{parent} }

type valueCtx struct {
	context.Context
	k, v any
}

func (c *valueCtx) Value(k any) any {
	if k == c.k {
		return c.v
	}
	return c.Context.Value(k)
}

//vp:model context.WithValue
func WithValue(parent context.Context, k, v any) context.Context { return &valueCtx{parent, k, v} }

var _ = errors.New
