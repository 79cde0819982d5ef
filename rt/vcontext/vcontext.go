// Package vcontext stands in for package context, on virtual channels and time.
package vcontext

import (
	"context"
	"errors"
	"time"

	"github.com/jsimonetti/go-artnet/zz_vrt/vrt"
	"github.com/jsimonetti/go-artnet/zz_vrt/vsync"
)

type ctx struct {
	parent   context.Context
	done     chan struct{}
	mu       vsync.Mutex
	err      error
	cause    error
	kids     []*ctx
	deadline time.Time
	hasDL    bool
	timer    *vrt.Timer
}

func (c *ctx) Deadline() (time.Time, bool) {
	if c.hasDL {
		return c.deadline, true
	}
	return c.parent.Deadline()
}
func (c *ctx) Done() <-chan struct{} { return c.done }
func (c *ctx) Err() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.err
}
func (c *ctx) Value(k any) any { return c.parent.Value(k) }

func (c *ctx) cancel(err, cause error) {
	c.mu.Lock()
	if c.err != nil {
		c.mu.Unlock()
		return
	}
	c.err = err
	if cause == nil {
		cause = err
	}
	c.cause = cause
	kids := c.kids
	c.kids = nil
	t := c.timer
	c.mu.Unlock()
	vrt.Close(c.done)
	if t != nil {
		t.Stop()
	}
	for _, k := range kids {
		k.cancel(err, cause)
	}
}

func owner(p context.Context) *ctx {
	for {
		switch x := p.(type) {
		case *ctx:
			return x
		case *valCtx:
			p = x.Context
		default:
			return nil
		}
	}
}

func mk(parent context.Context) *ctx {
	c := &ctx{parent: parent, done: make(chan struct{})}
	if o := owner(parent); o != nil {
		o.mu.Lock()
		e, ca := o.err, o.cause
		if e == nil {
			o.kids = append(o.kids, c)
		}
		o.mu.Unlock()
		if e != nil {
			c.cancel(e, ca)
		}
	}
	return c
}

func WithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	c := mk(parent)
	return c, func() { c.cancel(context.Canceled, nil) }
}

func WithCancelCause(parent context.Context) (context.Context, context.CancelCauseFunc) {
	c := mk(parent)
	return c, func(e error) { c.cancel(context.Canceled, e) }
}

func WithDeadline(parent context.Context, d time.Time) (context.Context, context.CancelFunc) {
	c := mk(parent)
	c.deadline, c.hasDL = d, true
	if p, ok := parent.Deadline(); ok && p.Before(d) {
		c.deadline = p
	}
	t := vrt.StartTimer(c.deadline.Sub(vrt.Now()), 0, nil, func() { c.cancel(context.DeadlineExceeded, nil) })
	c.mu.Lock()
	c.timer = t
	c.mu.Unlock()
	return c, func() { c.cancel(context.Canceled, nil) }
}

func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return WithDeadline(parent, vrt.Now().Add(d))
}

type valCtx struct {
	context.Context
	k, v any
}

func (c *valCtx) Value(k any) any {
	if k == c.k {
		return c.v
	}
	return c.Context.Value(k)
}

func WithValue(parent context.Context, k, v any) context.Context { return &valCtx{parent, k, v} }

func WithoutCancel(parent context.Context) context.Context {
	return &valCtx{Context: context.Background()}
}

func Cause(c context.Context) error {
	if o := owner(c); o != nil {
		o.mu.Lock()
		defer o.mu.Unlock()
		return o.cause
	}
	return c.Err()
}

func AfterFunc(c context.Context, f func()) func() bool {
	stop := make(chan struct{})
	var once vsync.Once
	vrt.Go(func() {
		a, b := vrt.RecvCase(c.Done()), vrt.RecvCase(stop)
		if vrt.Select(false, a, b) == 0 {
			f()
		}
	})
	return func() bool {
		once.Do(func() { vrt.Close(stop) })
		return c.Err() == nil
	}
}

var _ = errors.New
