// Package vcontext stands in for context: cancellations and deadlines are seen
// by the controller.
package vcontext

import (
	"context"
	"time"

	"gotor/zv/vs"
	"gotor/zv/vsync"
	"gotor/zv/vtime"
)

type (
	Context         = context.Context
	CancelFunc      = context.CancelFunc
	CancelCauseFunc = context.CancelCauseFunc
)

var ownKey int

type ctx struct {
	parent Context
	mu     vsync.Mutex
	done   chan struct{}
	err    error
	cause  error
	kids   []func(err, cause error)
	at     time.Time
	has    bool
	timer  *vtime.Timer
}

func (c *ctx) Deadline() (time.Time, bool) {
	if c.has {
		return c.at, true
	}
	return c.parent.Deadline()
}
func (c *ctx) Done() <-chan struct{} { return c.done }
func (c *ctx) Err() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.err
}
func (c *ctx) Value(k any) any {
	if k == &ownKey {
		return c
	}
	return c.parent.Value(k)
}

func (c *ctx) cancel(err, cause error) {
	c.mu.Lock()
	if c.err != nil {
		c.mu.Unlock()
		return
	}
	if cause == nil {
		cause = err
	}
	c.err, c.cause = err, cause
	kids := c.kids
	c.kids = nil
	tm := c.timer
	vs.Close(c.done)
	c.mu.Unlock()
	for _, k := range kids {
		k(err, cause)
	}
	if tm != nil {
		tm.Stop()
	}
}

// on calls f once c is cancelled.
func (c *ctx) on(f func(err, cause error)) {
	c.mu.Lock()
	if c.err == nil {
		c.kids = append(c.kids, f)
		c.mu.Unlock()
		return
	}
	err, cause := c.err, c.cause
	c.mu.Unlock()
	f(err, cause)
}

func own(p Context) *ctx {
	o, _ := p.Value(&ownKey).(*ctx)
	return o
}

func mk(parent Context) *ctx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &ctx{parent: parent, done: make(chan struct{})}
	if o := own(parent); o != nil && o.done == parentDone(parent) {
		o.on(c.cancel)
	} else if err := parent.Err(); err != nil {
		c.cancel(err, context.Cause(parent))
	}
	return c
}

func parentDone(p Context) chan struct{} {
	if o := own(p); o != nil && (<-chan struct{})(o.done) == p.Done() {
		return o.done
	}
	return nil
}

func WithCancel(parent Context) (Context, CancelFunc) {
	if !vs.Active() {
		return context.WithCancel(parent)
	}
	c := mk(parent)
	return c, func() { c.cancel(context.Canceled, nil) }
}

func WithCancelCause(parent Context) (Context, CancelCauseFunc) {
	if !vs.Active() {
		return context.WithCancelCause(parent)
	}
	c := mk(parent)
	return c, func(cause error) { c.cancel(context.Canceled, cause) }
}

func WithDeadline(parent Context, at time.Time) (Context, CancelFunc) {
	return WithDeadlineCause(parent, at, nil)
}

func WithDeadlineCause(parent Context, at time.Time, cause error) (Context, CancelFunc) {
	if !vs.Active() {
		return context.WithDeadlineCause(parent, at, cause)
	}
	c := mk(parent)
	c.at, c.has = at, true
	if d, ok := parent.Deadline(); ok && d.Before(at) {
		c.at = d
		return c, func() { c.cancel(context.Canceled, nil) }
	}
	d := vtime.Until(at)
	if d <= 0 {
		c.cancel(context.DeadlineExceeded, cause)
	} else {
		tm := vtime.AfterFunc(d, func() { c.cancel(context.DeadlineExceeded, cause) })
		c.mu.Lock()
		c.timer = tm
		c.mu.Unlock()
	}
	return c, func() { c.cancel(context.Canceled, nil) }
}

func WithTimeout(parent Context, d time.Duration) (Context, CancelFunc) {
	return WithDeadline(parent, vtime.Now().Add(d))
}

func WithTimeoutCause(parent Context, d time.Duration, cause error) (Context, CancelFunc) {
	return WithDeadlineCause(parent, vtime.Now().Add(d), cause)
}

func Cause(c Context) error {
	if o := own(c); o != nil {
		o.mu.Lock()
		defer o.mu.Unlock()
		return o.cause
	}
	return context.Cause(c)
}

func AfterFunc(c Context, f func()) func() bool {
	o := own(c)
	if !vs.Active() || o == nil {
		return context.AfterFunc(c, f)
	}
	var mu vsync.Mutex
	state := 0
	o.on(func(error, error) {
		mu.Lock()
		run := state == 0
		if run {
			state = 1
		}
		mu.Unlock()
		if run {
			vs.GoNamed("afterfunc", f)
		}
	})
	return func() bool {
		mu.Lock()
		defer mu.Unlock()
		if state == 0 {
			state = 2
			return true
		}
		return false
	}
}
