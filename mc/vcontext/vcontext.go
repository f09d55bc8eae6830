// Package vcontext is package context on the virtual runtime.
package vcontext

import (
	"context"
	"fmt"
	"time"

	"verif.local/mc/vs"
	"verif.local/mc/vtime"
)

type (
	// Context is context.Context.
	Context = context.Context
	// CancelFunc is context.CancelFunc.
	CancelFunc = context.CancelFunc
	// CancelCauseFunc is context.CancelCauseFunc.
	CancelCauseFunc = context.CancelCauseFunc
)

// Background is context.Background.
func Background() Context { return context.Background() }

// TODO is context.TODO.
func TODO() Context { return context.TODO() }

type ctx struct {
	parent   Context
	done     chan struct{}
	err      error
	cause    error
	children []*ctx
	after    []func()
	deadline time.Time
	hasDl    bool
	timer    *vs.Timer
	o        vs.Obj
	kind     string
	busy     bool // descendants are being cancelled
}

type ctxKey int

var selfKey ctxKey

func (c *ctx) Deadline() (time.Time, bool) {
	if c.hasDl {
		return c.deadline, true
	}
	return c.parent.Deadline()
}
func (c *ctx) Done() <-chan struct{} { return c.done }
func (c *ctx) Err() error {
	if vs.X == nil || vs.Aborting() {
		return c.err
	}
	var e error
	vs.Do(&stepOp{"context err", func() { c.o.Acquire(401); e = c.err }})
	return e
}
func (c *ctx) Value(k interface{}) interface{} {
	if k == &selfKey {
		return c
	}
	return c.parent.Value(k)
}
func (c *ctx) String() string { return "context." + c.kind }

type stepOp struct {
	what string
	f    func()
}

func (o *stepOp) Ready(*vs.Thread) bool { return true }
func (o *stepOp) String() string        { return o.what }
func (o *stepOp) Exec(*vs.Thread)       { o.f() }

// cancelNow cancels c and its descendants, without a scheduling point.
func (c *ctx) cancelNow(err, cause error) {
	if c.err != nil {
		c.o.Acquire(402)
		return
	}
	if cause == nil {
		cause = err
	}
	c.err, c.cause = err, cause
	c.o.Update(403)
	vs.CloseNow(c.done)
	if c.timer != nil {
		c.timer.Stop()
	}
	for _, ch := range c.children {
		ch.cancelNow(err, cause)
	}
	for _, f := range c.after {
		vs.Go("context.AfterFunc", f)
	}
	c.after = nil
}

// cancel cancels c and then, one after the other, its descendants: others can see c cancelled and a child not yet.
func (c *ctx) cancel(err, cause error) {
	if vs.X == nil || vs.Aborting() {
		return
	}
	var children []*ctx
	first := false
	vs.Do(&cancelOp{stepOp{"context cancel", func() {
		children, c.children = c.children, nil
		first = c.err == nil
		c.busy = first && len(children) > 0
		c.cancelNow(err, cause)
	}}, c})
	if !first || len(children) == 0 {
		return
	}
	if cause == nil {
		cause = err
	}
	for _, ch := range children {
		ch.cancel(err, cause)
	}
	vs.Do(&stepOp{"context cancelled", func() { c.busy = false; c.o.Update(406) }})
}

// cancelOp waits for a cancellation of the same context in progress.
type cancelOp struct {
	stepOp
	c *ctx
}

func (o *cancelOp) Ready(*vs.Thread) bool { return !o.c.busy }

func newCtx(parent Context, kind string) *ctx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &ctx{parent: parent, done: make(chan struct{}), kind: kind}
	if p, ok := parent.Value(&selfKey).(*ctx); ok {
		if p.err != nil {
			p.o.Acquire(404)
			c.err, c.cause = p.err, p.cause
			c.o.Update(405)
			vs.CloseNow(c.done)
		} else {
			p.children = append(p.children, c)
		}
	} else if parent.Done() != nil {
		// a foreign context: forward its cancellation
		d := parent.Done()
		vs.Go("context parent", func() {
			if vs.Select("context", false, vs.RecvCase(d), vs.RecvCase((<-chan struct{})(c.done))) == 0 {
				c.cancel(parent.Err(), nil)
			}
		})
	}
	return c
}

// WithCancel is context.WithCancel.
func WithCancel(parent Context) (Context, CancelFunc) {
	if vs.X == nil {
		return context.WithCancel(parent)
	}
	c := newCtx(parent, "WithCancel")
	return c, func() { c.cancel(context.Canceled, nil) }
}

// WithCancelCause is context.WithCancelCause.
func WithCancelCause(parent Context) (Context, CancelCauseFunc) {
	if vs.X == nil {
		return context.WithCancelCause(parent)
	}
	c := newCtx(parent, "WithCancelCause")
	return c, func(e error) { c.cancel(context.Canceled, e) }
}

// WithDeadline is context.WithDeadline.
func WithDeadline(parent Context, d time.Time) (Context, CancelFunc) {
	return WithDeadlineCause(parent, d, nil)
}

// WithDeadlineCause is context.WithDeadlineCause.
func WithDeadlineCause(parent Context, d time.Time, cause error) (Context, CancelFunc) {
	if vs.X == nil {
		return context.WithDeadlineCause(parent, d, cause)
	}
	c := newCtx(parent, "WithDeadline")
	c.deadline, c.hasDl = d, true
	if pd, ok := parent.Deadline(); ok && pd.Before(d) {
		c.deadline = pd
	}
	if c.err == nil {
		c.timer = vs.AddTimer(vtime.Nanos(d)-vtime.Nanos(vtime.Now()), "context deadline", true, func() {
			c.cancelNow(context.DeadlineExceeded, cause)
		})
	}
	return c, func() { c.cancel(context.Canceled, nil) }
}

// WithTimeout is context.WithTimeout.
func WithTimeout(parent Context, d time.Duration) (Context, CancelFunc) {
	return WithDeadline(parent, vtime.Now().Add(d))
}

// WithTimeoutCause is context.WithTimeoutCause.
func WithTimeoutCause(parent Context, d time.Duration, cause error) (Context, CancelFunc) {
	return WithDeadlineCause(parent, vtime.Now().Add(d), cause)
}

// WithValue is context.WithValue.
func WithValue(parent Context, k, v interface{}) Context { return context.WithValue(parent, k, v) }

// Cause is context.Cause.
func Cause(c Context) error {
	if p, ok := c.Value(&selfKey).(*ctx); ok {
		if p.Err() == nil {
			return nil
		}
		return p.cause
	}
	return context.Cause(c)
}

// WithoutCancel is context.WithoutCancel.
func WithoutCancel(parent Context) Context { return noCancel{parent} }

type noCancel struct{ Context }

func (noCancel) Deadline() (t time.Time, ok bool) { return }
func (noCancel) Done() <-chan struct{}            { return nil }
func (noCancel) Err() error                       { return nil }
func (n noCancel) Value(k interface{}) interface{} {
	if k == &selfKey {
		return nil
	}
	return n.Context.Value(k)
}
func (noCancel) String() string { return fmt.Sprint("context.WithoutCancel") }

// AfterFunc is context.AfterFunc.
func AfterFunc(c Context, f func()) (stop func() bool) {
	if vs.X == nil {
		return context.AfterFunc(c, f)
	}
	p, ok := c.Value(&selfKey).(*ctx)
	if !ok {
		return func() bool { return true }
	}
	ran := false
	if p.err != nil {
		vs.Go("context.AfterFunc", f)
		return func() bool { return false }
	}
	stopped := false
	p.after = append(p.after, func() {
		if !stopped {
			ran = true
			f()
		}
	})
	return func() bool {
		if ran || stopped || p.err != nil {
			return false
		}
		stopped = true
		return true
	}
}
