// Package context is the simulated counterpart of the standard package.
package context

import (
	"errors"

	"verifsim/shim/sync"
	"verifsim/shim/time"
	"verifsim/vsim"
)

type Context interface {
	Deadline() (deadline time.Time, ok bool)
	Done() <-chan struct{}
	Err() error
	Value(key any) any
}

type CancelFunc func()
type CancelCauseFunc func(cause error)

var Canceled = errors.New("context canceled")
var DeadlineExceeded error = deadlineErr{}

type deadlineErr struct{}

func (deadlineErr) Error() string   { return "context deadline exceeded" }
func (deadlineErr) Timeout() bool   { return true }
func (deadlineErr) Temporary() bool { return true }

type empty struct{}

func (empty) Deadline() (t time.Time, ok bool) { return }
func (empty) Done() <-chan struct{}            { return nil }
func (empty) Err() error                       { return nil }
func (empty) Value(key any) any                { return nil }

func Background() Context { return empty{} }
func TODO() Context       { return empty{} }

type ctx struct {
	Context
	mu       sync.Mutex
	done     chan struct{}
	err      error
	cause    error
	deadline time.Time
	has      bool
	kids     []*ctx
	timer    *time.Timer
}

func (c *ctx) Deadline() (time.Time, bool) {
	if c.has {
		return c.deadline, true
	}
	return c.Context.Deadline()
}
func (c *ctx) Done() <-chan struct{} { return c.done }
func (c *ctx) Err() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.err
}

type selfKey struct{}

func (c *ctx) Value(key any) any {
	if _, ok := key.(selfKey); ok {
		return c
	}
	return c.Context.Value(key)
}

func (c *ctx) cancel(err, cause error) {
	c.mu.Lock()
	if c.err != nil {
		c.mu.Unlock()
		return
	}
	c.err = err
	if cause == nil {
		cause = err
	}
	c.cause = cause
	vsim.Close(c.done)
	kids := c.kids
	c.kids = nil
	c.mu.Unlock()
	if c.timer != nil {
		c.timer.Stop()
	}
	for _, k := range kids {
		k.cancel(err, cause)
	}
}

func derive(parent Context) *ctx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &ctx{Context: parent, done: make(chan struct{})}
	if p, ok := parent.Value(selfKey{}).(*ctx); ok {
		p.mu.Lock()
		err, cause := p.err, p.cause
		if err == nil {
			p.kids = append(p.kids, c)
		}
		p.mu.Unlock()
		if err != nil {
			c.cancel(err, cause)
		}
	}
	return c
}

func WithCancel(parent Context) (Context, CancelFunc) {
	c := derive(parent)
	return c, func() { c.cancel(Canceled, nil) }
}
func WithCancelCause(parent Context) (Context, CancelCauseFunc) {
	c := derive(parent)
	return c, func(e error) { c.cancel(Canceled, e) }
}
func WithDeadline(parent Context, t time.Time) (Context, CancelFunc) {
	c := derive(parent)
	c.deadline, c.has = t, true
	c.timer = time.AfterFunc(time.Until(t), func() { c.cancel(DeadlineExceeded, nil) })
	return c, func() { c.cancel(Canceled, nil) }
}
func WithTimeout(parent Context, d time.Duration) (Context, CancelFunc) {
	return WithDeadline(parent, time.Now().Add(d))
}
func Cause(c Context) error {
	if p, ok := c.Value(selfKey{}).(*ctx); ok {
		p.mu.Lock()
		defer p.mu.Unlock()
		return p.cause
	}
	return c.Err()
}

type valueCtx struct {
	Context
	key, val any
}

func (c *valueCtx) Value(key any) any {
	if c.key == key {
		return c.val
	}
	return c.Context.Value(key)
}
func WithValue(parent Context, key, val any) Context { return &valueCtx{parent, key, val} }

type noCancel struct{ c Context }

func (noCancel) Deadline() (t time.Time, ok bool) { return }
func (noCancel) Done() <-chan struct{}            { return nil }
func (noCancel) Err() error                       { return nil }
func (n noCancel) Value(key any) any {
	if _, ok := key.(selfKey); ok {
		return nil
	}
	return n.c.Value(key)
}
func WithoutCancel(parent Context) Context { return noCancel{parent} }
