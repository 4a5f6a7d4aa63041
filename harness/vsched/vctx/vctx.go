// Package vctx stands in for package context under the scheduler: the same
// contexts, whose channels and timers are the scheduler's.
package vctx

import (
	real "context"

	"verif/vsched"
	"verif/vsched/vtime"
)

// What is the same.
type (
	Context         = real.Context
	CancelFunc      = real.CancelFunc
	CancelCauseFunc = real.CancelCauseFunc
)

// What is the same.
var (
	Background       = real.Background
	TODO             = real.TODO
	WithValue        = real.WithValue
	Canceled         = real.Canceled
	DeadlineExceeded = real.DeadlineExceeded
)

type key struct{}

type ctx struct {
	real.Context // parent
	done         chan struct{}
	obj          *vsched.Obj
	err, cause   error
	at           vtime.Time
	kids         []func(err, cause error)
	timer        *vtime.Timer
}

func (c *ctx) Done() <-chan struct{} { return c.done }

func (c *ctx) Err() error {
	if c.active() {
		vsched.Do("ctx err", vsched.Get(&c.obj), true, nil, 0)
	}
	return c.err
}

func (c *ctx) active() bool { return vsched.Active() != nil && !vsched.Dead() }

func (c *ctx) Deadline() (vtime.Time, bool) {
	if !c.at.IsZero() {
		return c.at, true
	}
	return c.Context.Deadline()
}

func (c *ctx) Value(k interface{}) interface{} {
	if k == (key{}) {
		return c
	}
	return c.Context.Value(k)
}

func (c *ctx) cancel(err, cause error) {
	if c.active() {
		vsched.Do("ctx cancel", vsched.Get(&c.obj), false, nil, 0)
	}
	if c.err != nil {
		return
	}
	if cause == nil {
		cause = err
	}
	c.err, c.cause = err, cause
	if c.active() {
		vsched.Close(c.done)
	} else {
		close(c.done)
	}
	for _, k := range c.kids {
		k(err, cause)
	}
	c.kids = nil
	if c.timer != nil {
		c.timer.Stop()
	}
}

func derive(parent real.Context) *ctx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &ctx{Context: parent, done: make(chan struct{})}
	if p, ok := parent.Value(key{}).(*ctx); ok {
		if p.err != nil {
			c.cancel(p.err, p.cause)
		} else {
			p.kids = append(p.kids, c.cancel)
		}
	}
	return c
}

// WithCancel is context.WithCancel.
func WithCancel(parent Context) (Context, CancelFunc) {
	c := derive(parent)
	return c, func() { c.cancel(Canceled, nil) }
}

// WithCancelCause is context.WithCancelCause.
func WithCancelCause(parent Context) (Context, CancelCauseFunc) {
	c := derive(parent)
	return c, func(cause error) { c.cancel(Canceled, cause) }
}

// WithDeadlineCause is context.WithDeadlineCause.
func WithDeadlineCause(parent Context, t vtime.Time, cause error) (Context, CancelFunc) {
	c := derive(parent)
	if p, ok := parent.Deadline(); !ok || t.Before(p) {
		c.at = t
		if d := vtime.Until(t); d <= 0 {
			c.cancel(DeadlineExceeded, cause)
		} else if c.err == nil {
			c.timer = vtime.AfterFunc(d, func() { c.cancel(DeadlineExceeded, cause) })
		}
	}
	return c, func() { c.cancel(Canceled, nil) }
}

// WithDeadline is context.WithDeadline.
func WithDeadline(parent Context, t vtime.Time) (Context, CancelFunc) {
	return WithDeadlineCause(parent, t, nil)
}

// WithTimeout is context.WithTimeout.
func WithTimeout(parent Context, d vtime.Duration) (Context, CancelFunc) {
	return WithDeadlineCause(parent, vtime.Now().Add(d), nil)
}

// WithTimeoutCause is context.WithTimeoutCause.
func WithTimeoutCause(parent Context, d vtime.Duration, cause error) (Context, CancelFunc) {
	return WithDeadlineCause(parent, vtime.Now().Add(d), cause)
}

// WithoutCancel is context.WithoutCancel.
func WithoutCancel(parent Context) Context { return detached{parent} }

type detached struct{ real.Context }

func (detached) Done() <-chan struct{}             { return nil }
func (detached) Err() error                        { return nil }
func (detached) Deadline() (t vtime.Time, ok bool) { return }
func (d detached) Value(k interface{}) interface{} {
	if k == (key{}) {
		return nil
	}
	return d.Context.Value(k)
}

// Cause is context.Cause.
func Cause(c Context) error {
	if p, ok := c.Value(key{}).(*ctx); ok && p.cause != nil {
		return p.cause
	}
	return c.Err()
}

// AfterFunc is context.AfterFunc.
func AfterFunc(parent Context, f func()) (stop func() bool) {
	ran, stopped := false, false
	go_ := func(error, error) {
		if !ran && !stopped {
			ran = true
			if vsched.Active() != nil {
				vsched.Go(f)
			} else {
				go f()
			}
		}
	}
	if p, ok := parent.Value(key{}).(*ctx); ok {
		if p.err != nil {
			go_(nil, nil)
		} else {
			p.kids = append(p.kids, go_)
		}
	}
	return func() bool {
		if ran || stopped {
			return false
		}
		stopped = true
		return true
	}
}
