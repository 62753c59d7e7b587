package vs

import (
	"context"
	"time"
)

// OnceFunc replaces sync.OnceFunc.
func OnceFunc(f func()) func() {
	g := OnceValue(func() struct{} { f(); return struct{}{} })
	return func() { g() }
}

// OnceValue replaces sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	g := OnceValues(func() (T, struct{}) { return f(), struct{}{} })
	return func() T { v, _ := g(); return v }
}

// OnceValues replaces sync.OnceValues.
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var once Once
	var ok bool
	var p interface{}
	var t T
	var u U
	return func() (T, U) {
		once.Do(func() {
			defer func() {
				if !ok {
					p = recover()
					panic(p)
				}
			}()
			t, u = f()
			ok = true
		})
		if !ok {
			panic(p)
		}
		return t, u
	}
}

// timed is a context with a deadline of the virtual clock.
type timed struct {
	context.Context
	at   time.Time
	late *bool
}

func (c timed) Deadline() (time.Time, bool) { return c.at, true }

func (c timed) Err() error {
	if err := c.Context.Err(); err == nil || !*c.late {
		return err
	}
	return context.DeadlineExceeded
}

// WithDeadlineCause replaces context.WithDeadlineCause.
func WithDeadlineCause(parent context.Context, at time.Time, cause error) (context.Context, context.CancelFunc) {
	if cur() == nil {
		return context.WithDeadlineCause(parent, at, cause)
	}
	return timeout(parent, at, at.Sub(Now()), cause)
}

// WithDeadline replaces context.WithDeadline.
func WithDeadline(parent context.Context, at time.Time) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(parent, at, nil)
}

// WithTimeout replaces context.WithTimeout.
func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return WithTimeoutCause(parent, d, nil)
}

// WithTimeoutCause replaces context.WithTimeoutCause.
func WithTimeoutCause(parent context.Context, d time.Duration, cause error) (context.Context, context.CancelFunc) {
	if cur() == nil {
		return context.WithTimeoutCause(parent, d, cause)
	}
	return timeout(parent, Now().Add(d), d, cause)
}

func timeout(parent context.Context, at time.Time, d time.Duration, cause error) (context.Context, context.CancelFunc) {
	if was, ok := parent.Deadline(); ok && was.Before(at) {
		return context.WithCancel(parent)
	}
	if cause == nil {
		cause = context.DeadlineExceeded
	}
	ctx, cancel := context.WithCancelCause(parent)
	late := new(bool)
	over := func() {
		if ctx.Err() == nil {
			*late = true
			cancel(cause)
		}
	}
	if d <= 0 {
		over()
		return timed{ctx, at, late}, func() {}
	}
	t := AfterFunc(d, over)
	return timed{ctx, at, late}, func() {
		t.Stop()
		cancel(context.Canceled)
	}
}

// At makes a call of f, an atomic operation, a point at which another
// goroutine may go first.
func At[T any](f T) T {
	if cur() != nil {
		Point("atomic")
	}
	return f
}
