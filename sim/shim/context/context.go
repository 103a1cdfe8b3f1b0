// Package context is the simulated context.
package context

import (
	p "context"
	"time"

	"verif/sim/simrt"
)

type ctxKey struct{}

type cctx struct {
	p.Context
	done     chan struct{}
	err      error
	cause    error
	children []*cctx
	after    []*afterT
	dl       time.Time
	hasDl    bool
	tm       *simrt.Timer
	parent   *cctx
}

type afterT struct{ f func() }

func (c *cctx) Done() <-chan struct{} { return c.done }
func (c *cctx) Err() error            { return c.err }
func (c *cctx) Value(k any) any {
	if _, ok := k.(ctxKey); ok {
		return c
	}
	return c.Context.Value(k)
}
func (c *cctx) Deadline() (time.Time, bool) {
	if c.hasDl {
		return c.dl, true
	}
	return c.Context.Deadline()
}

func (c *cctx) cancel(err, cause error) {
	if c.err != nil || simrt.Killed() {
		return
	}
	if cause == nil {
		cause = err
	}
	c.err, c.cause = err, cause
	if c.tm != nil {
		c.tm.Cancel()
	}
	if simrt.Cur() == nil {
		close(c.done)
	} else {
		simrt.Close(c.done)
	}
	for _, ch := range c.children {
		ch.cancel(err, cause)
	}
	for _, a := range c.after {
		simrt.Go(a.f)
	}
	c.after = nil
	if c.parent != nil {
		for i, x := range c.parent.children {
			if x == c {
				c.parent.children = append(c.parent.children[:i:i], c.parent.children[i+1:]...)
				break
			}
		}
	}
}

func simOf(ctx p.Context) *cctx { c, _ := ctx.Value(ctxKey{}).(*cctx); return c }

func newCtx(parent p.Context) *cctx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &cctx{Context: parent, done: make(chan struct{})}
	if pc := simOf(parent); pc != nil {
		if pc.err != nil {
			c.cancel(pc.err, pc.cause)
		} else {
			pc.children = append(pc.children, c)
			c.parent = pc
		}
	} else if parent.Done() != nil && simrt.Cur() != nil {
		simrt.Go(func() {
			a, b := simrt.RecvCase(parent.Done()), simrt.RecvCase((<-chan struct{})(c.done))
			if simrt.Select(false, a, b) == 0 {
				c.cancel(parent.Err(), p.Cause(parent))
			}
		})
	}
	return c
}

func WithCancel(parent p.Context) (p.Context, p.CancelFunc) {
	c := newCtx(parent)
	return c, func() { c.cancel(p.Canceled, nil) }
}

func WithCancelCause(parent p.Context) (p.Context, p.CancelCauseFunc) {
	c := newCtx(parent)
	return c, func(cause error) { c.cancel(p.Canceled, cause) }
}

func WithDeadlineCause(parent p.Context, d time.Time, cause error) (p.Context, p.CancelFunc) {
	c := newCtx(parent)
	if cur, ok := parent.Deadline(); ok && cur.Before(d) {
		return c, func() { c.cancel(p.Canceled, nil) }
	}
	c.dl, c.hasDl = d, true
	if c.err == nil && simrt.Cur() != nil {
		c.tm = simrt.AddTimer(d.Sub(simrt.Now()), func() { c.cancel(p.DeadlineExceeded, cause) })
	}
	return c, func() { c.cancel(p.Canceled, nil) }
}

func WithDeadline(parent p.Context, d time.Time) (p.Context, p.CancelFunc) {
	return WithDeadlineCause(parent, d, nil)
}

func WithTimeout(parent p.Context, d time.Duration) (p.Context, p.CancelFunc) {
	return WithDeadlineCause(parent, simrt.Now().Add(d), nil)
}

func WithTimeoutCause(parent p.Context, d time.Duration, cause error) (p.Context, p.CancelFunc) {
	return WithDeadlineCause(parent, simrt.Now().Add(d), cause)
}

type noCancel struct{ p.Context }

func (noCancel) Deadline() (time.Time, bool) { return time.Time{}, false }
func (noCancel) Done() <-chan struct{}       { return nil }
func (noCancel) Err() error                  { return nil }
func (n noCancel) Value(k any) any {
	if _, ok := k.(ctxKey); ok {
		return nil
	}
	return n.Context.Value(k)
}

func WithoutCancel(parent p.Context) p.Context { return noCancel{parent} }

func Cause(c p.Context) error {
	if x := simOf(c); x != nil {
		return x.cause
	}
	return p.Cause(c)
}

func AfterFunc(ctx p.Context, f func()) (stop func() bool) {
	a := &afterT{f}
	c := simOf(ctx)
	if c == nil {
		return func() bool { return true }
	}
	if c.err != nil {
		simrt.Go(f)
		return func() bool { return false }
	}
	c.after = append(c.after, a)
	return func() bool {
		for i, x := range c.after {
			if x == a {
				c.after = append(c.after[:i:i], c.after[i+1:]...)
				return true
			}
		}
		return false
	}
}
