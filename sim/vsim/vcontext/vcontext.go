// Package vcontext stands in for package context inside the simulator.
package vcontext

import (
	"context"
	"errors"
	"time"
	"unsafe"

	"spagosim/vsim"
)

type (
	Context         = context.Context
	CancelFunc      = context.CancelFunc
	CancelCauseFunc = context.CancelCauseFunc
)

var (
	Canceled         = context.Canceled
	DeadlineExceeded = context.DeadlineExceeded
)

func Background() Context { return context.Background() }
func TODO() Context       { return context.TODO() }
func WithValue(p Context, k, v any) Context {
	return context.WithValue(p, k, v)
}

type cctx struct {
	parent   Context
	done     chan struct{}
	err      error
	cause    error
	children []*cctx
	after    []*afterFn
	deadline time.Time
	hasDL    bool
	timer    *vsim.Timer
	hb       byte
}

type afterFn struct {
	f    func()
	dead bool
}

type key struct{}

func (c *cctx) Deadline() (time.Time, bool) {
	if c.hasDL {
		return c.deadline, true
	}
	return c.parent.Deadline()
}
func (c *cctx) Done() <-chan struct{} { return c.done }
func (c *cctx) Err() error {
	vsim.SyncOp("ctx.err", unsafe.Pointer(c))
	vsim.RaceAcquire(unsafe.Pointer(&c.hb))
	return c.err
}
func (c *cctx) Value(k any) any {
	if _, ok := k.(key); ok {
		return c
	}
	return c.parent.Value(k)
}

func (c *cctx) cancel(err, cause error, now bool) {
	if c.err != nil {
		return
	}
	vsim.RaceReleaseMerge(unsafe.Pointer(&c.hb))
	c.err = err
	c.cause = cause
	if cause == nil {
		c.cause = err
	}
	vsim.CloseNB(c.done)
	for _, a := range c.after {
		if !a.dead {
			a.dead = true
			if now {
				vsim.Spawn("af", a.f)
			} else {
				vsim.Go(a.f)
			}
		}
	}
	for _, ch := range c.children {
		ch.cancel(err, c.cause, now)
	}
	c.children = nil
	if c.timer != nil {
		if now {
			vsim.StopNB(c.timer)
		} else {
			vsim.Stop(c.timer)
		}
	}
}

func newC(parent Context) *cctx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &cctx{parent: parent, done: make(chan struct{})}
	if p, ok := parent.Value(key{}).(*cctx); ok && p != nil && parent.Done() == p.Done() {
		if p.err != nil {
			c.cancel(p.err, p.cause, false)
		} else {
			p.children = append(p.children, c)
		}
	} else if d := parent.Done(); d != nil {
		vsim.Go(func() {
			i := vsim.Select(false, vsim.RecvCase(d), vsim.RecvCase((<-chan struct{})(c.done)))
			if i == 0 {
				c.cancel(parent.Err(), nil, false)
			}
		})
	}
	return c
}

func (c *cctx) detach() {
	if p, ok := c.parent.Value(key{}).(*cctx); ok && p != nil {
		out := make([]*cctx, 0, len(p.children))
		for _, x := range p.children {
			if x != c {
				out = append(out, x)
			}
		}
		p.children = out
	}
}

func WithCancel(parent Context) (Context, CancelFunc) {
	c := newC(parent)
	return c, func() {
		vsim.SyncOp("ctx.cancel", unsafe.Pointer(c))
		c.cancel(Canceled, nil, false)
		c.detach()
		vsim.AfterOp()
	}
}

func WithCancelCause(parent Context) (Context, CancelCauseFunc) {
	c := newC(parent)
	return c, func(cause error) {
		vsim.SyncOp("ctx.cancel", unsafe.Pointer(c))
		c.cancel(Canceled, cause, false)
		c.detach()
		vsim.AfterOp()
	}
}

func WithTimeout(parent Context, d time.Duration) (Context, CancelFunc) {
	return WithTimeoutCause(parent, d, nil)
}

func WithTimeoutCause(parent Context, d time.Duration, cause error) (Context, CancelFunc) {
	c := newC(parent)
	c.hasDL = true
	c.deadline = time.Unix(1_700_000_000, vsim.Now()).Add(d)
	if c.err == nil && vsim.Active() {
		c.timer = &vsim.Timer{}
		vsim.Arm(c.timer, int64(d), func() { c.cancel(DeadlineExceeded, cause, true) })
	}
	return c, func() {
		vsim.SyncOp("ctx.cancel", unsafe.Pointer(c))
		c.cancel(Canceled, nil, false)
		c.detach()
		vsim.AfterOp()
	}
}

func WithDeadline(parent Context, t time.Time) (Context, CancelFunc) {
	return WithTimeout(parent, t.Sub(time.Unix(1_700_000_000, vsim.Now())))
}

func WithDeadlineCause(parent Context, t time.Time, cause error) (Context, CancelFunc) {
	return WithTimeoutCause(parent, t.Sub(time.Unix(1_700_000_000, vsim.Now())), cause)
}

type nocancel struct{ Context }

func (nocancel) Done() <-chan struct{}            { return nil }
func (nocancel) Err() error                       { return nil }
func (nocancel) Deadline() (t time.Time, ok bool) { return }
func (n nocancel) Value(k any) any {
	if _, ok := k.(key); ok {
		return nil
	}
	return n.Context.Value(k)
}

func WithoutCancel(parent Context) Context { return nocancel{parent} }

func Cause(c Context) error {
	if p, ok := c.Value(key{}).(*cctx); ok && p != nil {
		vsim.SyncOp("ctx.cause", unsafe.Pointer(p))
		vsim.RaceAcquire(unsafe.Pointer(&p.hb))
		return p.cause
	}
	return c.Err()
}

func AfterFunc(ctx Context, f func()) (stop func() bool) {
	a := &afterFn{f: f}
	p, _ := ctx.Value(key{}).(*cctx)
	if p == nil {
		if ctx.Done() != nil {
			panic(errors.New("vcontext: AfterFunc on a foreign context"))
		}
		return func() bool { return false }
	}
	if p.err != nil {
		a.dead = true
		vsim.Go(f)
	} else {
		p.after = append(p.after, a)
	}
	return func() bool {
		was := !a.dead
		a.dead = true
		return was
	}
}
