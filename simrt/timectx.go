package zzsimrt

import (
	"context"
	"errors"
	"time"
)

// ---- virtual time ------------------------------------------------------------

func Now() time.Time {
	if s := S; s != nil {
		return time.Unix(0, simEpoch+s.now).UTC()
	}
	return time.Unix(0, simEpoch).UTC()
}

// VirtualNS is the virtual time since the start of the run.
func VirtualNS() int64 {
	if S == nil {
		return 0
	}
	return S.now
}

func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

func Sleep(d time.Duration) {
	s := S
	if s == nil || d <= 0 {
		return
	}
	g := s.cur
	s.addTimer(d, func() { s.wake(g) })
	s.block("sleep")
}

type Timer struct {
	C <-chan time.Time
	c chan time.Time
	f func()
	t *simTimer
}

func fireChan(s *Sim, c chan time.Time) {
	cs := stateR[time.Time](s, c)
	if len(cs.buf) > 0 {
		return
	}
	now := Now()
	if live(&cs.recvq) {
		w := cs.recvq[0]
		cs.recvq = cs.recvq[1:]
		w.sel.fired = w.idx
		w.set(&now, true)
		s.wake(w.g)
		return
	}
	cs.buf = append(cs.buf, chanItem{box: &now})
}

func NewTimer(d time.Duration) *Timer {
	t := &Timer{c: make(chan time.Time, 1)}
	t.C = t.c
	if s := S; s != nil {
		t.t = s.addTimer(d, func() { fireChan(s, t.c) })
	}
	return t
}

func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{f: f}
	if s := S; s != nil {
		t.t = s.addTimer(d, func() { spawnFromTimer(s, "afterfunc", f) })
	}
	return t
}

func spawnFromTimer(s *Sim, name string, f func()) {
	g := s.newG(name)
	go s.gmain(g, f, false)
}

func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

func (t *Timer) Stop() bool {
	if s := S; s != nil && t.t != nil {
		return s.delTimer(t.t)
	}
	return false
}

func (t *Timer) Reset(d time.Duration) bool {
	s := S
	if s == nil {
		return false
	}
	was := t.t != nil && s.delTimer(t.t)
	if t.f != nil {
		t.t = s.addTimer(d, func() { spawnFromTimer(s, "afterfunc", t.f) })
	} else {
		t.t = s.addTimer(d, func() { fireChan(s, t.c) })
	}
	return was
}

type Ticker struct {
	C <-chan time.Time
	c chan time.Time
	d time.Duration
	t *simTimer
}

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	t := &Ticker{c: make(chan time.Time, 1), d: d}
	t.C = t.c
	t.arm()
	return t
}

func (t *Ticker) arm() {
	if s := S; s != nil {
		t.t = s.addTimer(t.d, func() { fireChan(s, t.c); t.arm() })
	}
}

func (t *Ticker) Stop() {
	if s := S; s != nil && t.t != nil {
		s.delTimer(t.t)
	}
}

func (t *Ticker) Reset(d time.Duration) { t.Stop(); t.d = d; t.arm() }

func Tick(d time.Duration) <-chan time.Time { return NewTicker(d).C }

// ---- context -----------------------------------------------------------------

type ctxKey struct{}

type simCtx struct {
	parent   context.Context
	done     chan struct{}
	err      error
	cause    error
	deadline time.Time
	hasDl    bool
	timer    *simTimer
	children []*simCtx
	after    []func()
}

func (c *simCtx) Deadline() (time.Time, bool) {
	if c.hasDl {
		return c.deadline, true
	}
	return c.parent.Deadline()
}
func (c *simCtx) Done() <-chan struct{} { return c.done }
func (c *simCtx) Err() error            { Point(0); return c.err }
func (c *simCtx) Value(k any) any {
	if k == (ctxKey{}) {
		return c
	}
	return c.parent.Value(k)
}

func (c *simCtx) cancel(err, cause error) {
	if c.err != nil {
		return
	}
	if cause == nil {
		cause = err
	}
	c.err, c.cause = err, cause
	s := S
	if c.timer != nil && s != nil {
		s.delTimer(c.timer)
	}
	close(c.done)
	if s != nil {
		s.closeState(stateR[struct{}](s, c.done))
	}
	for _, ch := range c.children {
		ch.cancel(err, cause)
	}
	c.children = nil
	for _, f := range c.after {
		if s != nil {
			spawnFromTimer(s, "ctx.AfterFunc", f)
		} else {
			f()
		}
	}
}

func newCtx(parent context.Context) *simCtx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &simCtx{parent: parent, done: make(chan struct{})}
	if p, ok := parent.Value(ctxKey{}).(*simCtx); ok && p != nil {
		if p.err != nil {
			c.cancel(p.err, p.cause)
		} else {
			p.children = append(p.children, c)
		}
	} else if err := parent.Err(); err != nil {
		c.cancel(err, err)
	}
	return c
}

func WithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	c := newCtx(parent)
	return c, func() { c.cancel(context.Canceled, nil) }
}

func WithCancelCause(parent context.Context) (context.Context, context.CancelCauseFunc) {
	c := newCtx(parent)
	return c, func(e error) { c.cancel(context.Canceled, e) }
}

func WithDeadline(parent context.Context, d time.Time) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(parent, d, nil)
}

func WithDeadlineCause(parent context.Context, d time.Time, cause error) (context.Context, context.CancelFunc) {
	c := newCtx(parent)
	if p, ok := parent.Deadline(); ok && p.Before(d) {
		d = p
	}
	c.deadline, c.hasDl = d, true
	if c.err == nil {
		if s := S; s != nil {
			c.timer = s.addTimer(d.Sub(Now()), func() { c.cancel(context.DeadlineExceeded, cause) })
		}
	}
	return c, func() { c.cancel(context.Canceled, nil) }
}

func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(parent, Now().Add(d), nil)
}

func WithTimeoutCause(parent context.Context, d time.Duration, cause error) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(parent, Now().Add(d), cause)
}

func WithoutCancel(parent context.Context) context.Context {
	return uncancelled{context.WithoutCancel(parent)}
}

// uncancelled hides the simulated contexts above it.
type uncancelled struct{ context.Context }

func (c uncancelled) Value(k any) any {
	if k == (ctxKey{}) {
		return nil
	}
	return c.Context.Value(k)
}

func Cause(c context.Context) error {
	if p, ok := c.Value(ctxKey{}).(*simCtx); ok && p != nil {
		return p.cause
	}
	return context.Cause(c)
}

func CtxAfterFunc(c context.Context, f func()) func() bool {
	p, ok := c.Value(ctxKey{}).(*simCtx)
	if !ok || p == nil {
		return context.AfterFunc(c, f)
	}
	if p.err != nil {
		if S != nil {
			spawnFromTimer(S, "ctx.AfterFunc", f)
		}
		return func() bool { return false }
	}
	stopped := false
	p.after = append(p.after, func() {
		if !stopped {
			f()
		}
	})
	return func() bool { w := !stopped && p.err == nil; stopped = true; return w }
}

// WaitDone blocks the simulated goroutine until the context is done or d has
// passed; it reports whether the context ended first. For simulated services.
func WaitDone(ctx context.Context, d time.Duration) error {
	if S == nil {
		return ctx.Err()
	}
	t := NewTimer(d)
	defer t.Stop()
	if ctx.Done() == nil {
		Recv(0, t.C)
		return nil
	}
	cd := CaseRecv(ctx.Done())
	ct := CaseRecv(t.C)
	if Select(0, false, cd, ct) == 0 {
		if err := ctx.Err(); err != nil {
			return err
		}
		return errors.New("context done")
	}
	return nil
}
