package vs

import (
	"context"
	"fmt"
	"time"
	"unsafe"
)

// Now replaces time.Now.
func Now() time.Time {
	if cur == nil {
		return Base
	}
	return Base.Add(cur.now)
}

func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// Sleep replaces time.Sleep. Very short sleeps only yield.
func Sleep(d time.Duration) {
	x := cur
	if x == nil {
		return
	}
	if d <= time.Microsecond {
		x.point(op{desc: "yield"})
		return
	}
	at := x.now + d
	x.point(op{desc: "sleep", enabled: func() bool { return x.now >= at }, wakeAt: func() (time.Duration, bool) { return at, true }})
}

// Gosched replaces runtime.Gosched.
func Gosched() {
	if cur != nil {
		cur.point(op{desc: "yield"})
	}
}

// sysSend sends from the scheduler without blocking.
func sysSend[T any](x *exec, ch chan T, v T) {
	c := x.chanState(chanPtr(&ch), ch)
	if w := c.first(c.recvq); w != nil {
		w.val, w.ok = carrier[T]{v}, true
		w.fire(nil)
		c.recvq = prune(c.recvq)
		return
	}
	select {
	case ch <- v:
	default:
	}
}

// Timer replaces time.Timer.
type Timer struct {
	C  <-chan time.Time
	ch chan time.Time
	f  func()
	tm *timer
	ep int
}

func (t *Timer) start(d time.Duration) {
	x := cur
	if x == nil {
		return
	}
	t.ep = x.epoch
	t.tm = x.addTimer(d, func() {
		if t.f != nil {
			x.spawn("AfterFunc", true, t.f)
			return
		}
		sysSend(x, t.ch, Base.Add(x.now))
	})
}

func NewTimer(d time.Duration) *Timer {
	ch := make(chan time.Time, 1)
	t := &Timer{C: ch, ch: ch}
	t.start(d)
	return t
}

func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.start(d)
	return t
}

func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

func (t *Timer) Stop() bool {
	if t.tm == nil || cur == nil || t.ep != cur.epoch {
		return false
	}
	was := t.tm.active
	t.tm.active = false
	if !was && t.ch != nil {
		// As of Go 1.23 no stale value is received after Stop
		select {
		case <-t.ch:
			was = true
		default:
		}
	}
	return was
}

func (t *Timer) Reset(d time.Duration) bool {
	was := t.Stop()
	t.start(d)
	return was
}

// Ticker replaces time.Ticker.
type Ticker struct {
	C  <-chan time.Time
	ch chan time.Time
	tm *timer
	d  time.Duration
}

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	ch := make(chan time.Time, 1)
	t := &Ticker{C: ch, ch: ch, d: d}
	t.start()
	return t
}

func (t *Ticker) start() {
	x := cur
	if x == nil {
		return
	}
	t.tm = x.addTimer(t.d, func() {
		sysSend(x, t.ch, Base.Add(x.now))
		t.start()
	})
}

func (t *Ticker) Stop() {
	if t.tm != nil {
		t.tm.active = false
	}
}
func (t *Ticker) Reset(d time.Duration) { t.Stop(); t.d = d; t.start() }

func Tick(d time.Duration) <-chan time.Time { return NewTicker(d).C }

// ---- contexts -----------------------------------------------------------------------------------------------------

type vctx struct {
	parent   context.Context
	done     chan struct{}
	err      error
	cause    error
	deadline time.Time
	hasDl    bool
	children []*vctx
	tm       *timer
	after    []func()
}

func (c *vctx) Deadline() (time.Time, bool) {
	if c.hasDl {
		return c.deadline, true
	}
	return c.parent.Deadline()
}
func (c *vctx) Done() <-chan struct{} { return c.done }
func (c *vctx) Err() error {
	if x := cur; x != nil && !x.abort {
		x.point(op{objs: []objRef{{x.chanState(chanPtr(&c.done), c.done).id, false}}, desc: "Context.Err"})
		raceAcquire(unsafe.Pointer(c))
	}
	return c.err
}
func (c *vctx) Value(key any) any {
	if _, ok := key.(vctxKey); ok {
		return c
	}
	return c.parent.Value(key)
}
func (c *vctx) String() string { return fmt.Sprintf("%v.vs", c.parent) }

type vctxKey struct{}

func newCtx(parent context.Context) *vctx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &vctx{parent: parent, done: make(chan struct{})}
	if p, ok := parent.Value(vctxKey{}).(*vctx); ok {
		if p.err != nil {
			c.cancel(p.err, p.cause, nil)
		} else {
			p.children = append(p.children, c)
		}
	} else if d := parent.Done(); d != nil && cur != nil {
		cur.spawn("ctx", true, func() {
			k0, k1 := RecvCase(d), RecvCase((<-chan struct{})(c.done))
			if Select(false, k0, k1) == 0 {
				c.cancel(parent.Err(), nil, cur.running)
			}
		})
	}
	return c
}

// cancel marks the context and its children as done. The caller has made the scheduling point.
func (c *vctx) cancel(err, cause error, by *thread) {
	if c.err != nil {
		return
	}
	if cause == nil {
		cause = err
	}
	c.err, c.cause = err, cause
	raceReleaseMerge(unsafe.Pointer(c))
	if c.tm != nil {
		c.tm.active = false
	}
	if x := cur; x != nil {
		closeNow(x, x.chanState(chanPtr(&c.done), c.done), (chan<- struct{})(c.done), by)
		for _, f := range c.after {
			x.spawn("ctxAfterFunc", true, f)
		}
	} else {
		close(c.done)
	}
	for _, k := range c.children {
		k.cancel(err, cause, by)
	}
}

func (c *vctx) objs(x *exec) []objRef {
	l := []objRef{{x.chanState(chanPtr(&c.done), c.done).id, true}}
	for _, k := range c.children {
		l = append(l, k.objs(x)...)
	}
	return l
}

func (c *vctx) cancelFunc(cause error) {
	x := cur
	if x != nil {
		if x.abort {
			return
		}
		if c.err != nil {
			return
		}
		x.point(op{objs: c.objs(x), desc: "cancel"})
		c.cancel(context.Canceled, cause, x.running)
		return
	}
	c.cancel(context.Canceled, cause, nil)
}

func WithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	c := newCtx(parent)
	return c, func() { c.cancelFunc(nil) }
}

func WithCancelCause(parent context.Context) (context.Context, context.CancelCauseFunc) {
	c := newCtx(parent)
	return c, func(err error) { c.cancelFunc(err) }
}

func WithDeadline(parent context.Context, d time.Time) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(parent, d, nil)
}

func WithDeadlineCause(parent context.Context, d time.Time, cause error) (context.Context, context.CancelFunc) {
	c := newCtx(parent)
	if pd, ok := parent.Deadline(); ok && pd.Before(d) {
		return c, func() { c.cancelFunc(nil) }
	}
	c.deadline, c.hasDl = d, true
	if x := cur; x != nil {
		rest := d.Sub(Now())
		if rest <= 0 {
			c.cancel(context.DeadlineExceeded, cause, nil)
		} else {
			c.tm = x.addTimer(rest, func() { c.cancel(context.DeadlineExceeded, cause, nil) })
		}
	}
	return c, func() { c.cancelFunc(nil) }
}

func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(parent, Now().Add(d), nil)
}

func WithTimeoutCause(parent context.Context, d time.Duration, cause error) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(parent, Now().Add(d), cause)
}

// Cause replaces context.Cause.
func Cause(ctx context.Context) error {
	if c, ok := ctx.Value(vctxKey{}).(*vctx); ok {
		return c.cause
	}
	return context.Cause(ctx)
}

// CtxAfterFunc replaces context.AfterFunc.
func CtxAfterFunc(ctx context.Context, f func()) func() bool {
	c, ok := ctx.Value(vctxKey{}).(*vctx)
	if !ok {
		return func() bool { return true }
	}
	if c.err != nil {
		Go(f)
		return func() bool { return false }
	}
	stopped, i := false, len(c.after)
	started := false
	c.after = append(c.after, func() { started = true; f() })
	return func() bool {
		x := cur
		if x != nil && !x.abort {
			x.point(op{objs: c.objs(x), desc: "ctx stop"})
		}
		if started || stopped || c.err != nil {
			return false
		}
		stopped = true
		c.after[i] = func() {}
		return true
	}
}
