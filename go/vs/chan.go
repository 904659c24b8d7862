package vs

import (
	"strconv"
	"unsafe"
)

// chanState carries the scheduling state of one channel. Buffered values live in the real channel.
type chanState struct {
	id     int
	keep   any
	closed bool
	recvq  []*waiter
	sendq  []*waiter
}

// sel is shared by all waiters of one parked channel operation.
type sel struct {
	fired int // index of the completed case, -1 while parked
	w     *waiter
	dep   VC
}

type waiter struct {
	s   *sel
	idx int
	val any    // value handed over
	ok  bool   // receiver: value received; sender: not panicking
	put func() // sender on a buffered channel: puts the value into the buffer
}

func (x *exec) chanState(p unsafe.Pointer, keep any) *chanState {
	s, ok := x.chans.get(p)
	if !ok {
		s = &chanState{id: x.newObj("chan"), keep: keep}
		x.chans.set(p, s)
	}
	return s
}

//go:norace
func chanPtr[T any](ch *T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(ch)) }

// Case is one communication of a select statement.
type Case interface {
	state(x *exec) *chanState // nil for a nil channel
	ready(c *chanState) bool
	do(x *exec, c *chanState) // performs the ready communication
	park(c *chanState, s *sel, idx int)
	complete(w *waiter) // after a partner completed the parked communication
	plain() bool        // outside of the scheduler: non-blocking attempt
}

func (q *chanState) first(l []*waiter) *waiter {
	for _, w := range l {
		if w.s.fired < 0 {
			return w
		}
	}
	return nil
}

func prune(l []*waiter) []*waiter {
	r := l[:0]
	for _, w := range l {
		if w.s.fired < 0 {
			r = append(r, w)
		}
	}
	return r
}

// fire completes a parked operation on behalf of thread t (nil: the scheduler).
func (w *waiter) fire(t *thread) {
	w.s.fired, w.s.w = w.idx, w
	if t != nil {
		w.s.dep = t.dep
	}
	raceAcquire(unsafe.Pointer(w.s))
	raceRelease(unsafe.Pointer(w.s))
}

// SCase is a send.
type SCase[T any] struct {
	ch chan<- T
	v  T
}

// SendCase makes a send case; the value is supplied by the returned function.
//
//go:norace
func SendCase[T any](ch chan<- T) func(v T) *SCase[T] {
	return func(v T) *SCase[T] { return &SCase[T]{ch, v} }
}

//go:norace
func (k *SCase[T]) state(x *exec) *chanState {
	if k.ch == nil {
		return nil
	}
	return x.chanState(chanPtr(&k.ch), k.ch)
}

//go:norace
func (k *SCase[T]) ready(c *chanState) bool {
	return c.closed || c.first(c.recvq) != nil || len(k.ch) < cap(k.ch)
}

//go:norace
func (k *SCase[T]) do(x *exec, c *chanState) {
	if c.closed {
		panic(chanError("send on closed channel"))
	}
	if w := c.first(c.recvq); w != nil {
		w.val, w.ok = carrier[T]{k.v}, true
		w.fire(x.running)
		c.recvq = prune(c.recvq)
		return
	}
	select {
	case k.ch <- k.v:
	default:
		panic("vs: channel out of step")
	}
}

//go:norace
func (k *SCase[T]) park(c *chanState, s *sel, idx int) {
	ch, v := k.ch, k.v
	c.sendq = append(c.sendq, &waiter{s: s, idx: idx, val: carrier[T]{v}, put: func() {
		select {
		case ch <- v:
		default:
			panic("vs: channel out of step")
		}
	}})
}

//go:norace
func (k *SCase[T]) complete(w *waiter) {
	if !w.ok {
		panic(chanError("send on closed channel"))
	}
}

//go:norace
func (k *SCase[T]) plain() bool {
	select {
	case k.ch <- k.v:
		return true
	default:
		return false
	}
}

// RCase is a receive.
type RCase[T any] struct {
	ch  <-chan T
	Val T
	Ok  bool
}

//go:norace
func RecvCase[T any](ch <-chan T) *RCase[T] { return &RCase[T]{ch: ch} }

//go:norace
func (k *RCase[T]) state(x *exec) *chanState {
	if k.ch == nil {
		return nil
	}
	return x.chanState(chanPtr(&k.ch), k.ch)
}

//go:norace
func (k *RCase[T]) ready(c *chanState) bool {
	return c.closed || len(k.ch) > 0 || c.first(c.sendq) != nil
}

//go:norace
func (k *RCase[T]) do(x *exec, c *chanState) {
	if len(k.ch) > 0 || c.closed {
		select {
		case k.Val, k.Ok = <-k.ch: // from the buffer, or the zero value of a closed channel
		default:
			panic("vs: channel out of step")
		}
		if w := c.first(c.sendq); w != nil && !c.closed {
			w.ok = true
			w.fire(x.running)
			w.put()
			c.sendq = prune(c.sendq)
		}
		return
	}
	w := c.first(c.sendq)
	k.Val, k.Ok = w.val.(carrier[T]).v, true
	w.ok = true
	w.fire(x.running)
	c.sendq = prune(c.sendq)
}

//go:norace
func (k *RCase[T]) park(c *chanState, s *sel, idx int) {
	c.recvq = append(c.recvq, &waiter{s: s, idx: idx})
}

//go:norace
func (k *RCase[T]) complete(w *waiter) {
	if w.ok {
		k.Val, k.Ok = w.val.(carrier[T]).v, true
	}
}

//go:norace
func (k *RCase[T]) plain() bool {
	select {
	case k.Val, k.Ok = <-k.ch:
		return true
	default:
		return false
	}
}

// carrier keeps interface-typed values (including nil) intact while they travel as any.
type carrier[T any] struct{ v T }

type chanError string

func (e chanError) Error() string { return string(e) }
func (e chanError) RuntimeError() {}

// Select performs one of the communications and returns its index, or -1 for the default case.
func Select(hasDefault bool, cases ...Case) int {
	x := cur
	if x == nil {
		for i, k := range cases {
			if k.plain() {
				return i
			}
		}
		if hasDefault {
			return -1
		}
		panic("vs: blocking channel operation outside of an execution")
	}
	if x.abort {
		x.point(op{})
	}
	objs := make([]objRef, 0, len(cases))
	states := make([]*chanState, len(cases))
	for i, k := range cases {
		c := k.state(x)
		states[i] = c
		if c != nil {
			dup := false
			for _, o := range objs {
				dup = dup || o.id == c.id
			}
			if !dup {
				objs = append(objs, objRef{c.id, true})
			}
		}
	}
	x.point(op{objs: objs, desc: "channel"})
	var ready []int
	for i, k := range cases {
		if states[i] != nil && k.ready(states[i]) {
			ready = append(ready, i)
		}
	}
	if len(ready) > 0 {
		i := ready[0]
		if len(ready) > 1 {
			i = ready[x.ex.choose(x, len(ready), "select")]
		}
		cases[i].do(x, states[i])
		return i
	}
	if hasDefault {
		return -1
	}
	s := &sel{fired: -1}
	raceRelease(unsafe.Pointer(s))
	for i, k := range cases {
		if states[i] != nil {
			k.park(states[i], s, i)
		}
	}
	desc := "channel receive"
	if len(cases) > 1 {
		desc = "select of " + strconv.Itoa(len(cases))
	} else if len(cases) == 1 {
		if states[0] == nil {
			desc = "nil channel"
		} else if len(states[0].sendq) > 0 && states[0].sendq[len(states[0].sendq)-1].s == s {
			desc = "channel send"
		}
	} else {
		desc = "select{}"
	}
	x.point(op{enabled: func() bool { return s.fired >= 0 }, desc: desc})
	raceAcquire(unsafe.Pointer(s))
	x.running.dep.join(&s.dep)
	i := s.fired
	cases[i].complete(s.w)
	return i
}

// ChanTx is the sending side of a channel.
type ChanTx[T any] struct{ ch chan<- T }

//go:norace
func Ch[T any](ch chan<- T) ChanTx[T] { return ChanTx[T]{ch} }

// Send replaces the send statement.
//
//go:norace
func (c ChanTx[T]) Send(v T) {
	if cur == nil {
		c.ch <- v
		return
	}
	Select(false, &SCase[T]{c.ch, v})
}

// Recv replaces the receive operator.
//
//go:norace
func Recv[T any](ch <-chan T) T {
	if cur == nil {
		return <-ch
	}
	k := RecvCase(ch)
	Select(false, k)
	return k.Val
}

// Recv2 replaces the receive operator with two results.
//
//go:norace
func Recv2[T any](ch <-chan T) (T, bool) {
	if cur == nil {
		v, ok := <-ch
		return v, ok
	}
	k := RecvCase(ch)
	Select(false, k)
	return k.Val, k.Ok
}

// TryRecv is a non-blocking receive for harnesses.
//
//go:norace
func TryRecv[T any](ch <-chan T) (v T, ok, got bool) {
	k := RecvCase(ch)
	got = Select(true, k) == 0
	return k.Val, k.Ok, got
}

// Close replaces the built-in function close.
//
//go:norace
func Close[T any](ch chan<- T) {
	x := cur
	if x == nil {
		close(ch)
		return
	}
	if x.abort {
		return
	}
	if ch == nil {
		panic(chanError("close of nil channel"))
	}
	c := x.chanState(chanPtr(&ch), ch)
	x.point(op{objs: []objRef{{c.id, true}}, desc: "close"})
	closeNow(x, c, ch, x.running)
}

//go:norace
func closeNow[T any](x *exec, c *chanState, ch chan<- T, by *thread) {
	if c.closed {
		panic(chanError("close of closed channel"))
	}
	close(ch) // panics if the channel was closed before this execution
	c.closed = true
	for _, w := range append(append([]*waiter{}, c.recvq...), c.sendq...) {
		if w.s.fired < 0 {
			w.ok = false
			w.fire(by)
		}
	}
	c.recvq, c.sendq = nil, nil
}
