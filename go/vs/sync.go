package vs

import (
	"sync"
	"unsafe"
)

// UnlockPoints makes unlocking a scheduling point. It is only needed for code that uses TryLock.
var UnlockPoints bool

// Mutex replaces sync.Mutex.
type Mutex struct {
	id, epoch int
	locked    bool
}

func (m *Mutex) init(x *exec) {
	if m.epoch != x.epoch {
		*m = Mutex{epoch: x.epoch, id: x.newObj("mutex")}
	}
}

func (m *Mutex) Lock() {
	x := cur
	if x == nil {
		return
	}
	if !x.abort {
		m.init(x)
	}
	x.point(op{objs: []objRef{{m.id, true}}, enabled: func() bool { return !m.locked }, desc: "Mutex.Lock"})
	m.locked = true
	raceAcquire(unsafe.Pointer(m))
}

func (m *Mutex) TryLock() bool {
	x := cur
	if x == nil {
		return true
	}
	if !x.abort {
		m.init(x)
	}
	x.point(op{objs: []objRef{{m.id, true}}, desc: "Mutex.TryLock"})
	if m.locked {
		return false
	}
	m.locked = true
	raceAcquire(unsafe.Pointer(m))
	return true
}

func (m *Mutex) Unlock() {
	x := cur
	if x == nil || x.abort {
		return
	}
	m.init(x)
	if !m.locked {
		panic("fatal error: sync: unlock of unlocked mutex")
	}
	raceRelease(unsafe.Pointer(m))
	if UnlockPoints {
		x.point(op{objs: []objRef{{m.id, true}}, desc: "Mutex.Unlock"})
	}
	m.locked = false
	x.release(m.id, x.running)
}

// RWMutex replaces sync.RWMutex (with writer preference, as in the Go runtime: a waiting writer blocks new readers).
type RWMutex struct {
	id, epoch int
	readers   int
	writer    bool
	wait      int
	rd, wr    byte
}

func (m *RWMutex) init(x *exec) {
	if m.epoch != x.epoch {
		*m = RWMutex{epoch: x.epoch, id: x.newObj("rwmutex")}
	}
}

func (m *RWMutex) Lock() {
	x := cur
	if x == nil {
		return
	}
	if !x.abort {
		m.init(x)
	}
	// Announce the writer, then wait for the readers to leave.
	x.point(op{objs: []objRef{{m.id, true}}, desc: "RWMutex.Lock"})
	if m.writer || m.readers > 0 {
		m.wait++
		x.point(op{objs: []objRef{{m.id, true}}, enabled: func() bool { return !m.writer && m.readers == 0 }, desc: "RWMutex.Lock"})
		m.wait--
	}
	m.writer = true
	raceAcquire(unsafe.Pointer(&m.rd))
	raceAcquire(unsafe.Pointer(&m.wr))
}

func (m *RWMutex) TryLock() bool {
	x := cur
	if x == nil {
		return true
	}
	if !x.abort {
		m.init(x)
	}
	x.point(op{objs: []objRef{{m.id, true}}, desc: "RWMutex.TryLock"})
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	raceAcquire(unsafe.Pointer(&m.rd))
	raceAcquire(unsafe.Pointer(&m.wr))
	return true
}

func (m *RWMutex) Unlock() {
	x := cur
	if x == nil || x.abort {
		return
	}
	m.init(x)
	if !m.writer {
		panic("fatal error: sync: Unlock of unlocked RWMutex")
	}
	raceRelease(unsafe.Pointer(&m.rd))
	if UnlockPoints {
		x.point(op{objs: []objRef{{m.id, true}}, desc: "RWMutex.Unlock"})
	}
	m.writer = false
	x.release(m.id, x.running)
}

func (m *RWMutex) RLock() {
	x := cur
	if x == nil {
		return
	}
	if !x.abort {
		m.init(x)
	}
	x.point(op{objs: []objRef{{m.id, false}}, enabled: func() bool { return !m.writer && m.wait == 0 }, desc: "RWMutex.RLock"})
	m.readers++
	raceAcquire(unsafe.Pointer(&m.rd))
}

func (m *RWMutex) TryRLock() bool {
	x := cur
	if x == nil {
		return true
	}
	if !x.abort {
		m.init(x)
	}
	x.point(op{objs: []objRef{{m.id, false}}, desc: "RWMutex.TryRLock"})
	if m.writer || m.wait > 0 {
		return false
	}
	m.readers++
	raceAcquire(unsafe.Pointer(&m.rd))
	return true
}

func (m *RWMutex) RUnlock() {
	x := cur
	if x == nil || x.abort {
		return
	}
	m.init(x)
	if m.readers <= 0 {
		panic("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	raceReleaseMerge(unsafe.Pointer(&m.wr))
	if UnlockPoints {
		x.point(op{objs: []objRef{{m.id, false}}, desc: "RWMutex.RUnlock"})
	}
	m.readers--
	x.objs[m.id].readVC.join(&x.running.dep)
}

func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Once replaces sync.Once.
type Once struct {
	m    Mutex
	done bool
	base bool
	ep   int
}

func (o *Once) Do(f func()) {
	x := cur
	if x == nil {
		if !o.base {
			o.base = true
			f()
		}
		return
	}
	if x.abort {
		return
	}
	if o.ep != x.epoch {
		o.ep, o.done = x.epoch, o.base
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// WaitGroup replaces sync.WaitGroup.
type WaitGroup struct {
	id, epoch, n int
}

func (w *WaitGroup) init(x *exec) {
	if w.epoch != x.epoch {
		*w = WaitGroup{epoch: x.epoch, id: x.newObj("waitgroup")}
	}
}

func (w *WaitGroup) Add(d int) {
	x := cur
	if x == nil || x.abort {
		return
	}
	w.init(x)
	x.point(op{objs: []objRef{{w.id, true}}, desc: "WaitGroup.Add"})
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	raceReleaseMerge(unsafe.Pointer(w))
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	x := cur
	if x == nil {
		return
	}
	if !x.abort {
		w.init(x)
	}
	x.point(op{objs: []objRef{{w.id, true}}, enabled: func() bool { return w.n == 0 }, desc: "WaitGroup.Wait"})
	raceAcquire(unsafe.Pointer(w))
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() { defer w.Done(); f() })
}

// Cond replaces sync.Cond.
type Cond struct {
	L         sync.Locker
	id, epoch int
	waiters   []*condWaiter
}

type condWaiter struct {
	woken bool
	dep   VC
}

func NewCond(l sync.Locker) *Cond { return &Cond{L: l} }

func (c *Cond) init(x *exec) {
	if c.epoch != x.epoch {
		c.epoch, c.id, c.waiters = x.epoch, x.newObj("cond"), nil
	}
}

func (c *Cond) Wait() {
	x := cur
	if x == nil {
		return
	}
	if !x.abort {
		c.init(x)
	}
	x.point(op{objs: []objRef{{c.id, true}}, desc: "Cond.Wait"})
	w := &condWaiter{}
	c.waiters = append(c.waiters, w)
	c.L.Unlock()
	x.point(op{enabled: func() bool { return w.woken }, desc: "Cond.Wait"})
	raceAcquire(unsafe.Pointer(w))
	x.running.dep.join(&w.dep)
	c.L.Lock()
}

func (c *Cond) wake(all bool) {
	x := cur
	if x == nil || x.abort {
		return
	}
	c.init(x)
	x.point(op{objs: []objRef{{c.id, true}}, desc: "Cond.Signal"})
	t := x.running
	for len(c.waiters) > 0 {
		w := c.waiters[0]
		c.waiters = c.waiters[1:]
		w.woken = true
		w.dep = t.dep
		raceRelease(unsafe.Pointer(w))
		if !all {
			break
		}
	}
}
func (c *Cond) Signal()    { c.wake(false) }
func (c *Cond) Broadcast() { c.wake(true) }

// Map replaces sync.Map.
type Map struct {
	mu    Mutex
	epoch int
	m     map[any]any
	order []any
	base  *Map // contents before the first execution
}

func (m *Map) lock() func() {
	if cur != nil && m.epoch != cur.epoch {
		if m.epoch == 0 && len(m.m) > 0 {
			m.base = &Map{m: m.m, order: m.order}
		}
		m.epoch, m.m, m.order = cur.epoch, map[any]any{}, nil
		if m.base != nil {
			for _, k := range m.base.order {
				m.set(k, m.base.m[k])
			}
		}
	}
	m.mu.Lock()
	if m.m == nil {
		m.m = map[any]any{}
	}
	return m.mu.Unlock
}
func (m *Map) Load(k any) (any, bool) { defer m.lock()(); v, ok := m.m[k]; return v, ok }
func (m *Map) Store(k, v any) {
	defer m.lock()()
	m.set(k, v)
}
func (m *Map) set(k, v any) {
	if _, ok := m.m[k]; !ok {
		m.order = append(m.order, k)
	}
	m.m[k] = v
}
func (m *Map) del(k any) {
	delete(m.m, k)
	for i, o := range m.order {
		if o == k {
			m.order = append(append([]any{}, m.order[:i]...), m.order[i+1:]...)
			break
		}
	}
}
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	defer m.lock()()
	if o, ok := m.m[k]; ok {
		return o, true
	}
	m.set(k, v)
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	defer m.lock()()
	v, ok := m.m[k]
	m.del(k)
	return v, ok
}
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }
func (m *Map) Swap(k, v any) (any, bool) {
	defer m.lock()()
	o, ok := m.m[k]
	m.set(k, v)
	return o, ok
}
func (m *Map) CompareAndSwap(k, o, n any) bool {
	defer m.lock()()
	if v, ok := m.m[k]; ok && v == o {
		m.m[k] = n
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, o any) bool {
	defer m.lock()()
	if v, ok := m.m[k]; ok && v == o {
		m.del(k)
		return true
	}
	return false
}
func (m *Map) Clear() { defer m.lock()(); m.m, m.order = nil, nil }
func (m *Map) Range(f func(k, v any) bool) {
	un := m.lock()
	keys := append([]any{}, m.order...)
	un()
	for _, k := range keys {
		if v, ok := m.Load(k); ok && !f(k, v) {
			return
		}
	}
}

// Pool replaces sync.Pool. Get returns the most recently put object (the choice most likely to expose sharing).
type Pool struct {
	New   func() any
	mu    Mutex
	epoch int
	items []any
}

func (p *Pool) Get() any {
	if cur != nil && p.epoch != cur.epoch {
		p.epoch, p.items = cur.epoch, nil
	}
	p.mu.Lock()
	var v any
	if n := len(p.items); n > 0 {
		v = p.items[n-1]
		p.items = p.items[:n-1]
	}
	p.mu.Unlock()
	if v == nil && p.New != nil {
		v = p.New()
	}
	return v
}

func (p *Pool) Put(v any) {
	if cur != nil && p.epoch != cur.epoch {
		p.epoch, p.items = cur.epoch, nil
	}
	p.mu.Lock()
	p.items = append(p.items, v)
	p.mu.Unlock()
}

// OnceFunc and friends replace the sync functions of the same name.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

//go:norace
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

//go:norace
func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) { o.Do(func() { a, b = f() }); return a, b }
}
