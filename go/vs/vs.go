// Package vs is a controlled scheduler for Go code: exactly one registered thread runs at a time, every
// synchronisation operation is a scheduling point, and an Explorer enumerates the executions of a closed scenario.
//
// Scheduling choices are enumerated with dynamic partial-order reduction and sleep sets (see explore.go); data choices
// (Choose) are enumerated exhaustively. Time is virtual and advances only when no thread can run.
package vs

import (
	"fmt"
	"runtime"
	"time"
	"unsafe"
)

const maxThreads = 16

// VC is a vector clock.
type VC [maxThreads]int32

func (v *VC) join(o *VC) {
	for i := range v {
		if o[i] > v[i] {
			v[i] = o[i]
		}
	}
}

type objRef struct {
	id    int
	write bool
}

type op struct {
	objs    []objRef
	enabled func() bool                  // nil: always enabled
	wakeAt  func() (time.Duration, bool) // earliest virtual time at which the op may become enabled by itself
	desc    string
}

type thread struct {
	id     int
	name   string
	daemon bool
	wake   chan struct{}
	op     op
	done   bool
	exited chan struct{}
	dep    VC // dependency clock (for DPOR)
	local  int32
}

type objInfo struct {
	hist    []access
	writeVC VC
	readVC  VC
	name    string
}

type access struct {
	step  int
	write bool
}

type step struct {
	node   int
	thread int
	local  int32
	dep    VC
}

// Violation describes one failing execution.
type Violation struct {
	Kind  string // panic, deadlock, race, oracle, horizon
	Msg   string
	Sig   string // stable identification of what failed (for known findings)
	Trace []int
	Log   []string
}

type timer struct {
	at     time.Duration
	seq    int
	fire   func()
	active bool
}

type exec struct {
	ex         *Explorer
	threads    []*thread
	running    *thread
	nsteps     int
	now        time.Duration
	timers     []*timer
	tseq       int
	steps      []step
	objs       []objInfo
	chans      ptrTable[*chanState]
	mem        ptrTable[int]
	end        chan struct{}
	ended      bool
	abort      bool
	viol       *Violation
	pruned     bool
	log        []string
	epoch      int
	rnd        uint64
	depth      int
	advances   int
	lastSch    int
	preempt    int
	raceErrors int
	tear       byte // address used to order the teardown of an execution (race builds)
}

var cur *exec
var epochCounter int

// Controlled reports whether the caller runs under the scheduler.
func Controlled() bool { return cur != nil }

func (x *exec) newObj(name string) int {
	x.objs = append(x.objs, objInfo{name: name})
	return len(x.objs) - 1
}

func (x *exec) spawn(name string, daemon bool, fn func()) *thread {
	if len(x.threads) >= maxThreads {
		panic("vs: too many threads")
	}
	t := &thread{id: len(x.threads), name: name, daemon: daemon, wake: make(chan struct{}, 1), exited: make(chan struct{})}
	if p := x.running; p != nil {
		t.dep = p.dep
	}
	t.op = op{desc: "start"}
	x.threads = append(x.threads, t)
	go func() {
		defer close(t.exited)
		raceDisable()
		<-t.wake
		raceEnable()
		if x.abort {
			return
		}
		defer func() {
			if r := recover(); r != nil {
				if !x.abort {
					x.fail("panic", "panic in "+t.name+": "+fmt.Sprint(r)+"\n"+stack(), "panic:"+fmt.Sprint(r))
				}
			}
			raceReleaseMerge(unsafe.Pointer(&x.tear))
			if x.abort {
				return
			}
			t.done = true
			raceReleaseMerge(unsafe.Pointer(t))
			if x.viol != nil {
				x.finish()
				return
			}
			n := x.next()
			if n != nil {
				x.running = n
				raceDisable()
				n.wake <- struct{}{}
				raceEnable()
			}
		}()
		fn()
	}()
	return t
}

func stack() string {
	buf := make([]byte, 6000)
	n := runtime.Stack(buf, false)
	return string(buf[:n])
}

// finish ends the execution.
func (x *exec) finish() {
	if !x.ended {
		x.ended = true
		x.ex.pendingRaces(x)
		x.raceErrors = raceErrors()
		raceDisable()
		close(x.end)
		raceEnable()
	}
}

// fail records a violation. The execution ends at the next scheduling point or thread exit.
func (x *exec) fail(kind, msg, sig string) {
	if x.viol == nil {
		x.viol = &Violation{Kind: kind, Msg: msg, Sig: sig}
	}
}

// point parks the running thread with the given operation and returns when the scheduler selects it.
func (x *exec) point(o op) {
	if x.abort {
		runtime.Goexit()
	}
	t := x.running
	raceReleaseMerge(unsafe.Pointer(&x.tear))
	if x.viol != nil {
		x.finish()
		x.park(t)
		return
	}
	t.op = o
	n := x.next()
	if n == t {
		x.running = t
		return
	}
	if n != nil {
		x.running = n
		raceDisable()
		n.wake <- struct{}{}
		raceEnable()
	}
	x.park(t)
}

func (x *exec) park(t *thread) {
	raceDisable()
	<-t.wake
	raceEnable()
	if x.abort {
		raceAcquire(unsafe.Pointer(&x.tear))
		runtime.Goexit()
	}
}

// next selects the thread to run, or ends the execution and returns nil.
func (x *exec) next() *thread {
	for {
		var mask uint32
		alive := false
		for _, t := range x.threads {
			if t.done {
				continue
			}
			if !t.daemon {
				alive = true
			}
			if t.op.enabled == nil || t.op.enabled() {
				mask |= 1 << uint(t.id)
			}
		}
		if !alive {
			x.finish()
			return nil
		}
		if mask == 0 {
			if x.advance() {
				continue
			}
			msg := "deadlock:"
			sig := "deadlock"
			for _, t := range x.threads {
				if !t.done {
					msg += fmt.Sprintf(" [%s waits at %s]", t.name, t.op.desc)
					if !t.daemon {
						sig += ":" + t.name + "@" + t.op.desc
					}
				}
			}
			x.fail("deadlock", msg, sig)
			x.finish()
			return nil
		}
		x.nsteps++
		if x.nsteps > x.ex.Horizon {
			x.fail("horizon", fmt.Sprintf("execution exceeded %d steps (livelock); running thread %s", x.ex.Horizon, x.running.name), "horizon")
			x.finish()
			return nil
		}
		id := x.ex.pick(x, mask)
		if id < 0 {
			x.pruned = true
			x.finish()
			return nil
		}
		return x.threads[id]
	}
}

// advance moves virtual time to the next event. It reports false if there is none.
func (x *exec) advance() bool {
	best := time.Duration(-1)
	for _, t := range x.threads {
		if !t.done && t.op.wakeAt != nil {
			if at, ok := t.op.wakeAt(); ok && at > x.now && (best < 0 || at < best) {
				best = at
			}
		}
	}
	for _, tm := range x.timers {
		if tm.active && (best < 0 || tm.at < best) {
			best = tm.at
		}
	}
	if best < 0 {
		return false
	}
	if x.advances++; x.advances > 2000 {
		return false // only timers are still active
	}
	// Time advances only when nothing can run: everything before is ordered before everything after.
	var all VC
	for _, t := range x.threads {
		all.join(&t.dep)
	}
	for _, t := range x.threads {
		t.dep = all
	}
	if best > x.now {
		x.now = best
	}
	x.fireTimers()
	return true
}

func (x *exec) fireTimers() {
	for {
		var pick *timer
		for _, tm := range x.timers {
			if tm.active && tm.at <= x.now && (pick == nil || tm.at < pick.at || (tm.at == pick.at && tm.seq < pick.seq)) {
				pick = tm
			}
		}
		if pick == nil {
			return
		}
		pick.active = false
		pick.fire()
	}
}

func (x *exec) addTimer(d time.Duration, fire func()) *timer {
	x.tseq++
	tm := &timer{at: x.now + d, seq: x.tseq, fire: fire, active: true}
	if d < 0 {
		tm.at = x.now
	}
	x.timers = append(x.timers, tm)
	return tm
}

// ---- harness API -------------------------------------------------------------------------------------------------

// T is the handle a scenario gets for one execution.
type T struct{ x *exec }

// Go starts a harness thread. Executions end when all harness threads have finished.
func (t *T) Go(name string, fn func()) *Handle {
	th := t.x.spawn(name, false, fn)
	return &Handle{th}
}

// GoDaemon starts a thread that may still be blocked when the execution ends.
func (t *T) GoDaemon(name string, fn func()) *Handle {
	return &Handle{t.x.spawn(name, true, fn)}
}

type Handle struct{ th *thread }

// Done reports whether the thread has finished (no scheduling point).
func (h *Handle) Done() bool { return h.th.done }

// Blocked reports whether the thread is parked at an operation that cannot proceed now.
func (h *Handle) Blocked() bool {
	return !h.th.done && h.th.op.enabled != nil && !h.th.op.enabled()
}

// Where describes the operation the thread is parked at.
func (h *Handle) Where() string { return h.th.op.desc }

// Join waits for a thread to finish.
func (t *T) Join(h *Handle) {
	x := t.x
	x.point(op{enabled: func() bool { return h.th.done }, desc: "join " + h.th.name})
	me := x.running
	me.dep.join(&h.th.dep)
	raceAcquire(unsafe.Pointer(h.th))
}

// Quiesce lets every other thread run until all of them are finished or blocked (virtual time does not advance).
func (t *T) Quiesce() {
	x := t.x
	me := x.running
	x.point(op{desc: "quiesce", enabled: func() bool {
		for _, o := range x.threads {
			if o == me || o.done {
				continue
			}
			if o.op.desc == "quiesce" {
				continue
			}
			if o.op.enabled == nil || o.op.enabled() {
				return false
			}
		}
		return true
	}})
	for _, o := range x.threads {
		if o != me {
			me.dep.join(&o.dep)
		}
	}
}

// Fail reports an oracle violation; sig identifies it for the known-findings list.
func (t *T) Fail(sig, format string, args ...any) {
	t.x.fail("oracle", fmt.Sprintf(format, args...), sig)
}

// Failed reports whether a violation has been recorded in this execution.
func (t *T) Failed() bool { return t.x.viol != nil }

// Logf appends to the execution's log (kept in replay files).
func (t *T) Logf(format string, args ...any) {
	if t.x.ex.KeepLog {
		t.x.log = append(t.x.log, fmt.Sprintf("[%s] ", t.x.running.name)+fmt.Sprintf(format, args...))
	}
}

// Choose enumerates 0..n-1.
func (t *T) Choose(n int, label string) int { return t.x.ex.choose(t.x, n, label) }

// Advance moves the virtual clock.
func (t *T) Advance(d time.Duration) {
	t.x.now += d
	t.x.fireTimers()
}

// Yield is a scheduling point without dependencies.
func (t *T) Yield() { t.x.point(op{desc: "yield"}) }

// Obj is a shared harness object whose operations are scheduling points.
type Obj struct {
	id    int
	epoch int
	name  string
}

func NewObj(name string) *Obj { return &Obj{name: name} }

func (o *Obj) ref(x *exec) int {
	if o.epoch != x.epoch {
		o.epoch = x.epoch
		o.id = x.newObj(o.name)
	}
	return o.id
}

// Op is a scheduling point on the object. If ready is non-nil the thread waits until it holds; wakeAt may give the
// virtual time (offset) at which it may become ready by passage of time alone.
func (o *Obj) Op(desc string, ready func() bool, wakeAt func() (time.Duration, bool)) {
	x := cur
	if x == nil {
		return
	}
	x.point(op{objs: []objRef{{o.ref(x), true}}, enabled: ready, wakeAt: wakeAt, desc: desc})
}

// Acquire orders the caller after all callers of Release on the object (for the race detector).
func (o *Obj) Acquire() { raceAcquire(unsafe.Pointer(o)) }
func (o *Obj) Release() { raceReleaseMerge(unsafe.Pointer(o)) }

// RaceRead and RaceWrite tell the race detector about accesses by the harness on behalf of the operating system.
func RaceRead(p []byte) {
	if len(p) > 0 {
		raceRange(unsafe.Pointer(&p[0]), len(p), false)
	}
}
func RaceWrite(p []byte) {
	if len(p) > 0 {
		raceRange(unsafe.Pointer(&p[0]), len(p), true)
	}
}

// Flag is a monotone harness condition. Raising it is no scheduling point.
type Flag struct {
	up  bool
	dep VC
}

// Raise sets the flag and records what happened before.
func (f *Flag) Raise() {
	f.up = true
	if x := cur; x != nil && x.running != nil {
		f.dep.join(&x.running.dep)
		raceReleaseMerge(unsafe.Pointer(f))
	}
}

func (f *Flag) Up() bool { return f.up }

// Wait blocks until the condition holds. The condition must depend only on the passage of time and on what the threads
// that raised the flags did before raising them, and must not become false while the caller waits.
func Wait(desc string, cond func() bool, wakeAt func() (time.Duration, bool), flags ...*Flag) {
	x := cur
	if x == nil {
		return
	}
	x.point(op{enabled: cond, wakeAt: wakeAt, desc: desc})
	for _, f := range flags {
		x.running.dep.join(&f.dep)
		raceAcquire(unsafe.Pointer(f))
	}
}

// Offset returns the virtual time since the start of the execution.
func Offset() time.Duration {
	if cur == nil {
		return 0
	}
	return cur.now
}

// Base is the virtual time at which every execution starts.
var Base = time.Unix(1700000000, 0).UTC()

// Aborting reports whether the current execution is being torn down.
func Aborting() bool { return cur != nil && cur.abort }

// ChooseGlobal is Choose for code without a T at hand.
func ChooseGlobal(n int, label string) int {
	if cur == nil {
		return 0
	}
	if cur.abort {
		runtime.Goexit()
	}
	return cur.ex.choose(cur, n, label)
}

// FailGlobal is Fail for code without a T at hand.
func FailGlobal(sig, format string, args ...any) {
	if cur == nil || cur.abort {
		return
	}
	cur.fail("oracle", fmt.Sprintf(format, args...), sig)
}

// LogGlobal is Logf for code without a T at hand.
func LogGlobal(format string, args ...any) {
	if cur == nil || cur.abort || !cur.ex.KeepLog {
		return
	}
	(&T{cur}).Logf(format, args...)
}

// ThreadName names the running thread.
func ThreadName() string {
	if cur == nil || cur.running == nil {
		return ""
	}
	return cur.running.name
}
