package vs

import (
	"fmt"
	"time"
)

// node is one branching point of the execution tree.
type node struct {
	choice bool
	n, val int
	label  string

	enabled   uint32
	chosen    int
	first     int // the thread chosen first
	backtrack uint32
	done      uint32
	asleep    uint32
	sleep     [][]objRef // by thread
	pend      [][]objRef // footprints of the enabled threads' pending operations
}

// Explorer enumerates the executions of one scenario.
type Explorer struct {
	Name     string
	Body     func(t *T)
	NoSched  bool // only data choices branch; scheduling is run-to-block
	FullDFS  bool // enumerate every interleaving (no reduction)
	Preempt  int  // with FullDFS: at most this many preemptions (-1: no limit)
	Deviate  bool // with FullDFS: any choice of a thread other than the default one counts as a preemption
	MapOrder bool // enumerate iteration orders of maps
	KeepLog  bool
	Horizon  int
	MaxExec  int
	Until    time.Time
	// OnViolation decides whether exploration goes on after a violation.
	OnViolation func(v *Violation) bool
	// AfterLog receives the log of a replayed execution.
	AfterLog func(l []string)
	// AfterExec is called after every complete execution.
	AfterExec func()

	path   []*node
	fresh  int // depth of the first node whose step was not executed before
	replay []int

	// statistics
	Execs, Pruned, Transitions, States, Choices, MaxDepth int
	Exhaustive                                            bool
	Diverged                                              string
}

var resets []func()

// OnReset registers a function that restores package-level state of the code under test before every execution.
func OnReset(f func()) { resets = append(resets, f) }

// Run explores until the tree is exhausted, a bound is hit or OnViolation returns false.
func (e *Explorer) Run() {
	if e.Horizon == 0 {
		e.Horizon = 5000
	}
	for {
		v, pruned := e.once()
		if pruned {
			e.Pruned++
		} else {
			e.Execs++
		}
		if e.Diverged != "" {
			return
		}
		if v != nil && e.OnViolation != nil {
			v.Trace = e.trace()
			if !e.OnViolation(v) {
				return
			}
		}
		if !pruned && e.AfterExec != nil {
			e.AfterExec()
		}
		if !e.backtrackStep() {
			e.Exhaustive = true
			return
		}
		if e.MaxExec > 0 && e.Execs >= e.MaxExec {
			return
		}
		if (e.Execs+e.Pruned)&63 == 0 && !e.Until.IsZero() && time.Now().After(e.Until) {
			return
		}
	}
}

// Replay runs one recorded trace.
func (e *Explorer) Replay(trace []int) *Violation {
	if e.Horizon == 0 {
		e.Horizon = 5000
	}
	e.replay = append([]int{}, trace...)
	e.path = nil
	if e.replay == nil {
		e.replay = []int{}
	}
	v, _ := e.once()
	e.replay = nil
	if v != nil {
		v.Trace = trace
	}
	e.path = nil
	return v
}

// Progress counts the steps taken so far; Trace is the current execution.
func (e *Explorer) Progress() int { return e.Transitions + e.Execs }
func (e *Explorer) Trace() []int  { return e.trace() }

func (e *Explorer) trace() []int {
	r := make([]int, len(e.path))
	for i, n := range e.path {
		if n.choice {
			r[i] = n.val
		} else {
			r[i] = n.chosen
		}
	}
	return r
}

func (e *Explorer) once() (*Violation, bool) {
	epochCounter++
	e.fresh = len(e.path) - 1
	x := &exec{ex: e, end: make(chan struct{}), epoch: epochCounter, lastSch: -1}
	races := raceErrors()
	cur = x
	for _, f := range resets {
		f()
	}
	main := x.spawn("main", false, func() { e.Body(&T{x}) })
	x.running = main
	n := x.next()
	if n != nil {
		n.wake <- struct{}{}
	}
	<-x.end
	if x.raceErrors > races && x.viol == nil {
		x.viol = &Violation{Kind: "race", Sig: "race", Msg: "data race (see the race detector's report)"}
	}
	x.abort = true
	for i := 0; i < len(x.threads); i++ {
		t := x.threads[i]
		select {
		case t.wake <- struct{}{}:
		default:
		}
		<-t.exited
	}
	cur = nil
	if x.depth > e.MaxDepth {
		e.MaxDepth = x.depth
	}
	if x.viol != nil {
		x.viol.Log = x.log
	}
	if e.AfterLog != nil {
		e.AfterLog(x.log)
	}
	if x.depth < len(e.path) && x.viol == nil && !x.pruned {
		e.Diverged = fmt.Sprintf("replay divergence: execution ended at depth %d, expected more than %d", x.depth, len(e.path))
	}
	return x.viol, x.pruned
}

func (e *Explorer) choose(x *exec, n int, label string) int {
	if n <= 1 {
		return 0
	}
	d := x.depth
	x.depth++
	if d < len(e.path) {
		nd := e.path[d]
		if !nd.choice || nd.n != n {
			e.diverge(x, fmt.Sprintf("replay divergence at depth %d: choice %s/%d", d, label, n))
			return 0
		}
		return nd.val
	}
	nd := &node{choice: true, n: n, label: label}
	if e.replay != nil && d < len(e.replay) {
		nd.val = e.replay[d]
		if nd.val >= n {
			nd.val = 0
		}
	}
	e.path = append(e.path, nd)
	e.Choices++
	e.States++
	return nd.val
}

func (e *Explorer) diverge(x *exec, msg string) {
	if e.Diverged == "" {
		e.Diverged = msg
	}
	x.fail("diverged", msg, "diverged")
}

// pick selects the thread to run at a scheduling point, or -1 if the execution is redundant.
func (e *Explorer) pick(x *exec, mask uint32) int {
	e.Transitions++
	if e.NoSched {
		id := x.running.id
		if mask&(1<<uint(id)) == 0 {
			id = lowest(mask)
		}
		e.commit(x, id, -1)
		return id
	}
	d := x.depth
	x.depth++
	var nd *node
	if d < len(e.path) {
		nd = e.path[d]
		if nd.choice || nd.enabled != mask {
			e.diverge(x, fmt.Sprintf("replay divergence at depth %d: enabled %b, recorded %b", d, mask, nd.enabled))
			return -1
		}
	} else {
		nd = &node{enabled: mask, chosen: -1}
		e.States++
		nd.pend = make([][]objRef, len(x.threads))
		for _, t := range x.threads {
			if mask&(1<<uint(t.id)) != 0 {
				nd.pend[t.id] = t.op.objs
			}
		}
		// inherit the sleep set
		if x.lastSch >= 0 && !e.FullDFS && e.replay == nil {
			p := e.path[x.lastSch]
			foot := p.pend[p.chosen]
			for u := 0; p.asleep>>uint(u) != 0; u++ {
				if asleep(p, u) && u != p.chosen && mask&(1<<uint(u)) != 0 && independent(p.sleep[u], foot) {
					nd.setSleep(u, p.sleep[u])
				}
			}
		}
		id := -1
		if e.replay != nil && d < len(e.replay) && e.replay[d] < 31 && mask&(1<<uint(e.replay[d])) != 0 {
			id = e.replay[d]
		} else {
			r := x.running.id
			if mask&(1<<uint(r)) != 0 && !asleep(nd, r) {
				id = r
			} else {
				for i := 0; i < maxThreads; i++ {
					if mask&(1<<uint(i)) != 0 && !asleep(nd, i) {
						id = i
						break
					}
				}
			}
		}
		if id < 0 {
			x.depth--
			return -1
		}
		nd.chosen = id
		nd.first = id
		nd.backtrack = 1 << uint(id)
		if e.FullDFS {
			r := uint32(1) << uint(x.running.id)
			if e.Preempt < 0 || mask&r == 0 && !e.Deviate || x.preempt < e.Preempt {
				nd.backtrack = mask
			}
		}
		e.path = append(e.path, nd)
	}
	x.lastSch = d
	if r := x.running.id; mask&(1<<uint(r)) != 0 && nd.chosen != r || e.Deviate && nd.chosen != nd.first {
		x.preempt++
	}
	e.commit(x, nd.chosen, d)
	return nd.chosen
}

func asleep(n *node, t int) bool { return n.asleep&(1<<uint(t)) != 0 }

func (n *node) setSleep(t int, f []objRef) {
	if n.sleep == nil {
		n.sleep = make([][]objRef, maxThreads)
	}
	n.asleep |= 1 << uint(t)
	n.sleep[t] = f
}

func lowest(m uint32) int {
	for i := 0; i < 32; i++ {
		if m&(1<<uint(i)) != 0 {
			return i
		}
	}
	return -1
}

func independent(a, b []objRef) bool {
	for _, p := range a {
		for _, q := range b {
			if p.id == q.id && (p.write || q.write) {
				return false
			}
		}
	}
	return true
}

// races adds backtracking points for the pending operation of thread t against earlier dependent, concurrent steps
// (source sets: Abdulla et al., "Source Sets: A Foundation for Optimal Dynamic Partial Order Reduction").
func (e *Explorer) races(x *exec, t *thread) {
	if e.NoSched || e.FullDFS || e.replay != nil {
		return
	}
	var dep VC
	have := false
	for _, r := range t.op.objs {
		h := x.objs[r.id].hist
		for i := len(h) - 1; i >= 0; i-- {
			s := &x.steps[h[i].step]
			if !h[i].write && !r.write {
				continue
			}
			if s.thread == t.id || t.dep[s.thread] >= s.local {
				if h[i].write {
					break // everything before is ordered, too
				}
				continue
			}
			if !have {
				have = true
				dep = t.dep
				for _, q := range t.op.objs {
					dep.join(&x.objs[q.id].writeVC)
					if q.write {
						dep.join(&x.objs[q.id].readVC)
					}
				}
			}
			co := e.race(x, t, h[i].step, &dep)
			if h[i].write && (co || t.op.enabled == nil) {
				break
			}
		}
	}
}

// race handles one race between the step with index k and the pending operation of t, whose clock is dep. It reports
// whether the operation is known to have been enabled before that step.
func (e *Explorer) race(x *exec, t *thread, k int, dep *VC) bool {
	s := &x.steps[k]
	nd := e.path[s.node]
	// Threads whose first step in v (the steps that do not depend on s, then the operation) depends on no other in v.
	var seen, init uint32
	moved := false
	var v [64]int
	vs := v[:0]
	for j := k + 1; j < len(x.steps); j++ {
		f := &x.steps[j]
		if f.dep[s.thread] >= s.local {
			continue
		}
		bit := uint32(1) << uint(f.thread)
		if f.thread == t.id {
			moved = true
		}
		if seen&bit == 0 {
			seen |= bit
			free := true
			for _, g := range vs {
				if q := &x.steps[g]; f.dep[q.thread] >= q.local {
					free = false
					break
				}
			}
			if free {
				init |= bit
			}
		}
		vs = append(vs, j)
	}
	tb := uint32(1) << uint(t.id)
	if seen&tb == 0 {
		free := true
		for _, g := range vs {
			if q := &x.steps[g]; dep[q.thread] >= q.local {
				free = false
				break
			}
		}
		if free {
			init |= tb
		}
	}
	if init&nd.enabled == 0 {
		nd.backtrack |= nd.enabled
	} else {
		init &= nd.enabled
		have := init & nd.backtrack
		have |= init & nd.asleep
		if have == 0 {
			if init&tb != 0 {
				nd.backtrack |= tb
			} else {
				nd.backtrack |= 1 << uint(lowest(init))
			}
		}
	}
	return !moved && nd.enabled&tb != 0
}

func (e *Explorer) pendingRaces(x *exec) {
	if e.NoSched || e.FullDFS || e.replay != nil {
		return
	}
	for _, t := range x.threads {
		if !t.done {
			e.races(x, t)
		}
	}
}

// commit accounts for the execution of the pending operation of thread id at node d.
func (e *Explorer) commit(x *exec, id, d int) {
	if e.NoSched {
		return
	}
	t := x.threads[id]
	if d >= e.fresh {
		e.races(x, t)
	}
	for _, r := range t.op.objs {
		o := &x.objs[r.id]
		t.dep.join(&o.writeVC)
		if r.write {
			t.dep.join(&o.readVC)
		}
	}
	t.local++
	t.dep[id] = t.local
	x.steps = append(x.steps, step{node: d, thread: id, local: t.local, dep: t.dep})
	for _, r := range t.op.objs {
		o := &x.objs[r.id]
		o.hist = append(o.hist, access{len(x.steps) - 1, r.write})
		if r.write {
			o.writeVC.join(&t.dep)
		} else {
			o.readVC.join(&t.dep)
		}
	}
}

// release publishes the thread's dependency clock on an object (unlock).
func (x *exec) release(id int, t *thread) { x.objs[id].writeVC.join(&t.dep) }

func (e *Explorer) backtrackStep() bool {
	for len(e.path) > 0 {
		nd := e.path[len(e.path)-1]
		if nd.choice {
			if nd.val+1 < nd.n {
				nd.val++
				return true
			}
			e.path = e.path[:len(e.path)-1]
			continue
		}
		nd.done |= 1 << uint(nd.chosen)
		if !e.FullDFS {
			nd.setSleep(nd.chosen, nd.pend[nd.chosen])
		}
		cand := nd.backtrack &^ nd.done
		for i := 0; i < maxThreads; i++ {
			if cand&(1<<uint(i)) != 0 && (e.FullDFS || !asleep(nd, i)) {
				nd.chosen = i
				return true
			}
		}
		e.path = e.path[:len(e.path)-1]
	}
	return false
}
