package main

import (
	"errors"
	"fmt"
	"strings"

	"github.com/waj334/tinygo-mqtt/mqtt/packets"
	"github.com/waj334/tinygo-mqtt/mqtt/storage"
	"github.com/waj334/tinygo-mqtt/mqtt/storage/memory"

	"verif/vs"
)

// ---- S01 -----------------------------------------------------------------------------------------------------------

var storeIds = []uint16{0, 1, 65535}

// storeOp is an operation on the store and what it returned.
type storeOp struct {
	kind     int // 0 store, 1 get, 2 drop
	id       uint16
	packet   any
	got      any
	err      error
	from, to int // logical times of the call and the return
}

func (o *storeOp) String() string {
	switch o.kind {
	case 0:
		return fmt.Sprintf("Store(%d, %v) = %v", o.id, label(o.packet), o.err)
	case 1:
		return fmt.Sprintf("Get(%d) = %v, %v", o.id, label(o.got), o.err)
	}
	return fmt.Sprintf("Drop(%d) = %v", o.id, o.err)
}

// label names a packet made by this file.
func label(p any) string {
	switch x := p.(type) {
	case *packets.Publish:
		return "P" + string(x.Payload)
	case nil:
		return "-"
	}
	return fmt.Sprintf("%v", p)
}

func (o *storeOp) do(s storage.Storage) {
	switch o.kind {
	case 0:
		o.err = s.Store(o.id, o.packet)
	case 1:
		o.got, o.err = s.Get(o.id)
	case 2:
		o.err = s.Drop(o.id)
	}
}

// slot is what the model holds for an identifier.
type slot struct {
	p    any
	full bool
}

// apply performs the operation on the model (by index of the identifier) and reports whether it returned what it must.
func (o *storeOp) apply(m *[3]slot) bool {
	k := 0
	for i, id := range storeIds {
		if id == o.id {
			k = i
		}
	}
	switch o.kind {
	case 0:
		if m[k].full {
			return errors.Is(o.err, storage.ErrDuplicateEntry)
		}
		m[k] = slot{o.packet, true}
		return o.err == nil
	case 1:
		if !m[k].full {
			return errors.Is(o.err, storage.ErrNoEntry) && o.got == nil
		}
		return o.err == nil && o.got == m[k].p
	}
	if !m[k].full {
		return errors.Is(o.err, storage.ErrNoEntry)
	}
	m[k] = slot{}
	return o.err == nil
}

func newStoreOp(w *World, n int, ids int, nils bool) *storeOp {
	o := &storeOp{kind: w.Choose(3, "operation"), id: storeIds[w.Choose(ids, "identifier")]}
	if o.kind == 0 && !(nils && w.Choose(2, "value") == 1) {
		o.packet = newPublish(1, "t", fmt.Sprint(n))
	}
	return o
}

// linearizable looks for an order of the operations that respects their times and explains their results.
func linearizable(l []*storeOp, m [3]slot) bool {
	if len(l) == 0 {
		return true
	}
	for i, o := range l {
		first := true
		for _, p := range l {
			if p != o && p.to < o.from {
				first = false
			}
		}
		if !first {
			continue
		}
		n := m
		if !o.apply(&n) {
			continue
		}
		rest := append(append([]*storeOp{}, l[:i]...), l[i+1:]...)
		if linearizable(rest, n) {
			return true
		}
	}
	return false
}

func describe(l []*storeOp) string {
	var r []string
	for _, o := range l {
		r = append(r, fmt.Sprintf("[%d,%d] %v", o.from, o.to, o))
	}
	return strings.Join(r, "; ")
}

func storeHistory(depth int, nils bool) Scenario {
	name := fmt.Sprintf("history of %d operations", depth)
	if nils {
		name += ", nil among the values"
	}
	return Scenario{Name: name, Seq: true, Bare: true, Body: func(w *World) {
		s := memory.NewStorage()
		other := memory.NewStorage()
		own := newPublish(1, "t", "other")
		other.Store(1, own)
		var m [3]slot
		var done []*storeOp
		for i := 0; i < depth; i++ {
			o := newStoreOp(w, i, 3, nils)
			before := m
			o.do(s)
			done = append(done, o)
			if !o.apply(&m) {
				w.Bad("result", "an operation returns something else than a map holding %s would: %s", holds(before), describe(done))
				return
			}
		}
		for i, id := range storeIds {
			o := &storeOp{kind: 1, id: id}
			o.do(s)
			done = append(done, o)
			if !o.apply(&m) {
				w.Bad("contents", "after %s the store does not hold what was stored under %d: %v", describe(done), id, label(m[i].p))
				return
			}
		}
		if p, err := other.Get(1); err != nil || p != any(own) {
			w.Bad("shared", "another store changed: %v %v", p, err)
		}
	}}
}

func holds(m [3]slot) string {
	var r []string
	for i, p := range m {
		if p.full {
			r = append(r, fmt.Sprintf("%d:%s", storeIds[i], label(p.p)))
		}
	}
	return "{" + strings.Join(r, " ") + "}"
}

// storeRace runs operations of several goroutines on one store.
func storeRace(threads, each, prefill, ids int) Scenario {
	return Scenario{Name: fmt.Sprintf("%d goroutines, %d operations each, %d identifiers, %d stored before", threads, each, ids, prefill), Bare: true, Body: func(w *World) {
		s := memory.NewStorage()
		var m [3]slot
		for i := 0; i < prefill; i++ {
			p := newPublish(1, "t", fmt.Sprint("before", i))
			s.Store(storeIds[i], p)
			m[i] = slot{p, true}
		}
		progs := make([][]*storeOp, threads)
		for t := range progs {
			for k := 0; k < each; k++ {
				progs[t] = append(progs[t], newStoreOp(w, 10*t+k, ids, false))
			}
		}
		// A logical clock: the order of the calls and returns in this execution. It is kept per thread and merged through
		// the counter below, which is no scheduling point.
		clock := new(int)
		var hs []*vs.Handle
		for t := range progs {
			t := t
			hs = append(hs, w.T.Go(fmt.Sprint("g", t), func() {
				for _, o := range progs[t] {
					w.T.Yield()
					*clock++
					o.from = *clock
					o.do(s)
					*clock++
					o.to = *clock
				}
			}))
		}
		for _, h := range hs {
			w.T.Join(h)
		}
		var all []*storeOp
		for _, p := range progs {
			all = append(all, p...)
		}
		for _, id := range storeIds[:ids] {
			*clock++
			o := &storeOp{kind: 1, id: id, from: *clock}
			o.do(s)
			*clock++
			o.to = *clock
			all = append(all, o)
		}
		if !linearizable(all, m) {
			w.Bad("linearizability", "no order of the operations explains what they return (the store held %s): %s", holds(m), describe(all))
		}
	}}
}

// storeSizes fills stores of every size up to n and empties them from either end or from the middle.
func storeSizes(n int) Scenario {
	return Scenario{Name: fmt.Sprintf("every size up to %d", n), Seq: true, Bare: true, Horizon: 20000000, Body: func(w *World) {
		order := w.Choose(3, "order of dropping")
		s := memory.NewStorage()
		id := func(i int) uint16 { return uint16(i * 40503) } // (odd: a permutation)
		for i := 0; i < n; i++ {
			if err := s.Store(id(i), i); err != nil {
				w.Bad("result", "storing %d with %d others stored fails: %v", id(i), i, err)
				return
			}
			for _, k := range []int{0, i / 2, i} {
				if p, err := s.Get(id(k)); err != nil || p != any(k) {
					w.Bad("contents", "with %d stored the entry %d (the %d. one) is %v, %v", i+1, id(k), k, p, err)
					return
				}
				if err := s.Store(id(k), "another"); !errors.Is(err, storage.ErrDuplicateEntry) {
					w.Bad("result", "with %d stored storing %d (the %d. one) again returns %v", i+1, id(k), k, err)
					return
				}
			}
			if _, err := s.Get(id(i + 1)); !errors.Is(err, storage.ErrNoEntry) {
				w.Bad("result", "with %d stored getting an absent entry returns %v", i+1, err)
				return
			}
			if err := s.Drop(id(i + 1)); !errors.Is(err, storage.ErrNoEntry) {
				w.Bad("result", "with %d stored dropping an absent entry returns %v", i+1, err)
				return
			}
		}
		left := make([]int, n)
		for i := range left {
			left[i] = i
		}
		for len(left) > 0 {
			k := []int{0, len(left) - 1, len(left) / 2}[order]
			if err := s.Drop(id(left[k])); err != nil {
				w.Bad("result", "dropping one of %d fails: %v", len(left), err)
				return
			}
			gone := left[k]
			left = append(left[:k], left[k+1:]...)
			if _, err := s.Get(id(gone)); !errors.Is(err, storage.ErrNoEntry) {
				w.Bad("contents", "a dropped entry is still found: %v", err)
				return
			}
			if len(left) == 0 {
				break
			}
			for _, k := range []int{0, len(left) / 2, len(left) - 1} {
				if p, err := s.Get(id(left[k])); err != nil || p != any(left[k]) {
					w.Bad("contents", "with %d left the entry %d is %v, %v", len(left), id(left[k]), p, err)
					return
				}
			}
		}
	}}
}

// storeEverything uses every identifier at once.
func storeEverything() Scenario {
	return Scenario{Name: "every identifier", Seq: true, Bare: true, Horizon: 20000000, Body: func(w *World) {
		s := memory.NewStorage()
		for i := 0; i < 65536; i++ {
			if err := s.Store(uint16(i), i); err != nil {
				w.Bad("result", "storing %d fails: %v", i, err)
				return
			}
		}
		for i := 0; i < 65536; i++ {
			if p, err := s.Get(uint16(i)); err != nil || p != any(i) {
				w.Bad("contents", "with every identifier stored %d is %v, %v", i, p, err)
				return
			}
		}
		for i := 65535; i >= 0; i-- {
			if err := s.Drop(uint16(i)); err != nil {
				w.Bad("result", "dropping %d fails: %v", i, err)
				return
			}
		}
		if _, err := s.Get(0); !errors.Is(err, storage.ErrNoEntry) {
			w.Bad("contents", "the store is not empty after everything was dropped: %v", err)
		}
	}}
}

func storeScenarios(th bool) (r []Scenario) {
	r = append(r, storeHistory(5, false), storeHistory(4, true))
	r = append(r, storeSizes(1500), storeEverything())
	s := storeHistory(6, false)
	s.Thorough = true
	r = append(r, s)
	add := func(threads, each, prefill, ids int, thorough bool) {
		for _, race := range []bool{false, true} {
			s := storeRace(threads, each, prefill, ids)
			s.Thorough, s.Race = thorough, race
			r = append(r, s)
		}
	}
	add(2, 1, 0, 2, false)
	add(2, 1, 2, 2, false)
	add(2, 1, 3, 3, false)
	add(2, 2, 0, 2, false)
	add(2, 2, 1, 2, false)
	add(3, 1, 0, 2, false)
	add(3, 1, 1, 2, false)
	add(3, 1, 2, 2, false)
	add(2, 3, 1, 1, true)
	add(3, 2, 1, 1, true)
	add(3, 2, 0, 2, true)
	return
}

func init() {
	suites["S01"] = suite{scenarios: storeScenarios}
}
