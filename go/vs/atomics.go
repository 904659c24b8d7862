package vs

import "unsafe"

// atomicState carries scheduling and happens-before state of one atomic variable.
type atomicState struct {
	id, epoch int
}

func (a *atomicState) point(write bool) {
	x := cur
	if x == nil || x.abort {
		return
	}
	if a.epoch != x.epoch {
		*a = atomicState{epoch: x.epoch, id: x.newObj("atomic")}
	}
	x.point(op{objs: []objRef{{a.id, write}}, desc: "atomic"})
	raceAcquire(unsafe.Pointer(a))
	if write {
		raceReleaseMerge(unsafe.Pointer(a))
	}
}

var funcAtomics *ptrTable[*atomicState]
var funcEpoch int

func stateOf(p unsafe.Pointer) *atomicState {
	if cur == nil {
		return &atomicState{}
	}
	if funcEpoch != cur.epoch {
		funcEpoch, funcAtomics = cur.epoch, &ptrTable[*atomicState]{}
	}
	s, ok := funcAtomics.get(p)
	if !ok {
		s = &atomicState{}
		funcAtomics.set(p, s)
	}
	return s
}

type integer interface {
	~int32 | ~int64 | ~uint32 | ~uint64 | ~uintptr
}

type atomicInt[T integer] struct {
	s atomicState
	v T
}

//go:norace
func (a *atomicInt[T]) Load() T { a.s.point(false); return a.v }

//go:norace
func (a *atomicInt[T]) Store(v T) { a.s.point(true); a.v = v }

//go:norace
func (a *atomicInt[T]) Add(d T) T { a.s.point(true); a.v += d; return a.v }

//go:norace
func (a *atomicInt[T]) Swap(v T) T {
	a.s.point(true)
	o := a.v
	a.v = v
	return o
}

//go:norace
func (a *atomicInt[T]) CompareAndSwap(o, n T) bool {
	a.s.point(true)
	if a.v == o {
		a.v = n
		return true
	}
	return false
}

//go:norace
func (a *atomicInt[T]) And(m T) T { a.s.point(true); o := a.v; a.v &= m; return o }

//go:norace
func (a *atomicInt[T]) Or(m T) T { a.s.point(true); o := a.v; a.v |= m; return o }

type AtomicInt32 struct{ atomicInt[int32] }
type AtomicInt64 struct{ atomicInt[int64] }
type AtomicUint32 struct{ atomicInt[uint32] }
type AtomicUint64 struct{ atomicInt[uint64] }
type AtomicUintptr struct{ atomicInt[uintptr] }

type AtomicBool struct {
	s atomicState
	v bool
}

func (a *AtomicBool) Load() bool   { a.s.point(false); return a.v }
func (a *AtomicBool) Store(v bool) { a.s.point(true); a.v = v }
func (a *AtomicBool) Swap(v bool) bool {
	a.s.point(true)
	o := a.v
	a.v = v
	return o
}
func (a *AtomicBool) CompareAndSwap(o, n bool) bool {
	a.s.point(true)
	if a.v == o {
		a.v = n
		return true
	}
	return false
}

type AtomicPointer[T any] struct {
	s atomicState
	v *T
}

//go:norace
func (a *AtomicPointer[T]) Load() *T { a.s.point(false); return a.v }

//go:norace
func (a *AtomicPointer[T]) Store(v *T) { a.s.point(true); a.v = v }

//go:norace
func (a *AtomicPointer[T]) Swap(v *T) *T {
	a.s.point(true)
	o := a.v
	a.v = v
	return o
}

//go:norace
func (a *AtomicPointer[T]) CompareAndSwap(o, n *T) bool {
	a.s.point(true)
	if a.v == o {
		a.v = n
		return true
	}
	return false
}

type AtomicValue struct {
	s atomicState
	v any
}

func (a *AtomicValue) Load() any   { a.s.point(false); return a.v }
func (a *AtomicValue) Store(v any) { a.s.point(true); a.v = v }
func (a *AtomicValue) Swap(v any) any {
	a.s.point(true)
	o := a.v
	a.v = v
	return o
}
func (a *AtomicValue) CompareAndSwap(o, n any) bool {
	a.s.point(true)
	if a.v == o {
		a.v = n
		return true
	}
	return false
}

//go:norace
func aLoad[T any](p *T) T {
	stateOf(unsafe.Pointer(p)).point(false)
	return *p
}

//go:norace
func aStore[T any](p *T, v T) { stateOf(unsafe.Pointer(p)).point(true); *p = v }

//go:norace
func aAdd[T integer](p *T, d T) T {
	stateOf(unsafe.Pointer(p)).point(true)
	*p += d
	return *p
}

//go:norace
func aSwap[T any](p *T, v T) T {
	stateOf(unsafe.Pointer(p)).point(true)
	o := *p
	*p = v
	return o
}

//go:norace
func aCAS[T comparable](p *T, o, n T) bool {
	stateOf(unsafe.Pointer(p)).point(true)
	if *p == o {
		*p = n
		return true
	}
	return false
}

func AtomicLoadInt32(p *int32) int32                         { return aLoad(p) }
func AtomicLoadInt64(p *int64) int64                         { return aLoad(p) }
func AtomicLoadUint32(p *uint32) uint32                      { return aLoad(p) }
func AtomicLoadUint64(p *uint64) uint64                      { return aLoad(p) }
func AtomicStoreInt32(p *int32, v int32)                     { aStore(p, v) }
func AtomicStoreInt64(p *int64, v int64)                     { aStore(p, v) }
func AtomicStoreUint32(p *uint32, v uint32)                  { aStore(p, v) }
func AtomicStoreUint64(p *uint64, v uint64)                  { aStore(p, v) }
func AtomicAddInt32(p *int32, d int32) int32                 { return aAdd(p, d) }
func AtomicAddInt64(p *int64, d int64) int64                 { return aAdd(p, d) }
func AtomicAddUint32(p *uint32, d uint32) uint32             { return aAdd(p, d) }
func AtomicAddUint64(p *uint64, d uint64) uint64             { return aAdd(p, d) }
func AtomicSwapInt32(p *int32, v int32) int32                { return aSwap(p, v) }
func AtomicSwapInt64(p *int64, v int64) int64                { return aSwap(p, v) }
func AtomicSwapUint32(p *uint32, v uint32) uint32            { return aSwap(p, v) }
func AtomicSwapUint64(p *uint64, v uint64) uint64            { return aSwap(p, v) }
func AtomicCompareAndSwapInt32(p *int32, o, n int32) bool    { return aCAS(p, o, n) }
func AtomicCompareAndSwapInt64(p *int64, o, n int64) bool    { return aCAS(p, o, n) }
func AtomicCompareAndSwapUint32(p *uint32, o, n uint32) bool { return aCAS(p, o, n) }
func AtomicCompareAndSwapUint64(p *uint64, o, n uint64) bool { return aCAS(p, o, n) }
