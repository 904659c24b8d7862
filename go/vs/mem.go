package vs

import "unsafe"

// Accesses to shared memory are scheduling points, too, so that the interleavings of code that does not synchronise are
// enumerated. Accesses that are ordered by synchronisation cost no additional executions.

func memOp(p unsafe.Pointer, write bool) {
	x := cur
	if x == nil || x.abort {
		return
	}
	if x.ex.NoSched {
		return
	}
	id, ok := x.mem.get(p)
	if !ok {
		id = x.newObj("memory")
		x.mem.set(p, id)
	}
	x.point(op{objs: []objRef{{id, write}}, desc: "memory access"})
}

//go:norace
func mapPtr[M ~map[K]V, K comparable, V any](m M) unsafe.Pointer {
	return *(*unsafe.Pointer)(unsafe.Pointer(&m))
}

// Rd is a read access to *p, Wr a write access.
//
//go:norace
func Rd[T any](p *T) *T { memOp(unsafe.Pointer(p), false); return p }

//go:norace
func Wr[T any](p *T) *T { memOp(unsafe.Pointer(p), true); return p }

// St stores a value that is evaluated before the access.
//
//go:norace
func St[T any](p *T) func(T) {
	return func(v T) {
		memOp(unsafe.Pointer(p), true)
		*p = v
	}
}

// RdMap is a read access to the map *p, WrMap a write access.
//
//go:norace
func RdMap[M ~map[K]V, K comparable, V any](p *M) M {
	memOp(unsafe.Pointer(p), false)
	m := *p
	if m != nil {
		memOp(mapPtr(m), false)
	}
	return m
}

//go:norace
func WrMap[M ~map[K]V, K comparable, V any](p *M) M {
	memOp(unsafe.Pointer(p), false)
	m := *p
	if m != nil {
		memOp(mapPtr(m), true)
	}
	return m
}

//go:norace
func StMap[M ~map[K]V, K comparable, V any](p *M) func(K, V) {
	return func(k K, v V) { WrMap[M, K, V](p)[k] = v }
}

//go:norace
func DelMap[M ~map[K]V, K comparable, V any](p *M) func(K) {
	return func(k K) { delete(WrMap[M, K, V](p), k) }
}
