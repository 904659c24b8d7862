package vs

import "unsafe"

// Table maps small sets of keys to values. The engine and the harness use it instead of a map: the runtime reports map
// accesses to the race detector even on behalf of code that is not instrumented.
type Table[K comparable, V any] struct {
	keys []K
	vals []V
}

//go:norace
func (t *Table[K, V]) Get(k K) (v V, ok bool) {
	for i := range t.keys {
		if t.keys[i] == k {
			return t.vals[i], true
		}
	}
	return
}

//go:norace
func (t *Table[K, V]) Set(k K, v V) {
	for i := range t.keys {
		if t.keys[i] == k {
			t.vals[i] = v
			return
		}
	}
	t.keys, t.vals = append(t.keys, k), append(t.vals, v)
}

//go:norace
func (t *Table[K, V]) Delete(k K) {
	for i := range t.keys {
		if t.keys[i] == k {
			t.keys = append(t.keys[:i], t.keys[i+1:]...)
			t.vals = append(t.vals[:i], t.vals[i+1:]...)
			return
		}
	}
}

//go:norace
func (t *Table[K, V]) Len() int { return len(t.keys) }

//go:norace
func (t *Table[K, V]) Keys() []K { return t.keys }

// ptrTable is an open-addressing hash table keyed by address.
type ptrTable[V any] struct {
	keys []unsafe.Pointer
	vals []V
	n    int
}

//go:norace
func (t *ptrTable[V]) slot(p unsafe.Pointer) int {
	m := len(t.keys) - 1
	i := int((uintptr(p)>>3)*0x9E3779B1>>7) & m
	for t.keys[i] != nil && t.keys[i] != p {
		i = (i + 1) & m
	}
	return i
}

//go:norace
func (t *ptrTable[V]) get(p unsafe.Pointer) (v V, ok bool) {
	if t.n == 0 {
		return
	}
	i := t.slot(p)
	return t.vals[i], t.keys[i] == p
}

//go:norace
func (t *ptrTable[V]) set(p unsafe.Pointer, v V) {
	if 2*t.n >= len(t.keys) {
		o := *t
		size := 2 * len(o.keys)
		if size == 0 {
			size = 32
		}
		t.keys, t.vals = make([]unsafe.Pointer, size), make([]V, size)
		for i, k := range o.keys {
			if k != nil {
				j := t.slot(k)
				t.keys[j], t.vals[j] = k, o.vals[i]
			}
		}
	}
	i := t.slot(p)
	if t.keys[i] == nil {
		t.keys[i] = p
		t.n++
	}
	t.vals[i] = v
}
