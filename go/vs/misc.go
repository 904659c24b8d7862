package vs

import (
	"fmt"
	"reflect"
	"sort"
	"strconv"
)

// Go replaces the go statement. The thread does not keep an execution alive.
func Go(fn func()) {
	if cur == nil {
		go fn()
		return
	}
	if cur.abort {
		return
	}
	name := cur.running.name + "/go" + strconv.Itoa(len(cur.threads))
	cur.spawn(name, true, fn)
}

// Entry is one element of a map under iteration.
type Entry[K comparable, V any] struct {
	m map[K]V
	K K
}

// Live reports whether the element is still in the map.
func (e Entry[K, V]) Live() bool { _, ok := e.m[e.K]; return ok }

// V returns the value.
func (e Entry[K, V]) V() V { return e.m[e.K] }

// Entries replaces iteration over a map: sorted by key, or in the orders enumerated by the explorer.
func Entries[K comparable, V any](m map[K]V) []Entry[K, V] {
	r := make([]Entry[K, V], 0, len(m))
	for k := range m {
		r = append(r, Entry[K, V]{m, k})
	}
	sort.Slice(r, func(i, j int) bool { return lessKey(reflect.ValueOf(r[i].K), reflect.ValueOf(r[j].K)) })
	orders := mapOrders(len(r))
	if orders <= 1 {
		return r
	}
	o := ChooseGlobal(orders, "map order")
	p := permutation(len(r), o)
	q := make([]Entry[K, V], len(r))
	for i := range p {
		q[i] = r[p[i]]
	}
	return q
}

func mapOrders(n int) int {
	if cur == nil || !cur.ex.MapOrder || cur.abort || n < 2 {
		return 1
	}
	switch n {
	case 2:
		return 2
	case 3:
		return 6
	}
	return 2
}

func permutation(n, o int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	if n == 3 {
		return [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}[o]
	}
	if o == 1 {
		for i := range p {
			p[i] = n - 1 - i
		}
	}
	return p
}

func lessKey(a, b reflect.Value) bool {
	switch a.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() < b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return a.Uint() < b.Uint()
	case reflect.String:
		return a.String() < b.String()
	case reflect.Bool:
		return !a.Bool() && b.Bool()
	case reflect.Float32, reflect.Float64:
		return a.Float() < b.Float()
	}
	return fmt.Sprint(a) < fmt.Sprint(b)
}

// ---- random numbers (deterministic per execution) ----------------------------------------------------------------

func rnd() uint64 {
	if cur == nil {
		return 4
	}
	cur.rnd = cur.rnd*6364136223846793005 + 1442695040888963407
	return cur.rnd >> 11
}

func RandUint32() uint32       { return uint32(rnd()) }
func RandUint64() uint64       { return rnd()<<20 ^ rnd() }
func RandInt() int             { return int(rnd() & (1<<62 - 1)) }
func RandInt31() int32         { return int32(rnd() & (1<<31 - 1)) }
func RandInt63() int64         { return int64(rnd() & (1<<62 - 1)) }
func RandIntn(n int) int       { return int(rnd() % uint64(n)) }
func RandInt31n(n int32) int32 { return int32(rnd() % uint64(n)) }
func RandInt63n(n int64) int64 { return int64(rnd() % uint64(n)) }
func RandFloat64() float64     { return float64(rnd()&(1<<52-1)) / (1 << 52) }
func RandSeed(int64)           {}

// Global registers a package-level variable of the code under test so that every execution starts with its initial
// value.
func Global(p any) {
	v := reflect.ValueOf(p).Elem()
	restore := snapshot(v, 2)
	OnReset(restore)
}

func snapshot(v reflect.Value, depth int) func() {
	save := reflect.New(v.Type()).Elem()
	save.Set(v)
	var inner []func()
	switch v.Kind() {
	case reflect.Map:
		if !v.IsNil() {
			m := v
			keys := v.MapKeys()
			vals := make([]reflect.Value, len(keys))
			for i, k := range keys {
				vals[i] = v.MapIndex(k)
			}
			orig := reflect.New(v.Type()).Elem()
			orig.Set(m)
			inner = append(inner, func() {
				for _, k := range orig.MapKeys() {
					orig.SetMapIndex(k, reflect.Value{})
				}
				for i, k := range keys {
					orig.SetMapIndex(k, vals[i])
				}
			})
		}
	case reflect.Slice:
		if n := v.Cap(); n > 0 {
			full := v.Slice3(0, n, n)
			cp := reflect.MakeSlice(v.Type(), n, n)
			reflect.Copy(cp, full)
			inner = append(inner, func() { reflect.Copy(full, cp) })
		}
	case reflect.Ptr:
		if !v.IsNil() && depth > 0 && v.Elem().CanSet() {
			inner = append(inner, snapshot(v.Elem(), depth-1))
		}
	}
	return func() {
		v.Set(save)
		for _, f := range inner {
			f()
		}
	}
}
