package vsched

import (
	"unsafe"

	"fmt"
	"sort"
)

// MapIter goes over a map in an order that is chosen once per execution:
// ascending or descending.
type MapIter[K comparable, V any] struct {
	m    map[K]V
	keys []K
}

func newIter[K comparable, V any](m map[K]V) *MapIter[K, V] {
	it := &MapIter[K, V]{m: m}
	for k := range m {
		it.keys = append(it.keys, k)
	}
	s := active
	if s == nil || s.abort {
		return it
	}
	window(m, false)
	if len(it.keys) < 2 {
		return it
	}
	names := map[K]string{}
	for _, k := range it.keys {
		names[k] = fmt.Sprintf("%v", k)
		if n, ok := s.keys[k]; ok { // pointers by age
			names[k] = fmt.Sprint(n)
		}
		if len(names[k]) < 20 { // numbers by size
			names[k] = fmt.Sprintf("%20s", names[k])
		}
	}
	if s.order == 0 {
		s.order = 1 + s.c.Choose(2)
	}
	sort.Slice(it.keys, func(a, b int) bool {
		return (names[it.keys[a]] < names[it.keys[b]]) == (s.order == 1)
	})
	return it
}

// MapIter0 starts a range over m.
func MapIter0[K comparable, V any](m map[K]V) *MapIter[K, V] { return newIter(m) }

// MapIter1 starts a range over m with a key.
func MapIter1[K comparable, V any](m map[K]V) (it *MapIter[K, V], k K) { return newIter(m), k }

// MapIter2 starts a range over m with a key and a value.
func MapIter2[K comparable, V any](m map[K]V) (it *MapIter[K, V], k K, v V) {
	return newIter(m), k, v
}

// Next goes to the next entry that still exists.
func (it *MapIter[K, V]) Next(k *K, v *V) bool {
	for len(it.keys) > 0 {
		window(it.m, false)
		key := it.keys[0]
		it.keys = it.keys[1:]
		x, ok := it.m[key]
		if !ok && key == key {
			continue
		}
		if k != nil {
			*k = key
		}
		if v != nil {
			*v = x
		}
		return true
	}
	return false
}

// Key notes a pointer that becomes the key of a map.
func Key[K comparable](k K) K {
	if s := active; s != nil && !s.abort {
		if _, ok := s.keys[k]; !ok {
			if s.keys == nil {
				s.keys = map[any]int{}
			}
			s.keys[k] = len(s.keys)
		}
	}
	return k
}

// use counts the threads within an access to a map.
type use struct{ r, w int }

func window[M ~map[K]V, K comparable, V any](m M, w bool) M {
	s := active
	p := *(*unsafe.Pointer)(unsafe.Pointer(&m))
	if s == nil || s.abort || !s.opt.Fine || p == nil {
		return m
	}
	u := s.uses[p]
	if u == nil {
		u = &use{}
		if s.uses == nil {
			s.uses = map[unsafe.Pointer]*use{}
		}
		s.uses[p] = u
	}
	if u.w > 0 || w && u.r > 0 {
		Fail("fatal error: concurrent accesses to a map (%T)%s", m, s.dump())
	}
	n := &u.r
	if w {
		n = &u.w
	}
	*n++
	s.reschedule(false)
	*n--
	return m
}

// MR is a map that is read; MW is a map that is written.
func MR[M ~map[K]V, K comparable, V any](m M) M { return window(m, false) }
func MW[M ~map[K]V, K comparable, V any](m M) M { return window(m, true) }

// Forget drops what is only kept to tell objects apart, before what is still
// reachable is looked at.
func Forget() {
	if s := active; s != nil {
		s.keys, s.uses = nil, nil
	}
}
