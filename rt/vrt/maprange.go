package vrt

import (
	"fmt"
	"sort"
)

// MapIter iterates over a map in an order the explorer decides.
type MapIter[K comparable, V any] struct {
	m    map[K]V
	keys []K
}

// RangeMap starts a range loop over a map: iterator, first key, value, ok.
func RangeMap[M ~map[K]V, K comparable, V any](m M) (*MapIter[K, V], K, V, bool) {
	it := &MapIter[K, V]{m: m}
	if len(m) > 0 {
		type ks struct {
			s string
			k K
		}
		var a []ks
		for k := range m {
			a = append(a, ks{fmt.Sprintf("%#v", any(k)), k})
		}
		sort.Slice(a, func(i, j int) bool { return a[i].s < a[j].s })
		for _, x := range a {
			it.keys = append(it.keys, x.k)
		}
	}
	k, v, ok := it.Next()
	return it, k, v, ok
}

// RangeMapK is RangeMap for loops that use no value.
func RangeMapK[M ~map[K]V, K comparable, V any](m M) (*MapIter[K, V], K, bool) {
	it, k, _, ok := RangeMap(m)
	return it, k, ok
}

// Next yields the next entry still present.
func (it *MapIter[K, V]) Next() (K, V, bool) {
	for len(it.keys) > 0 {
		i := 0
		if n := len(it.keys); n > 1 && Active() {
			if n > 3 {
				n = 3 // alternatives: the first, second or last remaining key
			}
			i = ChooseDev(n, "map order")
			if i == 2 {
				i = len(it.keys) - 1
			}
		}
		k := it.keys[i]
		it.keys = append(it.keys[:i:i], it.keys[i+1:]...)
		if v, ok := it.m[k]; ok {
			return k, v, true
		}
	}
	var k K
	var v V
	return k, v, false
}

// NextK is Next without the value.
func (it *MapIter[K, V]) NextK() (K, bool) {
	k, _, ok := it.Next()
	return k, ok
}
