//go:build go1.22

package simrt

import (
	"fmt"
	"sort"
)

// Iter iterates over a map in a seeded order: the rewritten form of
// "for k, v := range m".
type Iter[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
}

var mapRanges, mapRangesMulti int64

// MapRanges returns how many map iterations were ordered by the simulator, and
// how many of them had more than one entry.
func MapRanges() (int64, int64) { return mapRanges, mapRangesMulti }

func newIter[K comparable, V any](m map[K]V) *Iter[K, V] {
	it := &Iter[K, V]{m: m}
	mapRanges++
	if len(m) == 0 {
		return it
	}
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	if len(keys) > 1 {
		mapRangesMulti++
		switch ks := any(keys).(type) {
		case []string:
			sort.Strings(ks)
		case []int:
			sort.Ints(ks)
		default:
			strs := make([]string, len(keys))
			idx := make([]int, len(keys))
			for i, k := range keys {
				strs[i] = fmt.Sprintf("%#v", k)
				idx[i] = i
			}
			sort.Slice(idx, func(a, b int) bool { return strs[idx[a]] < strs[idx[b]] })
			sorted := make([]K, len(keys))
			for i, j := range idx {
				sorted[i] = keys[j]
			}
			keys = sorted
		}
		for i := len(keys) - 1; i > 0; i-- {
			j := mapRng.Intn(i + 1)
			keys[i], keys[j] = keys[j], keys[i]
		}
	}
	it.keys = keys
	return it
}

func (it *Iter[K, V]) Next(k *K, v *V) bool {
	for it.i < len(it.keys) {
		key := it.keys[it.i]
		it.i++
		val, ok := it.m[key]
		if !ok {
			continue // deleted during the iteration
		}
		if k != nil {
			*k = key
		}
		if v != nil {
			*v = val
		}
		return true
	}
	return false
}

func Start2[M ~map[K]V, K comparable, V any](m M) (K, V, *Iter[K, V]) {
	var k K
	var v V
	return k, v, newIter(map[K]V(m))
}

func Start1[M ~map[K]V, K comparable, V any](m M) (K, *Iter[K, V]) {
	var k K
	return k, newIter(map[K]V(m))
}

func Start0[M ~map[K]V, K comparable, V any](m M) *Iter[K, V] {
	return newIter(map[K]V(m))
}
