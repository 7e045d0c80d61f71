// Package maps replaces the standard maps package inside the simulator:
// iteration order is the simulator's.
package maps

import (
	"iter"
	"maps"

	"zz.test/sim"
)

func Keys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		for it := sim.NewMapIter(m, 0); it.Next(); {
			if !yield(it.Key()) {
				return
			}
		}
	}
}
func Values[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		for it := sim.NewMapIter(m, 0); it.Next(); {
			if !yield(it.Value()) {
				return
			}
		}
	}
}
func All[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		for it := sim.NewMapIter(m, 0); it.Next(); {
			if !yield(it.Key(), it.Value()) {
				return
			}
		}
	}
}
func Insert[M ~map[K]V, K comparable, V any](m M, s iter.Seq2[K, V]) {
	s(func(k K, v V) bool { sim.MW(m, 0)[k] = v; return true })
}
func Collect[K comparable, V any](s iter.Seq2[K, V]) map[K]V { return maps.Collect(s) }
func Equal[M1, M2 ~map[K]V, K, V comparable](a M1, b M2) bool {
	return maps.Equal(sim.MR(a, 0), sim.MR(b, 0))
}
func EqualFunc[M1 ~map[K]V1, M2 ~map[K]V2, K comparable, V1, V2 any](a M1, b M2, eq func(V1, V2) bool) bool {
	if len(a) != len(b) {
		return false
	}
	for it := sim.NewMapIter(a, 0); it.Next(); {
		if v2, ok := b[it.Key()]; !ok || !eq(it.Value(), v2) {
			return false
		}
	}
	return true
}
func Clone[M ~map[K]V, K comparable, V any](m M) M { return maps.Clone(sim.MR(m, 0)) }
func Copy[M1 ~map[K]V, M2 ~map[K]V, K comparable, V any](dst M1, src M2) {
	maps.Copy(sim.MW(dst, 0), sim.MR(src, 0))
}
func DeleteFunc[M ~map[K]V, K comparable, V any](m M, del func(K, V) bool) {
	for it := sim.NewMapIter(m, 0); it.Next(); {
		if del(it.Key(), it.Value()) {
			delete(sim.MW(m, 0), it.Key())
		}
	}
}
