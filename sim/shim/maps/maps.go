// Package maps is maps with a seeded order.
package maps

import (
	"iter"
	p "maps"

	"verif/sim/simrt"
)

func All[Map ~map[K]V, K comparable, V any](m Map) iter.Seq2[K, V] { return simrt.RangeMap(m) }
func Keys[Map ~map[K]V, K comparable, V any](m Map) iter.Seq[K] {
	return func(y func(K) bool) {
		for k := range simrt.RangeMap(m) {
			if !y(k) {
				return
			}
		}
	}
}
func Values[Map ~map[K]V, K comparable, V any](m Map) iter.Seq[V] {
	return func(y func(V) bool) {
		for _, v := range simrt.RangeMap(m) {
			if !y(v) {
				return
			}
		}
	}
}
func Clone[M ~map[K]V, K comparable, V any](m M) M                       { return p.Clone(m) }
func Collect[K comparable, V any](s iter.Seq2[K, V]) map[K]V             { return p.Collect(s) }
func Copy[M1 ~map[K]V, M2 ~map[K]V, K comparable, V any](d M1, s M2)     { p.Copy(d, s) }
func Insert[Map ~map[K]V, K comparable, V any](m Map, s iter.Seq2[K, V]) { p.Insert(m, s) }
func Equal[M1, M2 ~map[K]V, K, V comparable](a M1, b M2) bool            { return p.Equal(a, b) }
func DeleteFunc[M ~map[K]V, K comparable, V any](m M, f func(K, V) bool) {
	for k, v := range simrt.RangeMap(m) {
		if f(k, v) {
			delete(m, k)
		}
	}
}
func EqualFunc[M1 ~map[K]V1, M2 ~map[K]V2, K comparable, V1, V2 any](a M1, b M2, eq func(V1, V2) bool) bool {
	return p.EqualFunc(a, b, eq)
}
