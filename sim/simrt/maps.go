package simrt

import (
	"cmp"
	"fmt"
	"iter"
	"reflect"
	"sort"
)

// SortedKeys returns the keys of a map in a stable order.
func SortedKeys[K comparable, V any](m map[K]V) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.SliceStable(keys, func(i, j int) bool { return lessKey(any(keys[i]), any(keys[j])) })
	return keys
}

func lessKey(a, b any) bool {
	switch x := a.(type) {
	case string:
		if y, ok := b.(string); ok {
			return x < y
		}
	case int:
		if y, ok := b.(int); ok {
			return x < y
		}
	}
	ra, rb := reflect.ValueOf(a), reflect.ValueOf(b)
	if ra.IsValid() && rb.IsValid() && ra.Kind() == rb.Kind() {
		switch {
		case ra.CanInt():
			return cmp.Less(ra.Int(), rb.Int())
		case ra.CanUint():
			return cmp.Less(ra.Uint(), rb.Uint())
		case ra.CanFloat():
			return cmp.Less(ra.Float(), rb.Float())
		case ra.Kind() == reflect.String:
			return ra.String() < rb.String()
		}
	}
	return fmt.Sprintf("%T%v", a, a) < fmt.Sprintf("%T%v", b, b)
}

// RangeMap iterates a map in an order decided by the run's seed.
func RangeMap[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		keys := SortedKeys(map[K]V(m))
		if s := cur; s != nil && s.cfg.MapSeed != 0 && len(keys) > 1 {
			s.mapN++
			r := NewRand(Mix(s.cfg.MapSeed, s.mapN))
			p := r.Perm(len(keys))
			out := make([]K, len(keys))
			for i, j := range p {
				out[i] = keys[j]
			}
			keys = out
		}
		for _, k := range keys {
			v, ok := MR(m)[k]
			if !ok {
				continue // deleted meanwhile
			}
			if !yield(k, v) {
				return
			}
		}
	}
}

// PoolDrop decides whether a pooled object was dropped (a GC happened).
func PoolDrop() bool {
	s := cur
	if s == nil || s.cfg.PoolSeed == 0 {
		return false
	}
	s.poolN++
	return Mix(s.cfg.PoolSeed, s.poolN)%8 == 0
}

// Draw gives the shims (rand) a deterministic number.
func Draw() uint64 {
	s := cur
	if s == nil {
		return 4
	}
	s.poolN++
	return Mix(s.cfg.MapSeed^0xabcdef, s.poolN)
}
