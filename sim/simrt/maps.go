package simrt

import (
	"cmp"
	"fmt"
	"iter"
	"reflect"
	"slices"
)

// order returns the canonical order of the keys, permuted by the running operation's map seed.
//
//go:norace
func order[K any](keys []K) []K {
	if len(keys) < 2 {
		return keys
	}
	sortKeys(keys)
	t := cur
	if on && t != nil && t.mapOn {
		MapPerms++
		for i := len(keys) - 1; i > 0; i-- {
			j := t.mapRng.Intn(i + 1)
			keys[i], keys[j] = keys[j], keys[i]
		}
	}
	return keys
}

// MapPerms counts the map iterations whose order was permuted.
var MapPerms int

//go:norace
func sortKeys[K any](keys []K) {
	var zero K
	switch reflect.TypeOf(&zero).Elem().Kind() {
	case reflect.String:
		slices.SortFunc(keys, func(a, b K) int {
			return cmp.Compare(reflect.ValueOf(a).String(), reflect.ValueOf(b).String())
		})
	case reflect.Uint, reflect.Uint64, reflect.Uint32, reflect.Uint16, reflect.Uint8:
		slices.SortFunc(keys, func(a, b K) int {
			return cmp.Compare(reflect.ValueOf(a).Uint(), reflect.ValueOf(b).Uint())
		})
	case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int16, reflect.Int8:
		slices.SortFunc(keys, func(a, b K) int {
			return cmp.Compare(reflect.ValueOf(a).Int(), reflect.ValueOf(b).Int())
		})
	default:
		type keyed struct {
			s string
			k K
		}
		ks := make([]keyed, len(keys))
		for i, k := range keys {
			ks[i] = keyed{keyString(k), k}
		}
		slices.SortStableFunc(ks, func(a, b keyed) int { return cmp.Compare(a.s, b.s) })
		for i := range ks {
			keys[i] = ks[i].k
		}
	}
}

//go:norace
func keyString(k any) string {
	switch x := k.(type) {
	case reflect.Type:
		return x.PkgPath() + "|" + x.String()
	case reflect.Value:
		return "value"
	}
	return fmt.Sprintf("%T|%#v", k, k)
}

// MapRange stands for ranging over a map.
func MapRange[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		var odd []oddEntry[K, V]
		for _, k := range order(mapKeys(m)) {
			v, ok := m[k]
			if !ok {
				if k == k {
					continue
				}
				// Keys that do not equal themselves, such as NaN, cannot be looked up.
				if odd == nil {
					odd = oddEntries(m)
				}
				if v, ok = takeOdd(odd, k); !ok {
					continue
				}
			}
			if !yield(k, v) {
				return
			}
		}
	}
}

type oddEntry[K comparable, V any] struct {
	k     K
	v     V
	taken bool
}

func oddEntries[M ~map[K]V, K comparable, V any](m M) (odd []oddEntry[K, V]) {
	odd = []oddEntry[K, V]{}
	for k, v := range m {
		if k != k {
			odd = append(odd, oddEntry[K, V]{k: k, v: v})
		}
	}
	slices.SortStableFunc(odd, func(a, b oddEntry[K, V]) int { return cmp.Compare(keyString(a.k), keyString(b.k)) })
	return
}

func takeOdd[K comparable, V any](odd []oddEntry[K, V], k K) (v V, ok bool) {
	s := keyString(k)
	for i := range odd {
		if !odd[i].taken && keyString(odd[i].k) == s {
			odd[i].taken = true
			return odd[i].v, true
		}
	}
	return
}

func mapKeys[M ~map[K]V, K comparable, V any](m M) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	return keys
}

// MapsKeys stands for maps.Keys.
func MapsKeys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		for k := range MapRange(m) {
			if !yield(k) {
				return
			}
		}
	}
}

// MapsValues stands for maps.Values.
func MapsValues[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		for _, v := range MapRange(m) {
			if !yield(v) {
				return
			}
		}
	}
}

// MapsAll stands for maps.All.
func MapsAll[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] { return MapRange(m) }

// MapIter stands for reflect.MapIter.
type MapIter struct {
	m       reflect.Value
	entries []reflectEntry
	i       int
}

type reflectEntry struct {
	s    string
	k, v reflect.Value
}

// ReflectMapRange stands for reflect.Value.MapRange.
func ReflectMapRange(v reflect.Value) *MapIter {
	return &MapIter{m: v, entries: reflectEntries(v), i: -1}
}

// ReflectMapKeys stands for reflect.Value.MapKeys.
func ReflectMapKeys(v reflect.Value) []reflect.Value {
	entries := reflectEntries(v)
	keys := make([]reflect.Value, len(entries))
	for i := range entries {
		keys[i] = entries[i].k
	}
	return keys
}

func reflectEntries(v reflect.Value) []reflectEntry {
	var entries []reflectEntry
	for it := v.MapRange(); it.Next(); {
		entries = append(entries, reflectEntry{fmt.Sprintf("%v", it.Key()), it.Key(), it.Value()})
	}
	slices.SortStableFunc(entries, func(a, b reflectEntry) int { return cmp.Compare(a.s, b.s) })
	idx := make([]int, len(entries))
	for i := range entries {
		idx[i] = i
	}
	out := make([]reflectEntry, len(entries))
	for i, j := range order(idx) {
		out[i] = entries[j]
	}
	return out
}

func (it *MapIter) Next() bool {
	for {
		it.i++
		if it.i >= len(it.entries) {
			return false
		}
		e := &it.entries[it.i]
		if !e.k.Comparable() || !e.k.Equal(e.k) {
			return true
		}
		if v := it.m.MapIndex(e.k); v.IsValid() {
			e.v = v
			return true
		}
	}
}

func (it *MapIter) Key() reflect.Value   { return it.entries[it.i].k }
func (it *MapIter) Value() reflect.Value { return it.entries[it.i].v }
