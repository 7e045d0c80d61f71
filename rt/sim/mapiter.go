package sim

import (
	"reflect"
	"sort"
)

// idOf numbers keys in order of first appearance.
func (s *Sim) idOf(k any) int {
	if s.ids == nil {
		s.ids = map[any]int{}
	}
	id, ok := s.ids[k]
	if !ok {
		id = len(s.ids) + 1
		s.ids[k] = id
	}
	return id
}

// less is a canonical order on map keys.
func (s *Sim) less(a, b reflect.Value) int {
	if a.Kind() == reflect.Interface {
		if a.IsNil() || b.IsNil() {
			return cmpInt(b2i(!a.IsNil()), b2i(!b.IsNil()))
		}
		a, b = a.Elem(), b.Elem()
		if a.Type() != b.Type() {
			x, y := a.Type().String(), b.Type().String()
			if x < y {
				return -1
			} else if x > y {
				return 1
			}
			return 0
		}
	}
	switch a.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return cmpInt(a.Int(), b.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		switch {
		case a.Uint() < b.Uint():
			return -1
		case a.Uint() > b.Uint():
			return 1
		}
		return 0
	case reflect.Float32, reflect.Float64:
		switch {
		case a.Float() < b.Float():
			return -1
		case a.Float() > b.Float():
			return 1
		}
		return 0
	case reflect.String:
		switch {
		case a.String() < b.String():
			return -1
		case a.String() > b.String():
			return 1
		}
		return 0
	case reflect.Bool:
		return cmpInt(b2i(a.Bool()), b2i(b.Bool()))
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if c := s.less(a.Field(i), b.Field(i)); c != 0 {
				return c
			}
		}
		return 0
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if c := s.less(a.Index(i), b.Index(i)); c != 0 {
				return c
			}
		}
		return 0
	case reflect.Pointer, reflect.Chan, reflect.UnsafePointer:
		return cmpInt(int64(s.idOf(a.UnsafePointer())), int64(s.idOf(b.UnsafePointer())))
	}
	return 0
}

func cmpInt(a, b int64) int {
	if a < b {
		return -1
	} else if a > b {
		return 1
	}
	return 0
}
func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

// MapIter replaces the range clause over a map: canonical order, permuted by a
// recorded choice.
type MapIter[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
	k    K
	v    V
	loc  uint32
	late bool
}

func NewMapIter[M ~map[K]V, K comparable, V any](m M, loc uint32) *MapIter[K, V] {
	it := &MapIter[K, V]{m: m, loc: loc}
	it.keys = MapKeys(m)
	return it
}

func (it *MapIter[K, V]) Next() bool {
	for {
		if it.i == len(it.keys) {
			it.more()
		}
		if it.i >= len(it.keys) {
			return false
		}
		if S != nil {
			Point("map iteration")
			noteMap(mapPtr(it.m), aRead, it.loc)
		}
		k := it.keys[it.i]
		it.i++
		v, ok := it.m[k]
		if ok {
			it.k, it.v = k, v
			return true
		}
	}
}

// more decides, once, at the end of the iteration, whether entries created
// while it ran are produced too: the language allows both.
func (it *MapIter[K, V]) more() {
	s := S
	if it.late || s == nil || s.cur.dying {
		return
	}
	it.late = true
	n := 0
	for _, k := range it.keys {
		if _, ok := it.m[k]; ok {
			n++
		}
	}
	if n >= len(it.m) {
		return
	}
	s.cur.step++
	if s.opt.Replay {
		if v, ok := s.replayed(KMap); !ok || v == 0 {
			return
		}
	} else {
		if s.fair || !s.rng.Chance(s.opt.Strat.PMap) {
			return
		}
	}
	s.record(KMap, 1)
	old := make(map[K]bool, len(it.keys))
	for _, k := range it.keys {
		old[k] = true
	}
	for _, k := range MapKeys(it.m) {
		if !old[k] {
			it.keys = append(it.keys, k)
		}
	}
}
func (it *MapIter[K, V]) Key() K   { return it.k }
func (it *MapIter[K, V]) Value() V { return it.v }

// MapKeys lists the keys of m in the order chosen by the simulator.
func MapKeys[M ~map[K]V, K comparable, V any](m M) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	s := S
	if s == nil || len(keys) < 2 {
		return keys
	}
	switch ks := any(keys).(type) {
	case []int:
		sort.Ints(ks)
	case []string:
		sort.Strings(ks)
	default:
		rv := reflect.ValueOf(keys)
		idx := make([]int, len(keys))
		for i := range idx {
			idx[i] = i
		}
		sort.Slice(idx, func(i, j int) bool { return s.less(rv.Index(idx[i]), rv.Index(idx[j])) < 0 })
		sorted := make([]K, len(keys))
		for i, j := range idx {
			sorted[i] = keys[j]
		}
		keys = sorted
	}
	if s.cur.dying {
		return keys
	}
	s.cur.step++
	var seed int64
	if s.opt.Replay {
		v, ok := s.replayed(KMap)
		if !ok {
			return keys
		}
		seed = v
	} else {
		if s.fair || !s.rng.Chance(s.opt.Strat.PMap) {
			return keys
		}
		seed = int64(s.rng.U64() >> 16)
	}
	s.record(KMap, seed)
	s.Stats.MapShuffles++
	r := NewRand(uint64(seed))
	for i := len(keys) - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		keys[i], keys[j] = keys[j], keys[i]
	}
	return keys
}

// register numbers the pointers inside a key, in order of first appearance.
func (s *Sim) register(v reflect.Value) {
	switch v.Kind() {
	case reflect.Interface:
		if !v.IsNil() {
			s.register(v.Elem())
		}
	case reflect.Pointer, reflect.Chan, reflect.UnsafePointer:
		s.idOf(v.UnsafePointer())
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			s.register(v.Field(i))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			s.register(v.Index(i))
		}
	}
}
