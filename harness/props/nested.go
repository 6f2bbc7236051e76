//go:build all || C15 || C20 || C21 || C22 || C29 || C32

package props

import (
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/arr-ai/frozen"
	"github.com/arr-ai/frozen/lazy"
	"github.com/arr-ai/frozen/pkg/rel"

	"vh/pbt"
	"vh/univ"
)

// The world of nested values. An nv is a value by its canonical key, which is
// computed without the library, and by a way to make instances of it along
// different construction paths. Values are equal exactly if their keys are.
type nv[T any] struct {
	k    string
	make func(salt uint64) T
}

func nvAny[T any](v nv[T]) nv[any] {
	return nv[any]{v.k, func(salt uint64) any { return v.make(salt) }}
}

func uniq[T any](vs []nv[T]) []nv[T] {
	seen := map[string]bool{}
	var r []nv[T]
	for _, v := range vs {
		if !seen[v.k] {
			seen[v.k] = true
			r = append(r, v)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].k < r[j].k })
	return r
}

func join(tag string, ks []string) string {
	sort.Strings(ks)
	return tag + "{" + strings.Join(ks, " ") + "}"
}

// nvSet is the set of vs.
func nvSet[T any](tag string, vs []nv[T], extra nv[T]) nv[frozen.Set[T]] {
	vs = uniq(vs)
	var ks []string
	hasExtra := false
	for _, v := range vs {
		ks = append(ks, v.k)
		hasExtra = hasExtra || v.k == extra.k
	}
	return nv[frozen.Set[T]]{join(tag, ks), func(salt uint64) frozen.Set[T] {
		els := make([]T, len(vs))
		for i, v := range vs {
			els[i] = v.make(pbt.Mix(salt + uint64(i)))
		}
		shuffle(salt, els)
		switch salt % 5 {
		case 1:
			s := frozen.NewSet[T]().With(extra.make(salt))
			for _, e := range els {
				s = s.With(e)
			}
			if !hasExtra {
				s = s.Without(extra.make(salt + 1))
			}
			return s
		case 2:
			var b frozen.SetBuilder[T]
			b.Add(extra.make(salt))
			for _, e := range els {
				b.Add(e)
			}
			if !hasExtra {
				b.Remove(extra.make(salt + 1))
			}
			return b.Finish()
		case 3:
			k := len(els) / 2
			return frozen.NewSet(els[:k]...).Union(frozen.NewSet(els[k:]...))
		default:
			return frozen.NewSet(els...)
		}
	}}
}

type nkv[K, V any] struct {
	k nv[K]
	v nv[V]
}

// nvMap is a map; of entries with one key, the last counts.
func nvMap[K, V any](tag string, kvs []nkv[K, V], extra nv[K]) nv[frozen.Map[K, V]] {
	at := map[string]nkv[K, V]{}
	for _, kv := range kvs {
		at[kv.k.k] = kv
	}
	var ks, es []string
	for k, kv := range at {
		ks = append(ks, k)
		es = append(es, k+":"+kv.v.k)
	}
	sort.Strings(ks)
	_, hasExtra := at[extra.k]
	return nv[frozen.Map[K, V]]{join(tag, es), func(salt uint64) frozen.Map[K, V] {
		var els []frozen.KeyValue[K, V]
		for i, k := range ks {
			x := pbt.Mix(salt + uint64(i))
			els = append(els, frozen.KV(at[k].k.make(x), at[k].v.make(x>>7)))
		}
		shuffle(salt, els)
		switch {
		case salt%4 == 1:
			var m frozen.Map[K, V]
			for _, kv := range els {
				m = m.With(kv.Key, kv.Value)
			}
			return m
		case salt%4 == 2 && len(els) > 0:
			b := frozen.NewMapBuilder[K, V](3)
			b.Put(extra.make(salt), els[0].Value)
			for _, kv := range els {
				b.Put(kv.Key, els[0].Value)
				b.Put(kv.Key, kv.Value)
			}
			if !hasExtra {
				b.Remove(extra.make(salt + 1))
			}
			return b.Finish()
		case salt%4 == 3:
			k := len(els) / 2
			return frozen.NewMap(els[:k]...).Update(frozen.NewMap(els[k:]...))
		}
		return frozen.NewMap(els...)
	}}
}

func nvKV[K, V any](k nv[K], v nv[V]) nv[frozen.KeyValue[K, V]] {
	return nv[frozen.KeyValue[K, V]]{"K(" + k.k + ":" + v.k + ")", func(salt uint64) frozen.KeyValue[K, V] {
		return frozen.KV(k.make(salt), v.make(salt>>5))
	}}
}

func nvOf[T any](k string, v T) nv[T] { return nv[T]{k, func(uint64) T { return v }} }

func nvInt(i int) nv[int] { return nvOf(fmt.Sprint("i", i), i) }
func nvStr(s string) nv[string] {
	return nv[string]{fmt.Sprintf("%q", s), func(uint64) string { return string(append([]byte(nil), s...)) }}
}

var nvExtra = nvAny(nvStr("extra"))

// scalar draws a basic value; equal-looking ones of different types are
// different values.
func scalar(t *pbt.T) nv[any] {
	i := t.Intn(4)
	switch t.Weighted(4, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1) {
	case 0:
		return nvAny(nvInt(i))
	case 1:
		return nvAny(nvStr([]string{"", "a", "b", "1"}[i]))
	case 2:
		return nvOf[any](fmt.Sprint("i8:", i), int8(i))
	case 3:
		return nvOf[any](fmt.Sprint("u64:", i), uint64(i))
	case 4:
		return nvOf[any](fmt.Sprint("f:", i), float64(i))
	case 5:
		return nv[any]{fmt.Sprint("ElS", i), func(salt uint64) any {
			return univ.ElS{ID: i, H: uint64(i % 2), Tag: int(salt % 3)}
		}}
	case 6:
		return nv[any]{fmt.Sprint("ElA", i), func(salt uint64) any {
			return univ.ElA{ID: i, H: uint64(i % 2), Tag: int(salt % 3)}
		}}
	case 7:
		return nvOf[any](fmt.Sprint("pt", i), univ.Pt{X: i, Y: "y"})
	case 8:
		return nvOf[any](fmt.Sprint("arr", i), [2]int16{1, int16(i)})
	case 9:
		return nvOf[any](fmt.Sprint("bool", i%2), i%2 == 1)
	default:
		return nv[any]{fmt.Sprint("fz", i), func(salt uint64) any { // ±0 are equal
			if salt&1 == 1 && i == 0 {
				return float32(math.Copysign(0, -1))
			}
			return float32(i)
		}}
	}
}

// value draws a value nested up to the given depth.
func nested(t *pbt.T, depth int) nv[any] {
	if depth <= 0 || t.Chance(1, 3) {
		return scalar(t)
	}
	switch t.Weighted(4, 3, 2, 2, 2, 2, 2, 1, 1, 2, 1) {
	case 0:
		return nvAny(nestedSet(t, depth))
	case 1:
		return nvAny(nestedMap(t, depth))
	case 2:
		return nvAny(nestedKV(t, depth))
	case 3:
		return nvAny(nestedInts(t))
	case 4:
		return nestedLazy(t, depth)
	case 5:
		return nvAny(nestedTuple(t, depth))
	case 6:
		return nvAny(nestedRel(t, depth))
	case 7:
		return nvAny(intSet(t))
	case 8:
		return nvAny(setOfSets(t))
	case 9:
		return nvAny(setOfAnySets(t, depth))
	default:
		return nvAny(mapOfMaps(t, depth))
	}
}

func several[T any](t *pbt.T, f func() nv[T]) []nv[T] {
	var vs []nv[T]
	t.Loop(0, 2, 5, func(int) { vs = append(vs, f()) })
	return vs
}

func nestedSet(t *pbt.T, depth int) nv[frozen.Set[any]] {
	return nvSet("F", several(t, func() nv[any] { return nested(t, depth-1) }), nvExtra)
}

func nestedMap(t *pbt.T, depth int) nv[frozen.Map[any, any]] {
	var kvs []nkv[any, any]
	t.Loop(0, 2, 4, func(int) { kvs = append(kvs, nkv[any, any]{nested(t, depth-1), nested(t, depth-1)}) })
	return nvMap("M", kvs, nvExtra)
}

func nestedKV(t *pbt.T, depth int) nv[frozen.KeyValue[any, any]] {
	return nvKV(nested(t, depth-1), nested(t, depth-1))
}

func nestedInts(t *pbt.T) nv[frozen.IntSet[int]] {
	m := map[int]bool{}
	t.Loop(0, 2, 5, func(int) { m[[]int{0, 1, -1, 63, 64, -64, 1000}[t.Intn(7)]] = true })
	is := intList(m)
	return nv[frozen.IntSet[int]]{fmt.Sprint("I", is), func(salt uint64) frozen.IntSet[int] {
		if salt%2 == 0 {
			return frozen.NewIntSet(is...)
		}
		s := frozen.NewIntSet(77, 12345)
		for i := range is {
			s = s.With(is[len(is)-1-i])
		}
		return s.Without(12345).Without(77)
	}}
}

func nestedLazy(t *pbt.T, depth int) nv[any] {
	vs := uniq(several(t, func() nv[any] { return nested(t, depth-1) }))
	m := LM{}
	for _, v := range vs {
		m[v.k] = lv(v)
	}
	return nv[any](lvSet(m))
}

var attrs = []string{"a", "b", "c", "d"}

func nestedTuple(t *pbt.T, depth int) nv[rel.Tuple] {
	var kvs []nkv[string, any]
	t.Loop(0, 2, 4, func(int) { kvs = append(kvs, nkv[string, any]{nvStr(attrs[t.Intn(4)]), nested(t, depth-1)}) })
	return nvMap("T", kvs, nvStr("extra"))
}

func nestedRel(t *pbt.T, depth int) nv[rel.Relation] {
	return nvSet("R", several(t, func() nv[rel.Tuple] { return nestedTuple(t, depth-1) }),
		nvMap("T", []nkv[string, any]{{nvStr("extra"), nvExtra}}, nvStr("extra")))
}

func intSet(t *pbt.T) nv[frozen.Set[int]] {
	return nvSet("Si", several(t, func() nv[int] { return nvInt(t.Intn(4)) }), nvInt(99))
}

func setOfSets(t *pbt.T) nv[frozen.Set[frozen.Set[int]]] {
	return nvSet("SS", several(t, func() nv[frozen.Set[int]] { return intSet(t) }), nvSet("Si", []nv[int]{nvInt(99)}, nvInt(98)))
}

func setOfAnySets(t *pbt.T, depth int) nv[frozen.Set[frozen.Set[any]]] {
	return nvSet("SF", several(t, func() nv[frozen.Set[any]] { return nestedSet(t, depth-1) }), nvSet("F", []nv[any]{nvExtra}, nvAny(nvInt(98))))
}

func mapOfMaps(t *pbt.T, depth int) nv[frozen.Map[frozen.Map[any, any], frozen.Set[any]]] {
	var kvs []nkv[frozen.Map[any, any], frozen.Set[any]]
	t.Loop(0, 2, 4, func(int) {
		kvs = append(kvs, nkv[frozen.Map[any, any], frozen.Set[any]]{nestedMap(t, depth-1), nestedSet(t, depth-1)})
	})
	return nvMap("MM", kvs, nvMap("M", []nkv[any, any]{{nvExtra, nvExtra}}, nvExtra))
}

// canonV gives the canonical key of a real value, reading collections with
// Range only.
func canonV(v any) string {
	set := func(tag string, r anyIter) string { return join(tag, canons(r)) }
	switch v := v.(type) {
	case int:
		return fmt.Sprint("i", v)
	case string:
		return fmt.Sprintf("%q", v)
	case int8:
		return fmt.Sprint("i8:", v)
	case uint64:
		return fmt.Sprint("u64:", v)
	case float64:
		return fmt.Sprint("f:", v)
	case float32:
		return fmt.Sprint("fz", v+0)
	case bool:
		if v {
			return "bool1"
		}
		return "bool0"
	case univ.ElS:
		return fmt.Sprint("ElS", v.ID)
	case univ.ElA:
		return fmt.Sprint("ElA", v.ID)
	case univ.Pt:
		return fmt.Sprint("pt", v.X)
	case [2]int16:
		return fmt.Sprint("arr", v[1])
	case frozen.Set[any]:
		return set("F", v.Range())
	case lazy.Set:
		return set("", v.Range())
	case frozen.Map[any, any]:
		return canonMap("M", v)
	case frozen.KeyValue[any, any]:
		return "K(" + canonV(v.Key) + ":" + canonV(v.Value) + ")"
	case frozen.IntSet[int]:
		m := map[int]bool{}
		for r := v.Range(); r.Next(); {
			m[r.Value()] = true
		}
		return fmt.Sprint("I", intList(m))
	case rel.Tuple:
		return canonMap("T", v)
	case rel.Relation:
		return canonSet("R", v)
	case frozen.Set[int]:
		return canonSet("Si", v)
	case frozen.Set[frozen.Set[int]]:
		return canonSet("SS", v)
	case frozen.Set[frozen.Set[any]]:
		return canonSet("SF", v)
	case frozen.Map[frozen.Map[any, any], frozen.Set[any]]:
		return canonMap("MM", v)
	}
	return fmt.Sprintf("?%T %v", v, v)
}

func canons(r anyIter) []string {
	ks := []string{}
	for r.Next() {
		ks = append(ks, canonV(r.Value()))
		if len(ks) > 5000 {
			panic("a nested collection does not end")
		}
	}
	return ks
}

func canonSet[T any](tag string, s frozen.Set[T]) string {
	var ks []string
	for r := s.Range(); r.Next(); {
		ks = append(ks, canonV(r.Value()))
	}
	return join(tag, ks)
}

func canonMap[K, V any](tag string, m frozen.Map[K, V]) string {
	var ks []string
	for r := m.Range(); r.Next(); {
		ks = append(ks, canonV(r.Key())+":"+canonV(r.Value()))
	}
	return join(tag, ks)
}

// univOf turns values into a universe.
func univOf[T any](name string, vs []nv[T]) *univ.U[T] {
	vs = uniq(vs)
	at := map[string]int{}
	for i, v := range vs {
		at[v.k] = i
	}
	return &univ.U[T]{
		Name: name, N: len(vs), Reps: 12,
		Rep: func(i, r int) T { return vs[i].make(pbt.Mix(uint64(r)) >> 3) },
		Idx: func(v T) int {
			if i, in := at[canonV(v)]; in {
				return i
			}
			return -1
		},
	}
}

// nestedU draws a universe of one nested type: n values, some of them close
// relatives.
func nestedU[T any](t *pbt.T, name string, n int, gen func() nv[T]) *univ.U[T] {
	vs := []nv[T]{gen()}
	t.Loop(1, n, 3*n, func(int) { vs = append(vs, gen()) })
	u := univOf(name, vs)
	t.Class("nested:" + name)
	if t.Tracing() {
		for i, v := range uniq(vs) {
			t.Logf("value %d: %s", i, v.k)
		}
	}
	return u
}

func anyU(t *pbt.T, n int) *univ.U[any] {
	d := t.Range(1, 3)
	return nestedU(t, "any", n, func() nv[any] { return nested(t, d) })
}
