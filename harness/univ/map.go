package univ

import (
	"fmt"
	"reflect"
	"vh/pbt"

	"github.com/arr-ai/frozen"
)

// KV names a key and a value.
type KV struct{ K, V Ref }

// MapU builds maps from one universe to another.
type MapU interface {
	Name() string
	Keys() SetU
	Vals() SetU
	Comparable() bool // values support Equal
	Hashable() bool   // values support Hash
	GoMaps() bool     // FromGo and Go work
	Zero() Map
	New(kvs ...KV) Map
	NewMutating(kvs ...KV) Map
	FromKeys(keys Set, f func(k int) Ref) Map
	FromGo(kvs ...KV) Map // keys must be distinct
	Builder(capacity int, viaNew bool) MapBuilder
	Foreign() []any
}

// Map is a type-erased frozen.Map.
type Map interface {
	U() MapU
	Count() int
	IsEmpty() bool
	Any() (int, int)
	With(k, v Ref) Map
	Without(k Ref) Map
	Has(k Ref) bool
	Get(k Ref) (int, bool)
	GetRaw(k Ref) (any, bool)
	MustGet(k Ref) int
	GetElse(k, d Ref) int
	GetElseFunc(k Ref, d func() Ref) int
	Keys() Set
	Values() Set
	Project(ks ...Ref) Map
	ProjectMutating(ks ...Ref) Map
	Where(func(k, v int) bool) Map
	MapMap(func(k, v int) Ref) Map
	MapMapString(func(k, v int) string) map[int]string // via MapMap to string values; nil if not supported
	Merge(o Map, f func(k, a, b int) Ref) Map
	Update(o Map) Map
	Equal(o Map) bool
	Same(a any) bool
	SameMap(o Map) bool
	Hash(uintptr) uintptr
	Range() MapIter
	Go() (n int, m map[int]int)
	GoMutating() (n int, m map[int]int)
	String() string
	Sprintf(string) string
	JSON() ([]byte, error)
	Raw() any
}

// MapIter is a type-erased MapIterator.
type MapIter interface {
	Next() bool
	Key() int
	Value() int
	Entry() (int, int)
}

// MapBuilder is a type-erased frozen.MapBuilder.
type MapBuilder interface {
	Put(k, v Ref)
	Remove(k Ref)
	Has(k Ref) bool
	Get(k Ref) (int, bool)
	Count() int
	Finish() Map
}

type gmapU[K, V any] struct {
	k          *gsetU[K]
	v          *gsetU[V]
	comparable bool
	hashable   bool
	fromGo     func(kvs []KV, mutate bool) frozen.Map[K, V]
	toGo       func(m frozen.Map[K, V], mutate bool) (int, map[int]int)
	str        func(m gmap[K, V], f func(k, v int) string) map[int]string
}

// MapOpts restricts what value types support.
type MapOpts struct{ NoEqual, NoHash bool }

type mapKey struct{ k, v reflect.Type }

var mapReg = map[mapKey]func(k, v Erased, o MapOpts) MapU{}

// Maps wraps key and value universes, whose pair of types must be registered.
func Maps(k, v Erased, o MapOpts) MapU {
	f, has := mapReg[mapKey{reflect.TypeOf(k), reflect.TypeOf(v)}]
	if !has {
		panic(pbt.HarnessError("unregistered universes " + k.name() + "->" + v.name()))
	}
	return f(k, v, o)
}

func reg[K, V any](f func(k *U[K], v *U[V], o MapOpts) *gmapU[K, V]) {
	mapReg[mapKey{reflect.TypeOf((*U[K])(nil)), reflect.TypeOf((*U[V])(nil))}] = func(k, v Erased, o MapOpts) MapU {
		return f(checkUniv(k.(*U[K])), checkUniv(v.(*U[V])), o)
	}
}

func withStr[K, V any](f func(k *U[K], v *U[V], o MapOpts) *gmapU[K, V]) func(k *U[K], v *U[V], o MapOpts) *gmapU[K, V] {
	return func(k *U[K], v *U[V], o MapOpts) *gmapU[K, V] {
		u := f(k, v, o)
		u.str = mapMapString[K, V]
		return u
	}
}

// RegMaps makes maps from K to V available through Maps.
func RegMaps[K, V any]() { reg(maps[K, V]) }

// RegMapsX is RegMaps with MapMapString.
func RegMapsX[K, V any]() { reg(withStr(maps[K, V])) }

// RegMapsC is RegMaps for key types whose == is their equality.
func RegMapsC[K comparable, V any]() { reg(mapsC[K, V]) }

// RegMapsCX is RegMapsC with MapMapString.
func RegMapsCX[K comparable, V any]() { reg(withStr(mapsC[K, V])) }

func maps[K, V any](k *U[K], v *U[V], o MapOpts) *gmapU[K, V] {
	return &gmapU[K, V]{
		k: &gsetU[K]{u: k}, v: &gsetU[V]{u: v},
		comparable: !o.NoEqual, hashable: !o.NoHash && !o.NoEqual,
	}
}

func mapsC[K comparable, V any](k *U[K], v *U[V], o MapOpts) *gmapU[K, V] {
	u := maps(k, v, o)
	u.fromGo = func(kvs []KV, mutate bool) frozen.Map[K, V] {
		m := map[K]V{}
		for _, kv := range kvs {
			m[k.At(kv.K)] = v.At(kv.V)
		}
		r := frozen.NewMapFromGoMap(m)
		if mutate {
			for i := 0; i < k.N && i < 50; i++ {
				if i%2 == 0 {
					m[k.Rep(i, 0)] = v.Rep(i%v.N, 0)
				} else {
					delete(m, k.Rep(i, 0))
				}
			}
		}
		return r
	}
	u.toGo = func(m frozen.Map[K, V], mutate bool) (int, map[int]int) {
		g := frozen.MapToGoMap(m)
		n, out := len(g), map[int]int{}
		for a, b := range g {
			out[k.Idx(a)] = v.Idx(b)
		}
		if mutate {
			for a := range g {
				g[a] = v.Rep(0, 0)
			}
			g[k.Rep(0, 0)] = v.Rep(v.N-1, 0)
		}
		return n, out
	}
	return u
}

type gmap[K, V any] struct {
	u *gmapU[K, V]
	m frozen.Map[K, V]
}

func (g *gmapU[K, V]) Name() string     { return g.k.Name() + "->" + g.v.Name() }
func (g *gmapU[K, V]) Keys() SetU       { return g.k }
func (g *gmapU[K, V]) Vals() SetU       { return g.v }
func (g *gmapU[K, V]) Comparable() bool { return g.comparable }
func (g *gmapU[K, V]) Hashable() bool   { return g.hashable }
func (g *gmapU[K, V]) GoMaps() bool     { return g.fromGo != nil }
func (g *gmapU[K, V]) Zero() Map        { return gmap[K, V]{g, frozen.Map[K, V]{}} }
func (g *gmapU[K, V]) kvs(kvs []KV) []frozen.KeyValue[K, V] {
	out := make([]frozen.KeyValue[K, V], len(kvs))
	for i, kv := range kvs {
		out[i] = frozen.KV(g.k.u.At(kv.K), g.v.u.At(kv.V))
	}
	return out
}
func (g *gmapU[K, V]) New(kvs ...KV) Map { return gmap[K, V]{g, frozen.NewMap(g.kvs(kvs)...)} }
func (g *gmapU[K, V]) NewMutating(kvs ...KV) Map {
	vs := g.kvs(kvs)
	m := frozen.NewMap(vs...)
	for i := range vs {
		vs[i] = frozen.KV(g.k.u.Rep((i*3+1)%g.k.u.N, 0), g.v.u.Rep((i*3+2)%g.v.u.N, 0))
	}
	return gmap[K, V]{g, m}
}

func (g *gmapU[K, V]) FromKeys(keys Set, f func(int) Ref) Map {
	return gmap[K, V]{g, frozen.NewMapFromKeys(keys.(gset[K]).s, func(k K) V { return g.v.u.At(f(g.k.u.Idx(k))) })}
}
func (g *gmapU[K, V]) FromGo(kvs ...KV) Map { return gmap[K, V]{g, g.fromGo(kvs, true)} }
func (g *gmapU[K, V]) Builder(capacity int, viaNew bool) MapBuilder {
	if viaNew {
		return &gmapB[K, V]{g, frozen.NewMapBuilder[K, V](capacity)}
	}
	return &gmapB[K, V]{g, new(frozen.MapBuilder[K, V])}
}

func (g *gmapU[K, V]) Foreign() []any {
	return append([]any{&frozen.Map[K, V]{}, frozen.Set[K]{}}, foreigners...)
}

func (m gmap[K, V]) wrap(x frozen.Map[K, V]) Map { return gmap[K, V]{m.u, x} }
func (m gmap[K, V]) raw(o Map) frozen.Map[K, V]  { return o.(gmap[K, V]).m }
func (m gmap[K, V]) key(r Ref) K                 { return m.u.k.u.At(r) }
func (m gmap[K, V]) val(r Ref) V                 { return m.u.v.u.At(r) }
func (m gmap[K, V]) ki(k K) int                  { return m.u.k.u.Idx(k) }
func (m gmap[K, V]) vi(v V) int                  { return m.u.v.u.Idx(v) }

func (m gmap[K, V]) U() MapU           { return m.u }
func (m gmap[K, V]) Raw() any          { return m.m }
func (m gmap[K, V]) Count() int        { return m.m.Count() }
func (m gmap[K, V]) IsEmpty() bool     { return m.m.IsEmpty() }
func (m gmap[K, V]) With(k, v Ref) Map { return m.wrap(m.m.With(m.key(k), m.val(v))) }
func (m gmap[K, V]) Without(k Ref) Map { return m.wrap(m.m.Without(m.key(k))) }
func (m gmap[K, V]) Has(k Ref) bool    { return m.m.Has(m.key(k)) }
func (m gmap[K, V]) Any() (int, int) {
	k, v := m.m.Any()
	return m.ki(k), m.vi(v)
}

func (m gmap[K, V]) Get(k Ref) (int, bool) {
	v, ok := m.m.Get(m.key(k))
	if !ok {
		return -1, false
	}
	return m.vi(v), true
}

func (m gmap[K, V]) GetRaw(k Ref) (any, bool) {
	v, ok := m.m.Get(m.key(k))
	return v, ok
}
func (m gmap[K, V]) MustGet(k Ref) int    { return m.vi(m.m.MustGet(m.key(k))) }
func (m gmap[K, V]) GetElse(k, d Ref) int { return m.vi(m.m.GetElse(m.key(k), m.val(d))) }
func (m gmap[K, V]) GetElseFunc(k Ref, d func() Ref) int {
	return m.vi(m.m.GetElseFunc(m.key(k), func() V { return m.val(d()) }))
}
func (m gmap[K, V]) Keys() Set   { return gset[K]{m.u.k, m.m.Keys()} }
func (m gmap[K, V]) Values() Set { return gset[V]{m.u.v, m.m.Values()} }
func (m gmap[K, V]) keys(ks []Ref) []K {
	out := make([]K, len(ks))
	for i, k := range ks {
		out[i] = m.key(k)
	}
	return out
}
func (m gmap[K, V]) Project(ks ...Ref) Map { return m.wrap(m.m.Project(m.keys(ks)...)) }
func (m gmap[K, V]) ProjectMutating(ks ...Ref) Map {
	vs := m.keys(ks)
	r := m.m.Project(vs...)
	for i := range vs {
		vs[i] = m.u.k.u.Rep((i*3+1)%m.u.k.u.N, 0)
	}
	return m.wrap(r)
}

func (m gmap[K, V]) Where(f func(k, v int) bool) Map {
	return m.wrap(m.m.Where(func(k K, v V) bool { return f(m.ki(k), m.vi(v)) }))
}

func (m gmap[K, V]) MapMap(f func(k, v int) Ref) Map {
	return m.wrap(frozen.MapMap(m.m, func(k K, v V) V { return m.val(f(m.ki(k), m.vi(v))) }))
}

func (m gmap[K, V]) MapMapString(f func(k, v int) string) map[int]string {
	if m.u.str == nil {
		return nil
	}
	return m.u.str(m, f)
}

func mapMapString[K, V any](m gmap[K, V], f func(k, v int) string) map[int]string {
	r := frozen.MapMap(m.m, func(k K, v V) string { return f(m.ki(k), m.vi(v)) })
	out := map[int]string{}
	n := 0
	for i := r.Range(); i.Next(); n++ {
		out[m.ki(i.Key())] = i.Value()
	}
	if n != r.Count() || n != len(out) {
		panic(fmt.Sprintf("MapMap: %d entries iterated, %d distinct, Count %d", n, len(out), r.Count()))
	}
	return out
}

func (m gmap[K, V]) Merge(o Map, f func(k, a, b int) Ref) Map {
	return m.wrap(m.m.Merge(m.raw(o), func(k K, a, b V) V { return m.val(f(m.ki(k), m.vi(a), m.vi(b))) }))
}
func (m gmap[K, V]) Update(o Map) Map          { return m.wrap(m.m.Update(m.raw(o))) }
func (m gmap[K, V]) Equal(o Map) bool          { return m.m.Equal(m.raw(o)) }
func (m gmap[K, V]) Same(a any) bool           { return m.m.Same(a) }
func (m gmap[K, V]) SameMap(o Map) bool        { return m.m.Same(m.raw(o)) }
func (m gmap[K, V]) Hash(seed uintptr) uintptr { return m.m.Hash(seed) }
func (m gmap[K, V]) String() string            { return m.m.String() }
func (m gmap[K, V]) Sprintf(f string) string   { return fmt.Sprintf(f, m.m) }
func (m gmap[K, V]) JSON() ([]byte, error)     { return m.m.MarshalJSON() }

func (m gmap[K, V]) Go() (int, map[int]int)         { return m.u.toGo(m.m, false) }
func (m gmap[K, V]) GoMutating() (int, map[int]int) { return m.u.toGo(m.m, true) }

type gmapIter[K, V any] struct {
	m gmap[K, V]
	i frozen.MapIterator[K, V]
}

func (i *gmapIter[K, V]) Next() bool { return i.i.Next() }
func (i *gmapIter[K, V]) Key() int   { return i.m.ki(i.i.Key()) }
func (i *gmapIter[K, V]) Value() int { return i.m.vi(i.i.Value()) }
func (i *gmapIter[K, V]) Entry() (int, int) {
	k, v := i.i.Entry()
	return i.m.ki(k), i.m.vi(v)
}
func (m gmap[K, V]) Range() MapIter { return &gmapIter[K, V]{m, m.m.Range()} }

// SliceU has slices, which support neither == nor hashing, as values.
func SliceU(n int) *U[[]int] {
	vals := make([][]int, n)
	for i := range vals {
		vals[i] = []int{i, i + 1}
	}
	return &U[[]int]{
		Name: "[]int", N: n, Reps: 1,
		Rep: func(i, _ int) []int { return vals[i] },
		Idx: func(v []int) int {
			if len(v) != 2 || v[1] != v[0]+1 || v[0] < 0 || v[0] >= n {
				return -1
			}
			return v[0]
		},
	}
}

// ZeroIntU has small ints from zero.
func ZeroIntU(n int) *U[int] {
	return &U[int]{
		Name: "int0", N: n, Reps: 1,
		Rep: func(i, _ int) int { return i },
		Idx: func(v int) int {
			if v >= 0 && v < n {
				return v
			}
			return -1
		},
	}
}
