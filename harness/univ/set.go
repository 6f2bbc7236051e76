package univ

import (
	"fmt"
	"reflect"
	"sort"
	"vh/pbt"

	"github.com/arr-ai/frozen"
)

// Iter is a type-erased iterator yielding indices.
type Iter interface {
	Next() bool
	Value() int
}

// SetU builds sets over one universe.
type SetU interface {
	Name() string
	N() int
	Reps() int
	Zero() Set
	New(refs ...Ref) Set
	NewMutating(refs ...Ref) Set // NewSet(slice...), then overwrites the slice
	Builder(capacity int, viaNew bool) SetBuilder
	Union(ss ...Set) Set
	Intersection(ss ...Set) Set
	Foreign() []any // values of other types, for Same
	Hashes() []uint64
	RawRef(r Ref) any
	HasExt() bool
	MapTargets(SetU) bool // Ext().MapTo supports the universe
}

// SetExt has the operations that lead to other types. They are available for
// some element types only, to keep the build short.
type SetExt interface {
	GroupBy(func(int) int) map[int]Set
	GroupByCount(func(int) int) (count int, m map[int]Set)
	// GroupByIn groups by keys in another universe that MapTargets allows.
	GroupByIn(ku SetU, key func(int) Ref) Groups
	Powerset() []Set
	PowersetCount() int
	PowersetHas(x Set) bool
	AsAny() (count int, elems []int, again Set)
	MapTo(SetU, func(int) Ref) Set
}

// Set is a type-erased frozen.Set over a universe.
type Set interface {
	U() SetU
	Count() int
	IsEmpty() bool
	Has(Ref) bool
	Elements() []int
	ElementsMutating() []int // Elements(), then overwrites the slice
	Range() Iter
	Any() int
	AnyN(n int) Set
	With(Ref) Set
	Without(Ref) Set
	Union(Set) Set
	Intersection(Set) Set
	Difference(Set) Set
	SymmetricDifference(Set) Set
	Where(func(int) bool) Set
	MapTo(SetU, func(int) Ref) Set // same element type only
	Equal(Set) bool
	Same(any) bool
	SameSet(Set) bool
	IsSubsetOf(Set) bool
	Hash(uintptr) uintptr
	OrderedElements(less func(a, b int) bool) []int
	OrderedRange(less func(a, b int) bool) Iter
	OrderedFirstN(n int, less func(a, b int) bool) []int
	First(less func(a, b int) bool) int
	FirstN(n int, less func(a, b int) bool) Set
	Reduce(func(is []int) int) (int, bool) // over element indices (result must be an element)
	Reduce2(func(a, b int) int) (int, bool)
	Ext() SetExt // nil unless U().HasExt()
	String() string
	Sprintf(format string) string
	Raw() any
	JSON() ([]byte, error)
}

// SetBuilder is a type-erased frozen.SetBuilder.
type SetBuilder interface {
	Add(Ref)
	Remove(Ref)
	Has(Ref) bool
	Count() int
	Finish() Set
	String() string
}

// Groups is what SetGroupBy makes.
type Groups struct {
	Count int
	Each  func(f func(k int, s Set))
	Get   func(k Ref) (Set, bool)
}

type gsetU[T any] struct {
	u       *U[T]
	ext     func(gset[T]) SetExt
	targets func(SetU) bool
}

type gset[T any] struct {
	u *gsetU[T]
	s frozen.Set[T]
}

// Sets wraps a universe, whose type must be registered.
func Sets(u Erased) SetU {
	f, has := setReg[reflect.TypeOf(u)]
	if !has {
		panic(pbt.HarnessError("unregistered universe " + u.name()))
	}
	return f(u)
}

var setReg = map[reflect.Type]func(Erased) SetU{}

// RegSets makes sets of T available through Sets. The instances live in the
// calling package.
func RegSets[T any]() {
	setReg[reflect.TypeOf((*U[T])(nil))] = func(u Erased) SetU { return &gsetU[T]{u: checkUniv(u.(*U[T]))} }
}

// RegSetsX is RegSets with the extended operations, and maps into sets of V.
func RegSetsX[T, V any]() {
	setReg[reflect.TypeOf((*U[T])(nil))] = func(u Erased) SetU {
		return &gsetU[T]{
			u:   checkUniv(u.(*U[T])),
			ext: func(s gset[T]) SetExt { return gext[T, V]{s} },
			targets: func(u SetU) bool {
				switch u.(type) {
				case *gsetU[T], *gsetU[any], *gsetU[V]:
					return true
				}
				return false
			},
		}
	}
}

func (g *gsetU[T]) HasExt() bool { return g.ext != nil }
func (g *gsetU[T]) MapTargets(u SetU) bool {
	if g.targets == nil {
		_, is := u.(*gsetU[T])
		return is
	}
	return g.targets(u)
}
func (s gset[T]) Ext() SetExt { return s.u.ext(s) }

// gext adds the extended operations to a set.
type gext[T, V any] struct{ s gset[T] }

func (g *gsetU[T]) Name() string     { return g.u.Name }
func (g *gsetU[T]) N() int           { return g.u.N }
func (g *gsetU[T]) Reps() int        { return g.u.Reps }
func (g *gsetU[T]) Hashes() []uint64 { return g.u.H }
func (g *gsetU[T]) RawRef(r Ref) any { return g.u.At(r) }
func (g *gsetU[T]) Zero() Set        { return gset[T]{g, frozen.Set[T]{}} }
func (g *gsetU[T]) vals(refs []Ref) []T {
	vs := make([]T, len(refs))
	for i, r := range refs {
		vs[i] = g.u.At(r)
	}
	return vs
}
func (g *gsetU[T]) New(refs ...Ref) Set { return gset[T]{g, frozen.NewSet(g.vals(refs)...)} }
func (g *gsetU[T]) NewMutating(refs ...Ref) Set {
	vs := g.vals(refs)
	s := frozen.NewSet(vs...)
	for i := range vs {
		vs[i] = g.u.Rep((i*7+3)%g.u.N, 0)
	}
	return gset[T]{g, s}
}

func (g *gsetU[T]) Builder(capacity int, viaNew bool) SetBuilder {
	if viaNew {
		return &gsetB[T]{g, frozen.NewSetBuilder[T](capacity)}
	}
	return &gsetB[T]{g, new(frozen.SetBuilder[T])}
}

func (g *gsetU[T]) raws(ss []Set) []frozen.Set[T] {
	rs := make([]frozen.Set[T], len(ss))
	for i, s := range ss {
		rs[i] = s.(gset[T]).s
	}
	return rs
}
func (g *gsetU[T]) Union(ss ...Set) Set        { return gset[T]{g, frozen.Union(g.raws(ss)...)} }
func (g *gsetU[T]) Intersection(ss ...Set) Set { return gset[T]{g, frozen.Intersection(g.raws(ss)...)} }

type foreign struct{ A int }

var foreigners = []any{
	nil, 1, "x", frozen.Set[foreign]{}, frozen.Map[foreign, int]{}, frozen.IntSet[int]{}, map[int]int{}, frozen.KV(1, 2),
}

func (g *gsetU[T]) Foreign() []any {
	return append([]any{[]T{}, &frozen.Set[T]{}}, foreigners...)
}

func (s gset[T]) wrap(x frozen.Set[T]) Set { return gset[T]{s.u, x} }
func (s gset[T]) raw(o Set) frozen.Set[T]  { return o.(gset[T]).s }

func (s gset[T]) U() SetU        { return s.u }
func (s gset[T]) Raw() any       { return s.s }
func (s gset[T]) Count() int     { return s.s.Count() }
func (s gset[T]) IsEmpty() bool  { return s.s.IsEmpty() }
func (s gset[T]) Has(r Ref) bool { return s.s.Has(s.u.u.At(r)) }
func (s gset[T]) idxs(vs []T) []int {
	is := make([]int, len(vs))
	for i, v := range vs {
		is[i] = s.u.u.Idx(v)
	}
	return is
}
func (s gset[T]) Elements() []int { return s.idxs(s.s.Elements()) }
func (s gset[T]) ElementsMutating() []int {
	vs := s.s.Elements()
	is := s.idxs(vs)
	for i := range vs {
		vs[i] = s.u.u.Rep((i*5+1)%s.u.u.N, 0)
	}
	sort.Slice(vs, func(i, j int) bool { return i*7%5 < j*7%5 })
	_ = append(vs[:0], vs...)
	return is
}

type giter[T any] struct {
	u *U[T]
	i frozen.Iterator[T]
}

func (i giter[T]) Next() bool { return i.i.Next() }
func (i giter[T]) Value() int { return i.u.Idx(i.i.Value()) }

func (s gset[T]) Range() Iter                   { return giter[T]{s.u.u, s.s.Range()} }
func (s gset[T]) Any() int                      { return s.u.u.Idx(s.s.Any()) }
func (s gset[T]) AnyN(n int) Set                { return s.wrap(s.s.AnyN(n)) }
func (s gset[T]) With(r Ref) Set                { return s.wrap(s.s.With(s.u.u.At(r))) }
func (s gset[T]) Without(r Ref) Set             { return s.wrap(s.s.Without(s.u.u.At(r))) }
func (s gset[T]) Union(o Set) Set               { return s.wrap(s.s.Union(s.raw(o))) }
func (s gset[T]) Intersection(o Set) Set        { return s.wrap(s.s.Intersection(s.raw(o))) }
func (s gset[T]) Difference(o Set) Set          { return s.wrap(s.s.Difference(s.raw(o))) }
func (s gset[T]) SymmetricDifference(o Set) Set { return s.wrap(s.s.SymmetricDifference(s.raw(o))) }
func (s gset[T]) Equal(o Set) bool              { return s.s.Equal(s.raw(o)) }
func (s gset[T]) Same(a any) bool               { return s.s.Same(a) }
func (s gset[T]) SameSet(o Set) bool            { return s.s.Same(s.raw(o)) }
func (s gset[T]) IsSubsetOf(o Set) bool         { return s.s.IsSubsetOf(s.raw(o)) }
func (s gset[T]) Hash(seed uintptr) uintptr     { return s.s.Hash(seed) }
func (s gset[T]) String() string                { return s.s.String() }
func (s gset[T]) Sprintf(f string) string       { return fmt.Sprintf(f, s.s) }
func (s gset[T]) JSON() ([]byte, error)         { return s.s.MarshalJSON() }
func (s gset[T]) idx(v T) int                   { return s.u.u.Idx(v) }
func (s gset[T]) less(f func(a, b int) bool) func(a, b T) bool {
	return func(a, b T) bool { return f(s.idx(a), s.idx(b)) }
}

func (s gset[T]) Where(p func(int) bool) Set {
	return s.wrap(s.s.Where(func(v T) bool { return p(s.idx(v)) }))
}

func (s gset[T]) OrderedElements(f func(a, b int) bool) []int {
	return s.idxs(s.s.OrderedElements(s.less(f)))
}

func (s gset[T]) OrderedRange(f func(a, b int) bool) Iter {
	return giter[T]{s.u.u, s.s.OrderedRange(s.less(f))}
}

func (s gset[T]) OrderedFirstN(n int, f func(a, b int) bool) []int {
	return s.idxs(s.s.OrderedFirstN(n, s.less(f)))
}

func (s gset[T]) First(f func(a, b int) bool) int {
	a := s.s.First(s.less(f))
	v, is := a.(T)
	if !is {
		return -1
	}
	return s.idx(v)
}

func (s gset[T]) FirstN(n int, f func(a, b int) bool) Set {
	return s.wrap(s.s.FirstN(n, s.less(f)))
}

func (s gset[T]) Reduce(f func([]int) int) (int, bool) {
	v, ok := s.s.Reduce(func(es ...T) T { return s.u.u.Rep(f(s.idxs(es)), 0) })
	if !ok {
		return -1, false
	}
	return s.idx(v), true
}

func (s gset[T]) Reduce2(f func(a, b int) int) (int, bool) {
	v, ok := s.s.Reduce2(func(a, b T) T { return s.u.u.Rep(f(s.idx(a), s.idx(b)), 0) })
	if !ok {
		return -1, false
	}
	return s.idx(v), true
}

func (e gext[T, V]) GroupByCount(f func(int) int) (int, map[int]Set) {
	s := e.s
	m := frozen.SetGroupBy(s.s, func(v T) int { return f(s.idx(v)) })
	out := map[int]Set{}
	n := 0
	for r := m.Range(); r.Next(); n++ {
		if _, dup := out[r.Key()]; dup {
			return -1, out
		}
		out[r.Key()] = s.wrap(r.Value())
	}
	if n != m.Count() {
		return -1, out
	}
	return m.Count(), out
}

func (e gext[T, V]) GroupBy(f func(int) int) map[int]Set {
	_, m := e.GroupByCount(f)
	return m
}

func (e gext[T, V]) Powerset() []Set {
	s := e.s
	p := frozen.Powerset(s.s)
	var out []Set
	for r := p.Range(); r.Next(); {
		out = append(out, s.wrap(r.Value()))
	}
	return out
}

func (e gext[T, V]) PowersetCount() int { return frozen.Powerset(e.s.s).Count() }

func (e gext[T, V]) AsAny() (int, []int, Set) {
	s := e.s
	a := s.s.AsSetAny()
	b := frozen.SetAs[any](s.s)
	if !a.Equal(b) || !b.Equal(a) {
		panic("SetAs[any] and AsSetAny differ")
	}
	var is []int
	for r := a.Range(); r.Next(); {
		v, ok := r.Value().(T)
		if !ok {
			is = append(is, -1)
		} else {
			is = append(is, s.idx(v))
		}
	}
	present := map[int]bool{}
	for r := s.s.Range(); r.Next(); {
		present[s.idx(r.Value())] = true
		if !a.Has(any(r.Value())) {
			panic(fmt.Sprintf("AsSetAny lost element %d", s.idx(r.Value())))
		}
	}
	for i := 0; i < s.u.u.N && i < 40; i++ {
		if !present[i] && a.Has(any(s.u.u.Rep(i, 0))) {
			panic(fmt.Sprintf("AsSetAny has absent element %d", i))
		}
	}
	return a.Count(), is, s.wrap(frozen.SetAs[T](a))
}

func (e gext[T, V]) PowersetHas(x Set) bool { return frozen.Powerset(e.s.s).Has(e.s.raw(x)) }

func (e gext[T, V]) MapTo(u SetU, f func(int) Ref) Set {
	switch u := u.(type) {
	case *gsetU[T]:
		return mapTo(e.s, u, f)
	case *gsetU[V]:
		return mapTo(e.s, u, f)
	case *gsetU[any]:
		return mapTo(e.s, u, f)
	}
	panic(pbt.HarnessError("MapTo: unsupported target universe " + u.Name()))
}

// MapTo maps within the element type with SetMap.
func (s gset[T]) MapTo(u SetU, f func(int) Ref) Set { return mapTo(s, u.(*gsetU[T]), f) }

func mapTo[T, V any](s gset[T], u *gsetU[V], f func(int) Ref) Set {
	return gset[V]{u, frozen.SetMap(s.s, func(v T) V { return u.u.At(f(s.idx(v))) })}
}

func (e gext[T, V]) GroupByIn(ku SetU, key func(int) Ref) Groups {
	u := ku.(*gsetU[V])
	g := frozen.SetGroupBy(e.s.s, func(v T) V { return u.u.At(key(e.s.idx(v))) })
	return Groups{
		Count: g.Count(),
		Each: func(f func(k int, s Set)) {
			for r := g.Range(); r.Next(); {
				f(u.u.Idx(r.Key()), e.s.wrap(r.Value()))
			}
		},
		Get: func(k Ref) (Set, bool) {
			s, has := g.Get(u.u.At(k))
			return e.s.wrap(s), has
		},
	}
}

// ElReducers folds the weights and counts of the elements of a set of El,
// with Reduce2 and Reduce; see package inst/el.
var ElReducers func(s Set) (es [2]El, oks [2]bool)

// RawAs exposes the underlying set, in packages that have the instance anyway.
func RawAs[T any](s Set) frozen.Set[T] { return s.(gset[T]).s }
