//go:build all || C31

package props

import (
	"runtime"

	"github.com/arr-ai/frozen"
	"github.com/arr-ai/frozen/lazy"
	"github.com/arr-ai/frozen/pkg/rel"

	"vh/pbt"
)

// blob is an element that is costly to keep.
type blob struct {
	id  int
	h   uint64
	pad [1000]byte
}

func (b *blob) Equal(c *blob) bool { return b.id == c.id }
func (b *blob) Same(a any) bool {
	c, is := a.(*blob)
	return is && b.id == c.id
}
func (b *blob) Hash(seed uintptr) uintptr {
	if seed == 0 {
		return uintptr(b.h)
	}
	return uintptr(pbt.Mix(b.h ^ uint64(seed)))
}

// live gives the bytes in use.
func live() int {
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int(m.HeapAlloc)
}

// blobs makes elements, fresh each time.
type blobs struct {
	salt   uint64
	groups int
}

func (g blobs) at(i int) *blob {
	return &blob{id: i, h: pbt.Mix(g.salt ^ uint64(i/g.groups)*0x9e37)}
}

// keepsOnly reports whether what f returns keeps much more memory alive than
// count() elements need.
func keepsOnly[C any](t *pbt.T, what string, f func() C, count func(C) int, each int) {
	before := live()
	c := f()
	after := live()
	k := count(c)
	if used, bound := after-before, 120_000+each*k; used > bound {
		t.Fatalf("%s: %d elements keep %d bytes alive, bound %d", what, k, used, bound)
	}
	runtime.KeepAlive(c)
}

const blobBytes = 1024 + 700

func setCount[T any](s frozen.Set[T]) int          { return s.Count() }
func mapCount[K, V any](m frozen.Map[K, V]) int    { return m.Count() }
func asAny(b *blob) any                            { return b }
func asBlob(b *blob) *blob                         { return b }
func less[T any](id func(T) int) func(a, b T) bool { return func(a, b T) bool { return id(a) < id(b) } }

// c31Set: what is taken away from a set, along any path, is free to go.
func c31Set(t *pbt.T) {
	if t.Bool() {
		c31SetOf(t, asBlob, func(b *blob) int { return b.id })
	} else {
		c31SetOf(t, asAny, func(a any) int { return a.(*blob).id })
	}
}

func c31SetOf[T any](t *pbt.T, conv func(*blob) T, id func(T) int) {
	n, keep := t.Range(500, 3000), t.Range(0, 12)
	g := blobs{t.Draw(1 << 20), []int{1, 1, 3, 20, 300}[t.Intn(5)]}
	at := func(i int) T { return conv(g.at(i)) }
	steps := make([]uint64, t.Range(1, 4))
	for i := range steps {
		steps[i] = t.Draw(1 << 20)
	}
	viaBuilder := t.Bool()
	t.Logf("%d elements in groups of %d, of which %d stay", n, g.groups, keep)
	if n > 1000 {
		t.NonTrivial()
	}
	build := func() frozen.Set[T] {
		if viaBuilder {
			var b frozen.SetBuilder[T]
			for i := 0; i < n; i++ {
				b.Add(at(i))
			}
			return b.Finish()
		}
		vs := make([]T, n)
		for i := range vs {
			vs[i] = at(i)
		}
		return frozen.NewSet(vs...)
	}
	pick := func(x T) bool { return id(x) < keep }
	stay := func() frozen.Set[T] {
		var s frozen.Set[T]
		for i := 0; i < keep; i++ {
			s = s.With(at(i))
		}
		return s
	}
	op := t.Intn(11)
	name := []string{"Without", "Where", "Difference", "Intersection", "SetBuilder.Remove", "FirstN", "AnyN", "updates", "Map", "GroupBy", "SymmetricDifference"}[op]
	t.Class(name)
	keepsOnly(t, name, func() frozen.Set[T] {
		switch op {
		case 0:
			s := build()
			for i := keep; i < n; i++ {
				s = s.Without(at(i))
			}
			return s
		case 1:
			return build().Where(pick)
		case 2:
			s := build()
			return s.Difference(s.Where(func(x T) bool { return !pick(x) }))
		case 3:
			if viaBuilder {
				return stay().Intersection(build())
			}
			return build().Intersection(stay())
		case 4:
			var b frozen.SetBuilder[T]
			for i := 0; i < n; i++ {
				b.Add(at(i))
			}
			for i := n - 1; i >= keep; i-- {
				b.Remove(at(i))
			}
			if viaBuilder {
				b.Add(at(0))
			}
			return b.Finish()
		case 5:
			return build().FirstN(keep, less(id))
		case 6:
			return build().AnyN(keep)
		case 7: // versions of one small set
			s := stay()
			for i := 0; i < n; i++ {
				j := keep + i%(7+int(steps[0]%40))
				if s.Has(at(j)) {
					s = s.Without(at(j))
				} else {
					s = s.With(at(j))
				}
				s = s.With(at(i % (keep + 1))) // in place of an equal one
			}
			return s
		case 8:
			return frozen.SetMap(build(), func(x T) T { return at(id(x) % (keep + 1)) })
		case 9:
			m := frozen.SetGroupBy(build(), func(x T) int {
				if pick(x) {
					return 0
				}
				return 1 + id(x)%5
			})
			return m.GetElse(0, frozen.Set[T]{})
		default:
			s := build()
			return s.SymmetricDifference(s.Where(func(x T) bool { return !pick(x) }))
		}
	}, setCount[T], blobBytes)
}

// c31Map: the same for maps' keys and values.
func c31Map(t *pbt.T) {
	n, keep := t.Range(500, 3000), t.Range(1, 12)
	g := blobs{t.Draw(1 << 20), []int{1, 1, 3, 20, 300}[t.Intn(5)]}
	viaBuilder := t.Bool()
	if n > 1000 {
		t.NonTrivial()
	}
	t.Logf("%d entries in groups of %d, of which %d stay, builder %t", n, g.groups, keep, viaBuilder)
	byKey := func() frozen.Map[*blob, int] {
		var b frozen.MapBuilder[*blob, int]
		var m frozen.Map[*blob, int]
		for i := 0; i < n; i++ {
			if viaBuilder {
				b.Put(g.at(i), i)
			} else {
				m = m.With(g.at(i), i)
			}
		}
		if viaBuilder {
			m = b.Finish()
		}
		return m
	}
	op := t.Intn(8)
	name := []string{"Without", "Where", "MapBuilder.Remove", "Project", "values replaced", "values merged", "values mapped", "Keys"}[op]
	t.Class(name)
	pick := func(k *blob, _ int) bool { return k.id < keep }
	switch op {
	case 0, 1, 2, 3:
		keepsOnly(t, name, func() frozen.Map[*blob, int] {
			switch op {
			case 0:
				m := byKey()
				for i := keep; i < n; i++ {
					m = m.Without(g.at(i))
				}
				return m
			case 1:
				return byKey().Where(pick)
			case 2:
				var b frozen.MapBuilder[*blob, int]
				for i := 0; i < n; i++ {
					b.Put(g.at(i), i)
				}
				for i := n - 1; i >= keep; i-- {
					b.Remove(g.at(i))
				}
				return b.Finish()
			default:
				var ks []*blob
				for i := 0; i < keep; i++ {
					ks = append(ks, g.at(i))
				}
				return byKey().Project(ks...)
			}
		}, mapCount[*blob, int], blobBytes)
	case 7:
		keepsOnly(t, name, func() frozen.Set[*blob] { return byKey().Where(pick).Keys() }, setCount[*blob], blobBytes)
	default:
		type B = *blob
		keepsOnly(t, name, func() frozen.Map[int, B] {
			var m frozen.Map[int, B]
			switch {
			case op == 4 && viaBuilder:
				var b frozen.MapBuilder[int, B]
				for i := 0; i < n; i++ {
					b.Put(i%keep, g.at(i))
				}
				return b.Finish()
			case op == 4:
				for i := 0; i < n; i++ {
					m = m.With(i%keep, g.at(i))
				}
				return m
			case op == 5:
				for i := 0; i < n; i++ {
					var o frozen.Map[int, B]
					o = o.With(i%keep, g.at(i))
					if i%3 == 0 {
						m = m.Update(o)
					} else {
						m = m.Merge(o, func(_ int, a, b B) B { return b })
					}
				}
				return m
			default:
				for i := 0; i < n; i++ {
					m = m.With(i, g.at(i))
				}
				return frozen.MapMap(m, func(k int, b B) B { return nil })
			}
		}, func(m frozen.Map[int, B]) int {
			if op == 6 {
				return m.Count() / 10
			}
			return m.Count()
		}, blobBytes)
	}
}

// c31Lazy: a lazy set that has been evaluated needs its sources no more.
func c31Lazy(t *pbt.T) {
	n, keep := t.Range(300, 2000), t.Range(0, 12)
	g := blobs{t.Draw(1 << 20), []int{1, 1, 3, 20, 300}[t.Intn(5)]}
	t.NonTrivial()
	base := func(from, to int) lazy.Set {
		var b frozen.SetBuilder[any]
		for i := from; i < to; i++ {
			b.Add(g.at(i))
		}
		return lazy.Frozen(b.Finish())
	}
	stays := func(e any) bool { return e.(*blob).id < keep }
	op, how := t.Intn(6), t.Intn(3)
	name := []string{"Where", "Difference", "Intersection", "Map", "Where of Union", "chain"}[op] + []string{", iterated", ", frozen", ", copied"}[how]
	t.Class("lazy " + name)
	keepsOnly(t, name, func() lazy.Set {
		var s lazy.Set
		switch op {
		case 0:
			s = base(0, n).Where(stays)
		case 1:
			s = base(0, n).Difference(base(keep, n+10))
		case 2:
			s = base(0, n).Intersection(base(n-keep, n+100))
		case 3:
			s = base(0, n).Map(func(e any) any { return g.at(e.(*blob).id % (keep + 1)) })
		case 4:
			s = base(0, n/2).Union(base(n/3, n)).Where(stays)
		default:
			s = base(0, n/2).Where(func(any) bool { return true }).Map(func(e any) any { return e }).SymmetricDifference(base(keep, n/2)).Without(g.at(0)).With(g.at(1))
		}
		switch how {
		case 0:
			for i := s.Range(); i.Next(); {
			}
			return s
		case 1:
			return s.Freeze()
		default:
			for i := s.Range(); i.Next(); {
			}
			return s.Where(stays).Freeze()
		}
	}, func(s lazy.Set) int { return s.Count() + 2 }, blobBytes)
}

// c31Rel: relations and what is derived from them.
func c31Rel(t *pbt.T) {
	n, keep := t.Range(200, 1500), t.Range(1, 12)
	g := blobs{t.Draw(1 << 20), []int{1, 1, 3, 20}[t.Intn(4)]}
	t.NonTrivial()
	build := func() rel.Relation {
		rows := make([][]any, n)
		for i := range rows {
			rows[i] = []any{i % keep, i % (2 * keep), g.at(i)}
		}
		return rel.New([]string{"a", "b", "c"}, rows...)
	}
	op := t.Intn(4)
	name := []string{"Project", "Join", "Where", "Unnest of Nest, projected"}[op]
	t.Class("relation " + name)
	keepsOnly(t, name, func() rel.Relation {
		r := build()
		switch op {
		case 0:
			return rel.Project(r, "a", "b")
		case 1:
			return rel.Join(r, rel.New([]string{"c"}, []any{g.at(0)}, []any{g.at(n - 1)}))
		case 2:
			return r.Where(func(m rel.Tuple) bool { return m.MustGet("c").(*blob).id < keep })
		default:
			return rel.Project(rel.Unnest(rel.Nest(r, frozen.NewMap(frozen.KV("d", frozen.NewSet("c")))), "d"), "b")
		}
	}, func(r rel.Relation) int { return r.Count() + 1 }, 2*blobBytes)
}

// c31Plain: nodes and cells are free to go too.
func c31Plain(t *pbt.T) {
	n, keep := t.Range(20_000, 60_000), t.Range(0, 20)
	step := []int{1, 3, 64, 1000}[t.Intn(4)]
	t.NonTrivial()
	switch op := t.Intn(4); op {
	case 0:
		keepsOnly(t, "Set.Without", func() frozen.Set[int] {
			var b frozen.SetBuilder[int]
			for i := 0; i < n; i++ {
				b.Add(i * step)
			}
			s := b.Finish()
			for i := keep; i < n; i++ {
				s = s.Without(i * step)
			}
			return s
		}, setCount[int], 700)
	case 1:
		keepsOnly(t, "Map.Without", func() frozen.Map[int, int] {
			var b frozen.MapBuilder[int, int]
			for i := 0; i < n; i++ {
				b.Put(i*step, i)
			}
			m := b.Finish()
			for i := keep; i < n; i++ {
				m = m.Without(i * step)
			}
			return m
		}, mapCount[int, int], 700)
	default:
		keepsOnly(t, "IntSet", func() frozen.IntSet[int] {
			is := make([]int, n)
			for i := range is {
				is[i] = i * step
			}
			s := frozen.NewIntSet(is...)
			if op == 2 {
				for i := keep; i < n; i++ {
					s = s.Without(i * step)
				}
				return s
			}
			return s.Where(func(x int) bool { return x < keep*step })
		}, func(s frozen.IntSet[int]) int { return s.Count() }, 700)
	}
}

// c31Observed: a small collection that has been compared and combined with
// large ones, whose results are dropped, is all that stays.
func c31Observed(t *pbt.T) {
	n, keep := t.Range(400, 2000), t.Range(0, 40)
	g := blobs{t.Draw(1 << 20), []int{1, 1, 3, 20, 300}[t.Intn(5)]}
	kind := t.Intn(5)
	name := []string{"set", "set of any", "map", "lazy", "relation"}[kind]
	t.Class("observed " + name)
	if keep > 0 {
		t.NonTrivial()
	}
	ops := make([]uint64, t.Range(1, 6))
	for i := range ops {
		ops[i] = t.Draw(1 << 20)
	}
	t.Logf("%s of %d, seen with one of %d, operations %v", name, keep, n, ops)
	switch kind {
	case 0:
		c31ObservedSet(t, name, n, keep, ops, g, asBlob, func(b *blob) int { return b.id })
	case 1:
		c31ObservedSet(t, name, n, keep, ops, g, asAny, func(a any) int { return a.(*blob).id })
	case 2:
		keepsOnly(t, name, func() frozen.Map[*blob, *blob] {
			upTo := func(k int) frozen.Map[*blob, *blob] {
				var b frozen.MapBuilder[*blob, *blob]
				for i := 0; i < k; i++ {
					x := g.at(i)
					b.Put(x, x)
				}
				return b.Finish()
			}
			s, l := upTo(keep), upTo(n)
			if l2 := l.Without(g.at(n - 1)); ops[0]%3 == 0 {
				l = l2
			}
			first := func(_, a, _ *blob) *blob { return a }
			for _, op := range ops {
				switch op % 10 {
				case 0:
					s.Equal(l)
				case 1:
					l.Equal(s)
				case 2:
					s.Merge(l, first).Count()
				case 3:
					l.Merge(s, first).Count()
				case 4:
					s.Update(l).Count()
				case 5:
					for i := 0; i < n; i++ {
						s.Has(g.at(i))
						s.With(g.at(i), g.at(i))
					}
				case 6:
					l.Project(s.Keys().Elements()...).Equal(s)
				case 7:
					s.Keys().IsSubsetOf(l.Keys())
				case 8:
					s.Hash(0)
					for i := 0; i < n; i++ {
						s.Without(g.at(i))
					}
				case 9:
					m := frozen.MapMap(s, func(*blob, *blob) frozen.Map[*blob, *blob] { return l })
					m.Equal(m)
				}
			}
			return s
		}, func(m frozen.Map[*blob, *blob]) int { return m.Count() }, blobBytes)
	case 3:
		keepsOnly(t, name, func() lazy.Set {
			upTo := func(k int) lazy.Set {
				var b frozen.SetBuilder[any]
				for i := 0; i < k; i++ {
					b.Add(g.at(i))
				}
				return lazy.Frozen(b.Finish())
			}
			s, l := upTo(keep), upTo(n)
			all := func(any) bool { return true }
			if ops[0]%3 == 0 {
				s = s.Where(all)
				s.Count()
				for i := s.Range(); i.Next(); {
				}
			}
			for _, op := range ops {
				switch op % 8 {
				case 0:
					s.Equal(l)
				case 1:
					l.EqualSet(s)
				case 2:
					s.IsSubsetOf(l)
				case 3:
					s.Union(l).Freeze()
				case 4:
					s.Intersection(l).Freeze()
				case 5:
					s.Difference(l).Freeze()
				case 6:
					s.SymmetricDifference(l).Count()
				case 7:
					for i := 0; i < n; i++ {
						s.Has(g.at(i))
						s.With(g.at(i)).Has(g.at(i))
					}
				}
			}
			return s
		}, func(s lazy.Set) int { return s.Count() + 2 }, blobBytes)
	default:
		keepsOnly(t, name, func() rel.Relation {
			upTo := func(k int, attr string) rel.Relation {
				rows := make([][]any, k)
				for i := range rows {
					rows[i] = []any{i, g.at(i)}
				}
				return rel.New([]string{"a", attr}, rows...)
			}
			s, l := upTo(keep, "b"), upTo(n, "c")
			for _, op := range ops {
				switch op % 6 {
				case 0:
					rel.Join(s, l).Count()
				case 1:
					rel.Join(l, s).Count()
				case 2:
					s.IsSubsetOf(upTo(n, "b"))
				case 3:
					s.Equal(l)
				case 4:
					rel.Nest(rel.Join(s, l), frozen.NewMap(frozen.KV("d", frozen.NewSet("c")))).Count()
				case 5:
					s.Union(l).Difference(s).Hash(0)
				}
			}
			return s
		}, func(r rel.Relation) int { return r.Count() + 1 }, 2*blobBytes)
	}
}

func c31ObservedSet[T any](t *pbt.T, name string, n, keep int, ops []uint64, g blobs, conv func(*blob) T, id func(T) int) {
	at := func(i int) T { return conv(g.at(i)) }
	keepsOnly(t, name, func() frozen.Set[T] {
		upTo := func(k int) frozen.Set[T] {
			var b frozen.SetBuilder[T]
			for i := 0; i < k; i++ {
				b.Add(at(i))
			}
			return b.Finish()
		}
		s, l := upTo(keep), upTo(n)
		if ops[0]%3 == 0 {
			l = l.Without(at(n - 1))
		}
		for _, op := range ops {
			switch op % 13 {
			case 0:
				s.Equal(l)
				s.Equal(upTo(keep))
			case 1:
				l.Equal(s)
			case 2:
				s.IsSubsetOf(l)
			case 3:
				l.IsSubsetOf(s)
			case 4:
				s.Union(l).Count()
			case 5:
				s.Intersection(l).Count()
			case 6:
				l.Difference(s).Count()
			case 7:
				s.Difference(l).Count()
			case 8:
				s.SymmetricDifference(l).Count()
			case 9:
				for i := 0; i < n; i++ {
					s.Has(at(i))
					s.With(at(i))
					s.Without(at(i))
				}
			case 10:
				outer := frozen.NewSet(s, l)
				outer.Has(s)
				outer.Has(l)
			case 11:
				i := s.Union(l).Range()
				for j := 0; j < n/2 && i.Next(); j++ {
				}
				l.OrderedFirstN(keep, less(id))
			case 12:
				frozen.SetGroupBy(s, func(T) int { return l.Count() }).Count()
				s.Reduce(func(a ...T) T { return a[0] })
			}
		}
		return s
	}, setCount[T], blobBytes)
}

func init() {
	register(&pbt.Prop{
		ID: "C31",
		Rule: "a case builds a collection of hundreds to tens of thousands of elements along a drawn path, most of which it takes away, replaces or leaves out by a drawn operation, drops everything but the result, " +
			"and measures the live heap after garbage collection; non-trivial: more than 1000 elements",
		Assumptions: []string{"bound: 120 kB plus about twice what the remaining elements need, where the initial contents are 0.5 to 6 MB; the actual maximum is about 20 kB above the need"},
		Scenarios: []*pbt.Scenario{
			{Name: "set", Quick: 500, Fn: c31Set},
			{Name: "map", Quick: 400, Fn: c31Map},
			{Name: "lazy", Quick: 250, Fn: c31Lazy},
			{Name: "relations", Quick: 100, Fn: c31Rel},
			{Name: "plain", Quick: 80, Fn: c31Plain},
			{Name: "observed", Quick: 400, Fn: c31Observed},
		},
	})
}
