//go:build all || C30

package props

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"

	"github.com/arr-ai/frozen"
	"github.com/arr-ai/frozen/lazy"
	"github.com/arr-ai/hash"

	"vh/pbt"
	"vh/univ"
)

// A shape is a family of values. Values come with a canonical text: two values
// of a shape are equal iff their texts are, except that the text of a
// KeyValue, which hashes by its key, has only the key.
type shape struct {
	name   string
	nested bool // has collections in collections
	gen    func(r *rng) (v any, canon string, leaves int)
}

// rng derives the values of a case from one drawn seed.
type rng struct{ x, i uint64 }

func (r *rng) n(n int) int {
	r.i++
	return int(pbt.Mix(r.x^r.i*0x9e3779b97f4a7c15) % uint64(n))
}

// parts draws up to max values of s with different texts.
func (s shape) parts(r *rng, max int) (vs []any, canons []string, leaves int) {
	seen := map[string]bool{}
	for k := r.n(max + 1); k > 0; k-- {
		v, c, l := s.gen(r)
		if !seen[c] {
			seen[c] = true
			vs, canons = append(vs, v), append(canons, c)
			leaves += l
		}
	}
	return
}

func joined(ss []string) string {
	ss = append([]string(nil), ss...)
	sort.Strings(ss)
	return strings.Join(ss, " ")
}

func intShape(d int) shape {
	return shape{name: fmt.Sprintf("int<%d", d), gen: func(r *rng) (any, string, int) {
		i := r.n(d) - d/4
		return i, fmt.Sprint(i), 1
	}}
}

func leafShape(t *pbt.T) shape {
	d := t.Range(2, 12)
	ints := intShape(d)
	leaf := func(name string, f func(i int) any) shape {
		return shape{name: name, gen: func(r *rng) (any, string, int) {
			v, c, _ := ints.gen(r)
			return f(v.(int)), c, 1
		}}
	}
	switch t.Weighted(4, 3, 1, 1, 1) {
	case 0:
		return ints
	case 1:
		return leaf("string", func(i int) any { return fmt.Sprint("s", i) })
	case 2:
		return leaf("float64", func(i int) any { return float64(i) + 0.5 })
	case 3:
		return leaf("struct", func(i int) any { return univ.Pt{X: i / 2, Y: fmt.Sprint(i % 2)} })
	default:
		return leaf("array", func(i int) any { return [2]int{i / 2, i % 2} })
	}
}

func cntShape(t *pbt.T) shape {
	d := t.Range(3, 12)
	salt := t.Draw(1 << 16)
	return shape{name: "counting", gen: func(r *rng) (any, string, int) {
		i := r.n(d)
		return cnt{uint64(i), pbt.Mix(salt ^ uint64(i)*0x9e37)}, fmt.Sprint(i), 1
	}}
}

// wrap draws a collection of values of s.
func wrapShape(t *pbt.T, s shape, val shape, top bool) shape {
	max := t.Range(1, 6)
	kinds := 4
	if top {
		kinds = 5
	}
	switch t.Intn(kinds) {
	case 0:
		return shape{name: "Set of " + s.name, nested: true, gen: func(r *rng) (any, string, int) {
			vs, cs, l := s.parts(r, max)
			return frozen.NewSet(vs...), "{" + joined(cs) + "}", l + 1
		}}
	case 1:
		return shape{name: "lazy.Set of " + s.name, nested: true, gen: func(r *rng) (any, string, int) {
			vs, cs, l := s.parts(r, max)
			return lazy.Frozen(frozen.NewSet(vs...)), "{" + joined(cs) + "}", l + 1
		}}
	case 2:
		return shape{name: "Map of " + s.name + " to " + val.name, nested: true, gen: func(r *rng) (any, string, int) {
			ks, cs, l := s.parts(r, max)
			var b frozen.MapBuilder[any, any]
			for i, k := range ks {
				v, c, vl := val.gen(r)
				b.Put(k, v)
				cs[i] += ":" + c
				l += vl
			}
			return b.Finish(), "(" + joined(cs) + ")", l + 1
		}}
	case 3:
		return shape{name: "Map of " + val.name + " to " + s.name, nested: true, gen: func(r *rng) (any, string, int) {
			ks, cs, l := val.parts(r, max)
			var m frozen.Map[any, any]
			for i, k := range ks {
				v, c, vl := s.gen(r)
				m = m.With(k, v)
				cs[i] += ":" + c
				l += vl
			}
			return m, "(" + joined(cs) + ")", l + 1
		}}
	default:
		return shape{name: "KeyValue by " + s.name, gen: func(r *rng) (any, string, int) {
			k, c, l := s.gen(r)
			return frozen.KV(k, any(r.n(3))), c, l + 1
		}}
	}
}

// typedShape draws a shape of statically typed collections.
func typedShape(t *pbt.T) shape {
	d, max := t.Range(3, 12), t.Range(1, 6)
	ints := intShape(d)
	is := func(r *rng) ([]int, string) {
		vs, cs, _ := ints.parts(r, max)
		out := make([]int, len(vs))
		for i, v := range vs {
			out[i] = v.(int)
		}
		return out, "{" + joined(cs) + "}"
	}
	// group draws a set of things with different texts.
	group := func(r *rng, f func() string) string {
		seen := map[string]bool{}
		for k := r.n(max + 1); k > 0; k-- {
			seen[f()] = true
		}
		var cs []string
		for c := range seen {
			cs = append(cs, c)
		}
		return "{" + joined(cs) + "}"
	}
	switch t.Intn(10) {
	case 0:
		return shape{name: "Set[int]", gen: func(r *rng) (any, string, int) {
			vs, c := is(r)
			return frozen.NewSet(vs...), c, 1
		}}
	case 1:
		return shape{name: "IntSet[int]", gen: func(r *rng) (any, string, int) {
			vs, c := is(r)
			return frozen.NewIntSet(vs...), c, 1
		}}
	case 2:
		return shape{name: "Set[Set[int]]", nested: true, gen: func(r *rng) (any, string, int) {
			var s frozen.Set[frozen.Set[int]]
			c := group(r, func() string {
				vs, c := is(r)
				s = s.With(frozen.NewSet(vs...))
				return c
			})
			return s, c, 1
		}}
	case 3:
		return shape{name: "Set[IntSet[int]]", nested: true, gen: func(r *rng) (any, string, int) {
			var s frozen.Set[frozen.IntSet[int]]
			c := group(r, func() string {
				vs, c := is(r)
				s = s.With(frozen.NewIntSet(vs...))
				return c
			})
			return s, c, 1
		}}
	case 4: // a relation
		attrs := []string{"a", "b", "c"}[:t.Range(1, 3)]
		return shape{name: "Set[Map[string, any]]", nested: true, gen: func(r *rng) (any, string, int) {
			var s frozen.Set[frozen.Map[string, any]]
			c := group(r, func() string {
				var m frozen.Map[string, any]
				var cs []string
				for _, a := range attrs {
					v := r.n(d)
					m = m.With(a, v)
					cs = append(cs, fmt.Sprint(a, v))
				}
				s = s.With(m)
				return joined(cs)
			})
			return s, c, 1
		}}
	case 5:
		return shape{name: "Map[int, int]", gen: func(r *rng) (any, string, int) {
			ks, _ := is(r)
			var m frozen.Map[int, int]
			var cs []string
			for _, k := range ks {
				v := r.n(d)
				m = m.With(k, v)
				cs = append(cs, fmt.Sprint(k, ":", v))
			}
			return m, joined(cs), 1
		}}
	case 6:
		return shape{name: "Map[string, Set[int]]", nested: true, gen: func(r *rng) (any, string, int) {
			ks, _ := is(r)
			var m frozen.Map[string, frozen.Set[int]]
			var cs []string
			for _, k := range ks {
				vs, c := is(r)
				m = m.With(fmt.Sprint(k), frozen.NewSet(vs...))
				cs = append(cs, fmt.Sprint(k, ":", c))
			}
			return m, joined(cs), 1
		}}
	case 7: // the elements of a set may collide, but the sets need not
		return shape{name: "Set[KeyValue[int, int]]", gen: func(r *rng) (any, string, int) {
			var s frozen.Set[frozen.KeyValue[int, int]]
			var cs []string
			for k := r.n(max + 1); k > 0; k-- {
				kv := frozen.KV(r.n(d), r.n(3))
				if !s.Has(kv) {
					s = s.With(kv)
					cs = append(cs, fmt.Sprint(kv.Key))
				}
			}
			return s, joined(cs), 1
		}}
	case 8:
		lz := t.Bool()
		return shape{name: "Set[any] of int, int64 and uint64", gen: func(r *rng) (any, string, int) {
			var s frozen.Set[any]
			var cs []string
			for k := r.n(max + 1); k > 0; k-- {
				i := r.n(d)
				v := []any{i, int64(i), uint64(i)}[r.n(3)]
				if !s.Has(v) {
					s = s.With(v)
					cs = append(cs, fmt.Sprint(i))
				}
			}
			if lz {
				return lazy.Frozen(s), joined(cs), 1
			}
			return s, joined(cs), 1
		}}
	default:
		return shape{name: "KeyValue[Set[int], int]", gen: func(r *rng) (any, string, int) {
			vs, c := is(r)
			return frozen.KV(frozen.NewSet(vs...), r.n(3)), c, 1
		}}
	}
}

func drawShape(t *pbt.T, leaf func(*pbt.T) shape) shape {
	s := leaf(t)
	for k := t.Range(1, 3); k > 0; k-- {
		s = wrapShape(t, s, leaf(t), k == 1)
	}
	return s
}

// values draws about n distinct values of the shape.
func (s shape) values(t *pbt.T, n int) (vs []any, canons []string, leaves int) {
	seen := map[string]bool{}
	r := &rng{x: pbt.Mix(t.Draw(1 << 32))}
	for i := 0; i < n; i++ {
		v, c, l := s.gen(r)
		if !seen[c] {
			seen[c] = true
			vs, canons = append(vs, v), append(canons, c)
			if l > leaves {
				leaves = l
			}
		}
	}
	t.Class("shape:" + s.name)
	t.Logf("%s: %d values", s.name, len(vs))
	if len(vs) >= 50 {
		t.NonTrivial()
	}
	return
}

// c30Hash: distinct values have distinct hashes.
func c30Hash(t *pbt.T) {
	var s shape
	if t.Bool() {
		s = typedShape(t)
	} else {
		s = drawShape(t, leafShape)
	}
	vs, canons, _ := s.values(t, t.Range(2, t.Size(20, 3000)))
	for _, seed := range []uintptr{0, uintptr(t.U64())} {
		by := map[uintptr]int{}
		var bad []string
		n := 0
		for i, v := range vs {
			h := hash.Any(v, seed)
			if h != hash.Any(v, seed) {
				t.Fatalf("hash of %v under %d changes", v, seed)
			}
			if j, has := by[h]; has {
				if n++; len(bad) < 3 {
					bad = append(bad, fmt.Sprintf("%s and %s both hash to %d", canons[j], canons[i], h))
				}
				continue
			}
			by[h] = i
		}
		// One pair in thousands of values is a one in 10^12 chance.
		if n > 1 || n == 1 && len(vs) <= 4 {
			t.Fatalf("under seed %d, %d of %d distinct values of %s collide: %s", seed, n, len(vs), s.name, strings.Join(bad, "; "))
		}
	}
}

// c30Cost: so lookups among collections stay cheap.
func c30Cost(t *pbt.T) {
	s := drawShape(t, cntShape)
	vs, canons, leaves := s.values(t, t.Size(2, 2000))
	n := len(vs)
	set := frozen.NewSet(vs...)
	var b frozen.MapBuilder[any, int]
	for i, v := range vs {
		b.Put(v, i)
	}
	m := b.Finish()
	if set.Count() != n || m.Count() != n {
		t.Fatalf("%d distinct values make a set of %d and a map of %d", n, set.Count(), m.Count())
	}
	// An operation hashes the value sought a few times on its way, and compares
	// it with a few others; the bounds are several times that.
	bound := (8 + 2*bits.Len(uint(n))) * 4 * (leaves + 2)
	r := &rng{x: t.Draw(1 << 32)}
	for k := 0; k < 20; k++ {
		i := r.n(n)
		v := vs[i]
		for what, f := range map[string]func(){
			"Has": func() {
				if !set.Has(v) {
					t.Fatalf("set lacks %s", canons[i])
				}
			},
			"Get": func() {
				if j, has := m.Get(v); !has || i != j {
					t.Fatalf("map has %d, %t for %s", j, has, canons[i])
				}
			},
			"With":        func() { set.With(v) },
			"Without":     func() { set.Without(v) },
			"Map.With":    func() { m.With(v, 1) },
			"Map.Without": func() { m.Without(v) },
		} {
			h, e := cost(f)
			if h > bound || e > bound {
				t.Fatalf("%s of %s among %d distinct values of %s: %d Hash and %d Equal calls, bound %d", what, canons[i], n, s.name, h, e, bound)
			}
		}
	}
}

// A variant of a large collection is the collection with one small change.
type variant struct {
	what string
	v    any
}

// largeSet gives variants of a set that has the n elements at(0)... and
// lacks at(n)...
func largeSet[T any](t *pbt.T, n int, at func(i int) T, wrap func(s frozen.Set[T]) any) (out []variant) {
	var b frozen.SetBuilder[T]
	for i := 0; i < n; i++ {
		b.Add(at(i))
	}
	base := b.Finish()
	if base.Count() != n {
		t.Fatalf("%d distinct elements make a set of %d", n, base.Count())
	}
	out = append(out, variant{"base", wrap(base)})
	order := base.Elements()
	for i, used := range picks(t, n, 8) {
		x := order[used]
		less := base.Without(x)
		out = append(out,
			variant{fmt.Sprint("without ", x), wrap(less)},
			variant{fmt.Sprint("with ", at(n+i)), wrap(base.With(at(n + i)))},
			variant{fmt.Sprint(at(n+i), " for ", x), wrap(less.With(at(n + i)))})
	}
	return
}

// picks draws up to k different numbers below n, those at the ends for
// preference.
func picks(t *pbt.T, n, k int) (out []int) {
	seen := map[int]bool{}
	for _, i := range []int{0, n - 1} {
		if i >= 0 && !seen[i] {
			seen[i] = true
			out = append(out, i)
		}
	}
	for ; k > 0 && n > 0; k-- {
		if i := t.Intn(n); !seen[i] {
			seen[i] = true
			out = append(out, i)
		}
	}
	return
}

func largeMap[V any](t *pbt.T, n int, val func(i int) V, wrap func(m frozen.Map[int, V]) any) (out []variant) {
	var b frozen.MapBuilder[int, V]
	for i := 0; i < n; i++ {
		b.Put(i, val(i))
	}
	base := b.Finish()
	out = append(out, variant{"base", wrap(base)})
	ks := picks(t, n, 8)
	for i, k := range ks {
		out = append(out,
			variant{fmt.Sprint("without key ", k), wrap(base.Without(k))},
			variant{fmt.Sprint("with key ", n+i), wrap(base.With(n+i, val(0)))},
			variant{fmt.Sprint("another value at ", k), wrap(base.With(k, val(n+i)))},
			variant{fmt.Sprint("another key for the value at ", k), wrap(base.Without(k).With(n+i, val(k)))})
		if i > 0 {
			j := ks[i-1]
			out = append(out, variant{fmt.Sprint("values at ", j, " and ", k, " swapped"), wrap(base.With(j, val(k)).With(k, val(j)))})
		}
	}
	return
}

// c30Large: collections of thousands of elements that differ in one element
// hash apart.
func c30Large(t *pbt.T) {
	n := t.Range(1, []int{40, 2000, 2000, 30_000}[t.Intn(4)])
	step := []int{1, 2, 64, 1 << 20, 127}[t.Intn(5)]
	spread := func(i int) int { return (i - n/3) * step }
	if n >= 100 {
		t.NonTrivial()
	}
	var vs []variant
	inside := t.Bool()
	// in gives v, or a collection that has it.
	in := func(v any) any {
		if inside {
			return frozen.NewSet[any](v, 1)
		}
		return v
	}
	kind := t.Intn(9)
	name := []string{"Set[int]", "Set[string]", "Set[any]", "lazy.Set", "IntSet[int]", "IntSet[int16]", "Map[int, int]", "Map[int, string]", "Set[Set[int]]"}[kind]
	t.Class("large:" + name)
	t.Logf("%s of %d, step %d, inside %t", name, n, step, inside)
	switch kind {
	case 0:
		vs = largeSet(t, n, spread, func(s frozen.Set[int]) any { return in(s) })
	case 1:
		vs = largeSet(t, n, func(i int) string { return fmt.Sprint(spread(i)) }, func(s frozen.Set[string]) any { return in(s) })
	case 2:
		vs = largeSet(t, n, func(i int) any {
			if i%2 == 0 {
				return spread(i)
			}
			return fmt.Sprint(i)
		}, func(s frozen.Set[any]) any { return in(s) })
	case 3:
		vs = largeSet(t, n, func(i int) any { return spread(i) }, func(s frozen.Set[any]) any { return in(lazy.Frozen(s)) })
	case 4:
		vs = largeSet(t, n, spread, func(s frozen.Set[int]) any { return in(frozen.NewIntSet(s.Elements()...)) })
	case 5:
		vs = largeSet(t, n, func(i int) int16 { return int16(i - 2000) }, func(s frozen.Set[int16]) any { return in(frozen.NewIntSet(s.Elements()...)) })
	case 6:
		vs = largeMap(t, n, func(i int) int { return spread(i) }, func(m frozen.Map[int, int]) any { return in(m) })
	case 7:
		vs = largeMap(t, n, func(i int) string { return fmt.Sprint(i) }, func(m frozen.Map[int, string]) any { return in(m) })
	default:
		vs = largeSet(t, n, func(i int) frozen.Set[int] { return frozen.NewSet(spread(i), i%7) }, func(s frozen.Set[frozen.Set[int]]) any { return in(s) })
	}
	for _, seed := range []uintptr{0, uintptr(t.U64())} {
		by := map[uintptr]string{}
		for _, v := range vs {
			h := hash.Any(v.v, seed)
			if w, has := by[h]; has {
				t.Fatalf("under seed %d, a %s of %d, %q, has the hash of %q", seed, name, n, v.what, w)
			}
			by[h] = v.what
		}
	}
}

func init() {
	register(&pbt.Prop{
		ID: "C30",
		Rule: "a case draws a family of values (sets, lazy sets, integer sets, maps, pairs, nested up to three deep, over a small domain of basic values, so that they share most of their contents), draws up to 3000 distinct values of it, " +
			"and compares their hashes under seed 0 and a drawn seed, or counts the Hash and Equal calls of lookups and updates in a set and a map of them; or compares the hashes of a large collection (to 30,000 elements) and of the same with one element removed, added or replaced, or two values swapped; non-trivial: at least 50 distinct values, or 100 elements",
		Assumptions: []string{
			"a single pair of equal hashes among more than 4 values passes, as chance could produce it, if with a probability below 10^-12",
			"pairs with equal keys hash alike by design (a KeyValue hashes by its key); basic values of different types are not compared (the hash package gives int(1) and int64(1) one hash)",
		},
		Scenarios: []*pbt.Scenario{
			{Name: "hash", Quick: 1500, Fn: c30Hash},
			{Name: "cost", Quick: 600, Fn: c30Cost},
			{Name: "large", Quick: 20, Fn: c30Large},
		},
	})
}
