//go:build all || C22 || C29 || C32

package props

import (
	"fmt"
	"sort"
	"strings"

	"github.com/arr-ai/frozen"

	"vh/pbt"
	"vh/univ"
)

// digest describes a set by its contents.
func digest(s univ.Set) string {
	es := s.Elements()
	sort.Ints(es)
	return fmt.Sprint(s.Count(), es, s.Hash(3))
}

func digestMap(m univ.Map) string {
	var es []string
	for r := m.Range(); r.Next(); {
		es = append(es, fmt.Sprint(r.Key(), ":", r.Value()))
	}
	sort.Strings(es)
	return fmt.Sprint(m.Count(), es)
}

const setActs = 24

// texts gives a digest of a text, unless the universe may hold lazy sets, whose
// text shows addresses and changes as they are evaluated.
func texts(universe, text string) string {
	for _, n := range strings.Split(universe, "->") {
		switch n {
		case "any", "Set[any]", "Map[any,any]", "KeyValue[any,any]", "Relation", "Set[Set[any]]", "Map[Map,Set]":
			return ""
		}
	}
	return sorted(text)
}

// actSet does one thing with s, and perhaps o, and describes the outcome. It
// depends on nothing but its arguments, so it can run in any goroutine.
func actSet(u univ.SetU, s, o univ.Set, x uint64) string {
	r := univ.Ref{I: int(x >> 8 % uint64(u.N())), R: int(x >> 40 % uint64(u.Reps()))}
	y := x >> 20
	f := func(i int) bool { univ.Tick(); return pbt.Mix(y^uint64(i))%3 > 0 }
	less := func(a, b int) bool { univ.Tick(); return a < b }
	switch x % setActs {
	case 0:
		return fmt.Sprint(s.Has(r))
	case 1:
		return digest(s)
	case 2:
		return fmt.Sprint(s.Count(), s.IsEmpty())
	case 3:
		return fmt.Sprint(s.Equal(o), o.Equal(s), s.SameSet(o), s.Equal(s))
	case 4:
		return fmt.Sprint(s.IsSubsetOf(o), o.IsSubsetOf(s))
	case 5:
		return fmt.Sprint(s.Hash(uintptr(y % 5)))
	case 6:
		return digest(s.With(r))
	case 7:
		return digest(s.Without(r))
	case 8:
		return digest(s.Union(o))
	case 9:
		return digest(s.Intersection(o))
	case 10:
		return digest(s.Difference(o))
	case 11:
		return digest(s.SymmetricDifference(o))
	case 12:
		return digest(s.Where(f))
	case 13:
		return fmt.Sprint(s.OrderedElements(less))
	case 14:
		return fmt.Sprint(s.OrderedFirstN(int(y%5), less))
	case 15:
		n := 0
		for it := s.Range(); it.Next(); {
			n += it.Value() + 1
		}
		return fmt.Sprint(n)
	case 16:
		k, ok := s.Reduce(func(is []int) int {
			univ.Tick()
			k := is[0]
			for _, i := range is {
				k = max(k, i)
			}
			return k
		})
		return fmt.Sprint(k, ok)
	case 17:
		if !u.HasExt() {
			return ""
		}
		g := s.Ext().GroupBy(func(i int) int { univ.Tick(); return i % 3 })
		var ds []string
		for k := 0; k < 3; k++ {
			if s, has := g[k]; has {
				ds = append(ds, digest(s))
			}
		}
		return strings.Join(ds, "|")
	case 18:
		return digest(s.MapTo(u, func(i int) univ.Ref { univ.Tick(); return univ.Ref{I: i / 2} }))
	case 19:
		if !u.HasExt() {
			return ""
		}
		_, _, again := s.Ext().AsAny()
		return digest(again)
	case 20:
		return texts(u.Name(), s.String())
	case 21:
		return texts(u.Name(), s.Sprintf("%+v"))
	case 22:
		j, err := s.JSON()
		return texts(u.Name(), string(j)) + fmt.Sprint(err != nil)
	default:
		w := s
		for k := 0; k < 8; k++ {
			q := univ.Ref{I: int(pbt.Mix(y+uint64(k)) % uint64(u.N()))}
			if k%2 == 0 {
				w = w.With(q)
			} else {
				w = w.Without(q)
			}
		}
		return digest(w)
	}
}

const mapActs = 18

func actMap(u univ.MapU, m, o univ.Map, x uint64) string {
	k := univ.Ref{I: int(x >> 8 % uint64(u.Keys().N())), R: int(x >> 40 % uint64(u.Keys().Reps()))}
	v := univ.Ref{I: int(x >> 24 % uint64(u.Vals().N()))}
	y := x >> 20
	switch x % mapActs {
	case 0:
		return fmt.Sprint(m.Has(k))
	case 1:
		i, ok := m.Get(k)
		return fmt.Sprint(i, ok, m.GetElse(k, v), m.GetElseFunc(k, func() univ.Ref { univ.Tick(); return v }))
	case 2:
		return digestMap(m)
	case 3:
		return digestMap(m.With(k, v))
	case 4:
		return digestMap(m.Without(k))
	case 5:
		return digestMap(m.Update(o))
	case 6:
		return digestMap(m.Merge(o, func(k, a, b int) univ.Ref { univ.Tick(); return univ.Ref{I: (k + a + 2*b) % u.Vals().N()} }))
	case 7:
		return digestMap(m.Where(func(k, v int) bool { univ.Tick(); return pbt.Mix(y^uint64(k*64+v))%3 > 0 }))
	case 8:
		return digestMap(m.MapMap(func(k, v int) univ.Ref { univ.Tick(); return univ.Ref{I: (k + v) % u.Vals().N()} }))
	case 9:
		return digest(m.Keys())
	case 10:
		if !u.Comparable() {
			return ""
		}
		return fmt.Sprint(m.Equal(o), o.Equal(m), m.Equal(m), m.SameMap(o))
	case 11:
		if !u.Hashable() {
			return ""
		}
		return fmt.Sprint(m.Hash(uintptr(y % 5)))
	case 12:
		return digestMap(m.Project(k, univ.Ref{I: 0}))
	case 13:
		return texts(u.Name(), m.String())
	case 14:
		j, err := m.JSON()
		return texts(u.Name(), string(j)) + fmt.Sprint(err != nil)
	case 15:
		if !u.Hashable() {
			return ""
		}
		return digest(m.Values())
	case 16:
		if !u.GoMaps() {
			return ""
		}
		n, g := m.Go()
		return fmt.Sprint(n, g)
	default:
		w := m
		for i := 0; i < 8; i++ {
			q := univ.Ref{I: int(pbt.Mix(y+uint64(i)) % uint64(u.Keys().N()))}
			if i%2 == 0 {
				w = w.With(q, v)
			} else {
				w = w.Without(q)
			}
		}
		return digestMap(w)
	}
}

func digestInts[I integer](s frozen.IntSet[I]) string {
	es := s.Elements()
	sort.Slice(es, func(i, j int) bool { return es[i] < es[j] })
	return fmt.Sprint(s.Count(), es, s.Hash(3))
}
