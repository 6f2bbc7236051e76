//go:build all || C28

package props

import (
	"fmt"
	"sort"
	"strings"

	"vh/pbt"
	"vh/univ"
)

// The same history runs over universes that differ only in their hashes (and
// in the way equality is defined); everything observed must agree.

// c28Hashes draws several hash assignments for n elements.
func c28Hashes(t *pbt.T, n int) [][]uint64 {
	good := make([]uint64, n)
	salt := t.U64()
	for i := range good {
		good[i] = pbt.Mix(salt + uint64(i))
	}
	zero := make([]uint64, n)
	hss := [][]uint64{good, zero}
	t.Loop(1, 2, 4, func(int) { hss = append(hss, univ.Hashes(t, n)) })
	// Pairs and triples that agree on every bit, or on all but the last.
	twins := make([]uint64, n)
	k, low := uint64(t.Range(2, 4)), t.Draw(2)
	for i := range twins {
		twins[i] = pbt.Mix(salt^uint64(i)/k)&^3 + uint64(i)%k*low
	}
	return append(hss, twins)
}

func c28Obs(s univ.Set, n int, o univ.Set, x uint64) string {
	es := s.Elements()
	sort.Ints(es)
	r := univ.Ref{I: int(x % uint64(n)), R: int(x >> 50 % 3)}
	less := func(a, b int) bool { return a < b }
	var iter []int
	for it := s.Range(); it.Next(); {
		iter = append(iter, it.Value())
	}
	sort.Ints(iter)
	sum, ok := s.Reduce2(func(a, b int) int { return (a + b) % n })
	return fmt.Sprint(s.Count(), s.IsEmpty(), es, iter, s.Has(r), s.Equal(o), o.Equal(s), s.SameSet(o), s.IsSubsetOf(o), o.IsSubsetOf(s),
		s.OrderedElements(less), s.OrderedFirstN(int(x>>20%5), less), sum, ok, !s.Equal(o) || s.Hash(0) == o.Hash(0))
}

// c28Set runs a history and gives its observations.
func c28Set(u univ.SetU, steps []uint64) (obs []string) {
	n := u.N()
	pool := []univ.Set{u.Zero()}
	b := u.Builder(0, false)
	for _, x := range steps {
		i, j := int(x>>8%uint64(len(pool))), int(x>>16%uint64(len(pool)))
		y := x >> 24
		r := univ.Ref{I: int(y % uint64(n)), R: int(y >> 20 % 3)}
		s, o := pool[len(pool)-1-i/2], pool[j]
		var d univ.Set
		what := ""
		switch x % 16 {
		case 0, 1, 2:
			d, what = s.With(r), "With"
		case 3, 4:
			d, what = s.Without(r), "Without"
		case 5:
			d, what = s.Union(o), "Union"
		case 6:
			d, what = s.Intersection(o), "Intersection"
		case 7:
			d, what = s.Difference(o), "Difference"
		case 8:
			d, what = s.SymmetricDifference(o), "SymmetricDifference"
		case 9:
			d, what = s.Where(func(i int) bool { return pbt.Mix(y^uint64(i))%4 > 0 }), "Where"
		case 10:
			k := y%uint64(n) + 1
			d, what = s.MapTo(u, func(i int) univ.Ref { return univ.Ref{I: int(pbt.Mix(y^uint64(i)) % k), R: i % 3} }), "SetMap"
		case 11:
			var refs []univ.Ref
			for k := uint64(0); k < y%20; k++ {
				z := pbt.Mix(y + k)
				refs = append(refs, univ.Ref{I: int(z % uint64(n)), R: int(z >> 33 % 3)})
			}
			d, what = u.New(refs...), "NewSet"
		case 12:
			for k := uint64(0); k < y%20; k++ {
				z := pbt.Mix(y + k)
				r := univ.Ref{I: int(z % uint64(n)), R: int(z >> 33 % 3)}
				if z>>50%3 > 0 {
					b.Add(r)
				} else {
					b.Remove(r)
				}
				obs = append(obs, fmt.Sprint("builder ", b.Count(), b.Has(r)))
			}
			d, what = b.Finish(), "Finish"
		case 13:
			d, what = s.FirstN(int(y%8), func(a, b int) bool { return a > b }), "FirstN"
		case 14:
			d, what = u.Union(s, o, pool[int(y%uint64(len(pool)))]), "Union..."
		default:
			d = s
			for k := uint64(0); k < 12; k++ {
				z := pbt.Mix(y + k)
				r := univ.Ref{I: int(z % uint64(n)), R: int(z >> 33 % 3)}
				if z>>50%2 > 0 {
					d = d.With(r)
				} else {
					d = d.Without(r)
				}
			}
			what = "With/Without*"
		}
		pool = append(pool, d)
		obs = append(obs, what+" "+c28Obs(d, n, o, y))
	}
	for k, s := range pool {
		es := s.Elements()
		sort.Ints(es)
		obs = append(obs, fmt.Sprint("finally ", k, es))
	}
	return
}

func c28Compare(t *pbt.T, name string, k int, got, want []string) {
	for i := range want {
		if i >= len(got) || got[i] != want[i] {
			g := "nothing"
			if i < len(got) {
				g = got[i]
			}
			t.Fatalf("hash assignment %d (%s), observation %d: %s; with well-distributed hashes: %s", k, name, i, clip(g), clip(want[i]))
		}
	}
	if len(got) != len(want) {
		t.Fatalf("hash assignment %d (%s): %d observations, want %d", k, name, len(got), len(want))
	}
}

func steps(t *pbt.T) (xs []uint64) {
	t.Loop(3, 12, 40, func(int) { xs = append(xs, t.U64()) })
	return
}

func c28Sets(t *pbt.T) {
	n := t.Range(3, 20)
	if t.Chance(1, 4) {
		n = t.Range(20, 120)
	}
	xs := steps(t)
	var want []string
	for k, hs := range c28Hashes(t, n) {
		for j, u := range []univ.SetU{
			univ.Sets(univ.ElU(hs)), univ.Sets(univ.ElSU(hs)), univ.Sets(univ.ElCU(hs)), univ.Sets(univ.ElPU(hs)), univ.Sets(univ.AnyElU(hs)),
		} {
			if k > 0 && j != k%5 && j != (k+2)%5 {
				continue
			}
			got := c28Set(u, xs)
			if want == nil {
				want = got
			}
			c28Compare(t, u.Name(), k, got, want)
		}
	}
	if len(xs) > 4 {
		t.NonTrivial()
	}
}

func c28MapObs(m univ.Map, n int, o univ.Map, x uint64) string {
	k := univ.Ref{I: int(x % uint64(n)), R: int(x >> 50 % 3)}
	var es, ks []string
	for r := m.Range(); r.Next(); {
		es = append(es, fmt.Sprint(r.Key(), ":", r.Value()))
	}
	sort.Strings(es)
	for _, i := range m.Keys().Elements() {
		ks = append(ks, fmt.Sprint(i))
	}
	sort.Strings(ks)
	v, has := m.Get(k)
	return fmt.Sprint(m.Count(), m.IsEmpty(), strings.Join(es, " "), strings.Join(ks, " "), m.Has(k), v, has, m.GetElse(k, univ.Ref{}),
		m.Equal(o), o.Equal(m), m.SameMap(o), m.Values().Count(), !m.Equal(o) || m.Hash(0) == o.Hash(0))
}

func c28Map(u univ.MapU, steps []uint64) (obs []string) {
	n, vn := u.Keys().N(), u.Vals().N()
	pool := []univ.Map{u.Zero()}
	b := u.Builder(0, false)
	for _, x := range steps {
		i, j := int(x>>8%uint64(len(pool))), int(x>>16%uint64(len(pool)))
		y := x >> 24
		ref := func(z uint64) univ.Ref { return univ.Ref{I: int(z % uint64(n)), R: int(z >> 33 % 3)} }
		val := func(z uint64) univ.Ref { return univ.Ref{I: int(z >> 20 % uint64(vn))} }
		m, o := pool[len(pool)-1-i/2], pool[j]
		var d univ.Map
		what := ""
		switch x % 14 {
		case 0, 1, 2:
			d, what = m.With(ref(y), val(y)), "With"
		case 3, 4:
			d, what = m.Without(ref(y)), "Without"
		case 5:
			d, what = m.Update(o), "Update"
		case 6:
			d, what = m.Merge(o, func(k, a, b int) univ.Ref { return univ.Ref{I: (k + 2*a + 5*b) % vn} }), "Merge"
		case 7:
			d, what = m.Where(func(k, v int) bool { return pbt.Mix(y^uint64(k*99+v))%4 > 0 }), "Where"
		case 8:
			d, what = m.MapMap(func(k, v int) univ.Ref { return univ.Ref{I: (k*3 + v) % vn} }), "MapMap"
		case 9:
			d, what = m.Project(ref(y), ref(pbt.Mix(y)), ref(pbt.Mix(y+1)), ref(pbt.Mix(y+2))), "Project"
		case 10:
			d, what = u.FromKeys(o.Keys(), func(k int) univ.Ref { return univ.Ref{I: k * 7 % vn} }), "NewMapFromKeys"
		case 11:
			var kvs []univ.KV
			for k := uint64(0); k < y%20; k++ {
				z := pbt.Mix(y + k)
				kvs = append(kvs, univ.KV{K: ref(z), V: val(z)})
			}
			d, what = u.New(kvs...), "NewMap"
		case 12:
			for k := uint64(0); k < y%20; k++ {
				z := pbt.Mix(y + k)
				if z>>50%3 > 0 {
					b.Put(ref(z), val(z))
				} else {
					b.Remove(ref(z))
				}
				v, has := b.Get(ref(z))
				obs = append(obs, fmt.Sprint("builder ", b.Count(), v, has))
			}
			d, what = b.Finish(), "Finish"
		default:
			d = m
			for k := uint64(0); k < 12; k++ {
				if z := pbt.Mix(y + k); z>>50%2 > 0 {
					d = d.With(ref(z), val(z))
				} else {
					d = d.Without(ref(z))
				}
			}
			what = "With/Without*"
		}
		pool = append(pool, d)
		obs = append(obs, what+" "+c28MapObs(d, n, o, y))
	}
	for k, m := range pool {
		var es []string
		for r := m.Range(); r.Next(); {
			es = append(es, fmt.Sprint(r.Key(), ":", r.Value()))
		}
		sort.Strings(es)
		obs = append(obs, fmt.Sprint("finally ", k, es))
	}
	return
}

func c28Maps(t *pbt.T) {
	n := t.Range(3, 20)
	if t.Chance(1, 5) {
		n = t.Range(20, 100)
	}
	vn := t.Range(2, 5)
	xs := steps(t)
	vgood := make([]uint64, vn)
	for i := range vgood {
		vgood[i] = pbt.Mix(uint64(i) + 12345)
	}
	var want []string
	for k, hs := range c28Hashes(t, n) {
		vhs := vgood
		if k > 0 {
			vhs = univ.Hashes(t, vn)
		}
		for j, u := range []univ.MapU{
			univ.Maps(univ.ElU(hs), univ.ZeroIntU(vn), univ.MapOpts{}), univ.Maps(univ.ElSU(hs), univ.ElU(vhs), univ.MapOpts{}),
			univ.Maps(univ.ElCU(hs), univ.ElCU(vhs), univ.MapOpts{}),
		} {
			if k > 0 && j != k%3 && j != (k+1)%3 {
				continue
			}
			got := c28Map(u, xs)
			if want == nil {
				want = got
			}
			c28Compare(t, u.Name(), k, got, want)
		}
	}
	if len(xs) > 4 {
		t.NonTrivial()
	}
}

func init() {
	register(&pbt.Prop{
		ID: "C28",
		Rule: "a case is one history of set or map operations (with builders, maps over elements, bulk construction) run once over well-distributed hashes and again over several drawn hash assignments " +
			"(constant, few values, shared prefixes or suffixes, twins, digit trees) and element types; all observations must agree; non-trivial: histories of more than 4 steps",
		Scenarios: []*pbt.Scenario{
			{Name: "sets", Quick: 8000, Fn: c28Sets},
			{Name: "maps", Quick: 6000, Fn: c28Maps},
		},
		Configs: []*pbt.Config{cfgDefault, withShare(cfgDeep, 0.1)},
	})
}
