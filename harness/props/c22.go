//go:build all || C22

package props

import (
	"fmt"

	"github.com/arr-ai/frozen"
	"github.com/arr-ai/frozen/pkg/rel"

	"vh/gen"
	"vh/pbt"
	"vh/univ"
)

// together runs n acts in each of several goroutines, then alone, and
// compares.
func together(t *pbt.T, act func(x uint64) string) {
	g := t.Range(2, 5)
	n := t.Range(4, 24)
	salts := make([]uint64, g)
	got := make([][]string, g)
	var fs []func()
	same := t.Bool() // all do the same
	for i := range salts {
		if salts[i] = t.U64(); same && i > 0 {
			salts[i] = salts[0]
		}
		i := i
		got[i] = make([]string, n)
		fs = append(fs, func() {
			for k := range got[i] {
				got[i][k] = act(pbt.Mix(salts[i] + uint64(k)))
			}
		})
	}
	t.Parallel(fs...)
	for i := range got {
		for k, g := range got[i] {
			x := pbt.Mix(salts[i] + uint64(k))
			if alone := act(x); g != alone {
				t.Fatalf("action %d of goroutine %d gave %s concurrently, %s alone", k, i, clip(g), clip(alone))
			}
		}
	}
}

func c22Set(t *pbt.T) {
	var u univ.SetU
	switch t.Weighted(3, 2, 1) {
	case 0:
		u = gen.GenSetU(t, gen.GenN(t))
	case 1:
		u = gen.GenHashedSetU(t, t.Range(3, 30))
	default:
		u = nestedSetU(t)
	}
	p := newPool(t, u)
	t.Loop(2, 7, 16, func(int) { p.step() })
	last := len(p.vs)
	together(t, func(x uint64) string {
		y := x >> 48
		return actSet(u, p.vs[last-1-int(y%5%uint64(last))].s, p.vs[y/5%uint64(last)].s, x)
	})
	for i, v := range p.vs {
		verifySet(t, v.s, v.m, fmt.Sprintf("s%d afterwards", i))
	}
	if p.maxSize > 2 {
		t.NonTrivial()
	}
}

func c22Map(t *pbt.T) {
	var u univ.MapU
	switch t.Weighted(3, 2, 1) {
	case 0:
		u = genMU(t, false, false)
	case 1:
		u = hashedMU(t)
	default:
		u = nestedMapU(t)
	}
	p := newMPool(t, u)
	t.Loop(2, 7, 16, func(int) { p.step() })
	last := len(p.vs)
	together(t, func(x uint64) string {
		y := x >> 48
		return actMap(u, p.vs[last-1-int(y%5%uint64(last))].m, p.vs[y/5%uint64(last)].m, x)
	})
	for i, v := range p.vs {
		verifyMap(t, v.m, v.mm, fmt.Sprintf("m%d afterwards", i))
	}
	if p.maxSize > 2 {
		t.NonTrivial()
	}
}

func c22IntRun[I integer](t *pbt.T) {
	p := newIPool[I](t)
	t.Loop(2, 7, 16, func(int) { p.step() })
	last := uint64(len(p.vs))
	together(t, func(x uint64) string {
		y := x >> 48
		s, o := p.vs[y%last].s, p.vs[y/16%last].s
		v := p.vals[x>>8%uint64(len(p.vals))]
		switch x % 12 {
		case 0:
			return fmt.Sprint(s.Has(v), s.Count(), s.IsEmpty())
		case 1:
			return digestInts(s)
		case 2:
			return digestInts(s.With(v))
		case 3:
			return digestInts(s.Without(v))
		case 4:
			return digestInts(s.Union(o))
		case 5:
			return digestInts(s.Intersection(o))
		case 6:
			return fmt.Sprint(s.EqualSet(o), s.Equal(o), s.Same(o), s.IsSubsetOf(o))
		case 7:
			return digestInts(s.Where(func(i I) bool { return i%3 == 0 }))
		case 8:
			return digestInts(s.Map(func(i I) I { return i / 2 }))
		case 9:
			return sorted(s.String())
		case 10:
			return fmt.Sprint(s.Hash(uintptr(x >> 30)))
		default:
			return digestInts(s.With(v).With(v + 1).Without(v))
		}
	})
	for i, v := range p.vs {
		p.verify(v, fmt.Sprintf("s%d afterwards", i))
	}
	if p.maxSize > 2 {
		t.NonTrivial()
	}
}

func c22Ints(t *pbt.T) {
	anyInt(t, c22IntRun[int], c22IntRun[int8], c22IntRun[uint64], c22IntRun[int16])
}

func c22Rel(t *pbt.T) {
	g := newRelGen(t, relAttrs)
	var ms []rrel
	var rs []rel.Relation
	for i := 0; i < 4; i++ {
		h := g.header(relAttrs[:4])
		if i == 0 || len(h) == 0 {
			h = relAttrs[:3]
		}
		m := g.rel(h, 6, 20)
		ms, rs = append(ms, m), append(rs, m.real(t.Draw(64)))
	}
	nested := frozen.NewMap(frozen.KV("aa", frozen.NewSet("a", "b")))
	hash := func(r rel.Relation) string { return canonV(r) }
	together(t, func(x uint64) string {
		a, b := rs[x>>8%4], rs[x>>16%4]
		switch x % 7 {
		case 0:
			return hash(rel.Join(a, b))
		case 1:
			return hash(rel.Project(a, "a", "c"))
		case 2:
			return hash(rel.Nest(rs[0], nested))
		case 3:
			return hash(rel.Unnest(rel.Nest(rs[0], nested), "aa"))
		case 4:
			return fmt.Sprint(a.Hash(uintptr(x>>30)), a.Equal(b))
		case 5:
			return hash(a.Union(b))
		default:
			return texts("Relation", a.String())
		}
	})
	big := false
	for i, m := range ms {
		verifyRel(t, rs[i], m, fmt.Sprintf("r%d afterwards", i))
		big = big || len(m) > 2
	}
	if big {
		t.NonTrivial()
	}
}

// c22Builders: each goroutine has builders of its own, started from nothing.
func c22Builders(t *pbt.T) {
	u := gen.GenHashedSetU(t, t.Range(4, 60))
	mu := hashedMU(t)
	shared := genM(t, u)
	base := build(t, u, shared)
	together(t, func(x uint64) string {
		b, mb := u.Builder(int(x>>8%20), x&1 == 0), mu.Builder(int(x>>8%20), x&2 == 0)
		for k := uint64(0); k < x>>16%40; k++ {
			y := pbt.Mix(x + k)
			r := univ.Ref{I: int(y >> 8 % uint64(u.N()))}
			mk, v := univ.Ref{I: int(y >> 24 % uint64(mu.Keys().N()))}, univ.Ref{I: int(y >> 40 % uint64(mu.Vals().N()))}
			if y%4 == 0 {
				b.Remove(r)
				mb.Remove(mk)
			} else {
				b.Add(r)
				mb.Put(mk, v)
			}
		}
		s := b.Finish()
		b.Add(univ.Ref{I: 0})
		return digest(s) + digestMap(mb.Finish()) + digest(base.Union(s)) + digest(b.Finish())
	})
	verifySet(t, base, shared, "the shared set afterwards")
	t.NonTrivial()
}

// c22Iterators: goroutines advance iterators of their own over one value.
func c22Iterators(t *pbt.T) {
	u := gen.GenHashedSetU(t, gen.GenN(t))
	m := genM(t, u)
	s := build(t, u, m)
	g := t.Range(2, 5)
	out := make([][]int, g)
	var fs []func()
	for i := 0; i < g; i++ {
		i, it := i, s.Range()
		fs = append(fs, func() { out[i] = drain(it, m.count()+2) })
	}
	t.Parallel(fs...)
	for i, o := range out {
		if !asM(t, u.N(), o, "a concurrent iterator").eq(m) {
			t.Fatalf("concurrent iterator %d yields %v, want %v", i, o, m.list())
		}
	}
	if m.count() > 2 {
		t.NonTrivial()
	}
}

func init() {
	register(&pbt.Prop{
		ID: "C22",
		Rule: "a case builds a history of values and lets 2 to 5 goroutines observe and derive from them, comparing each result with the same action done alone and the values with their models afterwards; " +
			"part of the cases run in a binary with the race detector, in which any report fails the case; non-trivial: some shared value has at least 3 elements",
		Assumptions: []string{"element types, predicates and other callbacks are themselves safe for concurrent use"},
		Scenarios: []*pbt.Scenario{
			{Name: "sets", Quick: 2000, Fn: c22Set},
			{Name: "maps", Quick: 2000, Fn: c22Map},
			{Name: "big-sets", Quick: 40, Fn: big(c22Set)},
			{Name: "big-maps", Quick: 40, Fn: big(c22Map)},
			{Name: "int-sets", Quick: 1200, Fn: c22Ints},
			{Name: "relations", Quick: 1500, Fn: c22Rel},
			{Name: "lazy", Quick: 3000, Fn: c18Concurrent},
			{Name: "builders", Quick: 1500, Fn: c22Builders},
			{Name: "iterators", Quick: 1500, Fn: c22Iterators},
		},
		Configs: []*pbt.Config{withShare(cfgRaceSeq, 1), withShare(cfgRace, 0.3), withShare(cfgDefault, 1)},
	})
}
