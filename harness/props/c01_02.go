//go:build all || C01 || C02 || C15 || C22 || C23 || C29 || C32

package props

import (
	"fmt"

	"vh/gen"
	"vh/pbt"
	"vh/univ"
)

// snap is everything observable about a set.
type snap struct {
	count  int
	elems  []int
	has    []bool
	hash   [2]uintptr
	mirror univ.Set // built separately from the same elements
}

func takeSnap(t *pbt.T, v sv) snap {
	s := snap{count: v.s.Count(), elems: v.s.Elements(), hash: [2]uintptr{v.s.Hash(0), v.s.Hash(77)}}
	for i := 0; i < v.s.U().N(); i++ {
		s.has = append(s.has, v.s.Has(univ.Ref{I: i}))
	}
	var refs []univ.Ref
	v.m.each(func(i int) { refs = append(refs, univ.Ref{I: i}) })
	s.mirror = v.s.U().New(refs...)
	return s
}

// sameSnap checks that nothing observable about the value has changed.
func sameSnap(t *pbt.T, v sv, old snap, what string) {
	if c := v.s.Count(); c != old.count {
		t.Fatalf("%s changed: Count was %d, is %d", what, old.count, c)
	}
	es := v.s.Elements()
	if len(es) != len(old.elems) {
		t.Fatalf("%s changed: elements were %v, are %v", what, old.elems, es)
	}
	a, b := asM(t, v.s.U().N(), es, what), asM(t, v.s.U().N(), old.elems, what)
	if !a.eq(b) {
		t.Fatalf("%s changed: elements were %v, are %v", what, old.elems, es)
	}
	for i, h := range old.has {
		if v.s.Has(univ.Ref{I: i}) != h {
			t.Fatalf("%s changed: Has(%d) was %v, is %v", what, i, h, !h)
		}
	}
	if h := [2]uintptr{v.s.Hash(0), v.s.Hash(77)}; h != old.hash {
		t.Fatalf("%s changed: its hash was %x, is %x", what, old.hash, h)
	}
	if !v.s.Equal(old.mirror) || !old.mirror.Equal(v.s) {
		t.Fatalf("%s changed: no longer Equal to a set of the same elements %v", what, v.m.list())
	}
}

func c01Sets(t *pbt.T) {
	u := gen.GenSetU(t, gen.GenN(t))
	c01SetHistory(t, u)
}

func c01Deep(t *pbt.T) { c01SetHistory(t, gen.GenHashedSetU(t, t.Range(3, 14))) }

func c01SetHistory(t *pbt.T, u univ.SetU) {
	p := newPool(t, u)
	var snaps []snap
	p.check = func(v sv, what string) {
		verifySet(t, v.s, v.m, what)
		snaps = append(snaps, takeSnap(t, v))
	}
	snaps = append(snaps, takeSnap(t, p.vs[0]))
	var its []univ.Iter // iterators left half way
	var itsOf []int
	t.Loop(1, 12, 40, func(int) {
		if t.Weighted(6, 1) == 1 {
			i := p.pick()
			it := p.vs[i].s.Range()
			for k := t.Intn(p.vs[i].m.count() + 1); k > 0; k-- {
				it.Next()
			}
			its, itsOf = append(its, it), append(itsOf, i)
			p.vs[i].s.ElementsMutating()
			return
		}
		p.step()
	})
	for i, it := range its {
		for k := 0; it.Next(); k++ {
			if v := it.Value(); !p.vs[itsOf[i]].m.has(v) {
				t.Fatalf("iterator over s%d, resumed after later operations, yields foreign %d", itsOf[i], v)
			}
			if k > u.N() {
				t.Fatalf("iterator over s%d does not end", itsOf[i])
			}
		}
	}
	for i, v := range p.vs {
		sameSnap(t, v, snaps[i], fmt.Sprintf("s%d", i))
	}
	if len(p.vs) > 4 && p.maxSize > 2 {
		t.NonTrivial()
	}
}

// c01Forks derives many values from one base and compares all of them at the
// end: a shared backing store shows as interference.
func c01Forks(t *pbt.T) {
	n := t.Range(4, 30)
	u := gen.GenHashedSetU(t, n)
	m := genM(t, u)
	base := sv{build(t, u, m), m}
	verifySet(t, base.s, m, "base")
	s0 := takeSnap(t, base)
	vs := []sv{base}
	parents := []int{-1}
	snaps := []snap{s0}
	t.Loop(2, 8, 24, func(int) {
		// A star or a short chain.
		i := 0
		if t.Chance(1, 3) {
			i = t.Intn(len(vs))
		}
		p := vs[i]
		r := gen.GenRef(t, u)
		var v sv
		switch t.Weighted(5, 3, 1, 1) {
		case 0:
			v = sv{p.s.With(r), p.m.with(r.I)}
			t.Logf("s%d := s%d.With(%v)", len(vs), i, r)
		case 1:
			v = sv{p.s.Without(r), p.m.without(r.I)}
			t.Logf("s%d := s%d.Without(%v)", len(vs), i, r)
		case 2:
			o := vs[t.Intn(len(vs))]
			v = sv{p.s.Union(o.s), p.m.or(o.m)}
			t.Logf("s%d := s%d.Union(...)", len(vs), i)
		case 3:
			o := vs[t.Intn(len(vs))]
			v = sv{p.s.Difference(o.s), p.m.minus(o.m)}
			t.Logf("s%d := s%d.Difference(...)", len(vs), i)
		}
		vs, parents = append(vs, v), append(parents, i)
		snaps = append(snaps, takeSnap(t, v))
	})
	for i, v := range vs {
		verifySet(t, v.s, v.m, fmt.Sprintf("s%d (from s%d), after its siblings were made", i, parents[i]))
		sameSnap(t, v, snaps[i], fmt.Sprintf("s%d", i))
	}
	if m.count() >= 2 {
		t.NonTrivial()
	}
}

func c02History(t *pbt.T) {
	u := gen.GenSetU(t, gen.GenN(t))
	c02Run(t, u)
}

func c02Hashed(t *pbt.T) { c02Run(t, gen.GenHashedSetU(t, t.Range(3, 16))) }

func c02Run(t *pbt.T, u univ.SetU) {
	p := newPool(t, u)
	verifySet(t, p.vs[0].s, p.vs[0].m, "zero value")
	p.check = func(v sv, what string) { verifySet(t, v.s, v.m, what) }
	t.Loop(1, 12, 50, func(int) {
		if t.Weighted(8, 1) == 0 {
			p.step()
			return
		}
		// With of a present and Without of an absent element change nothing.
		v := p.vs[p.pick()]
		r := gen.GenRef(t, u)
		var w univ.Set
		if v.m.has(r.I) {
			w = v.s.With(r)
		} else {
			w = v.s.Without(r)
		}
		if !w.Equal(v.s) || !v.s.Equal(w) || w.Count() != v.m.count() || w.Hash(5) != v.s.Hash(5) {
			t.Fatalf("With of a present or Without of an absent element %v changed the value", r)
		}
		verifySet(t, w, v.m, "no-op update")
	})
	if p.maxSize > 2 && len(p.vs) > 3 {
		t.NonTrivial()
	}
}

// c02Large compares large sets with the model.
func c02Large(t *pbt.T) {
	n := 1 << uint(t.Range(12, 17))
	n += t.Intn(n / 8)
	var u univ.SetU
	if t.Bool() {
		u = univ.Sets(univ.IntU(t, n))
	} else {
		u = univ.Sets(univ.ElU(univ.Hashes(t, 1<<12)))
	}
	n = u.N()
	salt := t.Draw(1 << 20)
	m := newM(n)
	var refs []univ.Ref
	for i := 0; i < n; i++ {
		if pbt.Mix(salt^uint64(i))%8 != 0 {
			m.put(i)
			refs = append(refs, univ.Ref{I: i})
		}
	}
	shuffle(salt|1, refs)
	s := u.New(refs...)
	check := func(what string) {
		if s.Count() != m.count() {
			t.Fatalf("%s: Count() = %d, want %d", what, s.Count(), m.count())
		}
		if got := asM(t, n, s.Elements(), what); !got.eq(m) {
			t.Fatalf("%s: wrong elements", what)
		}
		for i := 0; i < n; i++ {
			if s.Has(univ.Ref{I: i}) != m.has(i) {
				t.Fatalf("%s: Has(%d) = %v", what, i, !m.has(i))
			}
		}
	}
	check("NewSet")
	for i := 0; i < 2000; i++ {
		k := int(pbt.Mix(salt+uint64(i)*3) % uint64(n))
		if pbt.Mix(uint64(i)^salt<<3)&1 == 0 {
			s = s.With(univ.Ref{I: k})
			m.put(k)
		} else {
			s = s.Without(univ.Ref{I: k})
			m.del(k)
		}
	}
	check("after updates")
	p := univ.Ref{I: n / 2}
	b := u.Builder(0, false)
	for i := 0; i < n; i += 3 {
		b.Add(univ.Ref{I: i})
	}
	third := newM(n)
	for i := 0; i < n; i += 3 {
		third.put(i)
	}
	o := b.Finish()
	_ = p
	s, m = s.Difference(o), m.minus(third)
	check("difference")
	s, m = s.Union(o), m.or(third)
	check("union")
	s, m = s.Intersection(o), m.and(third)
	check("intersection")
	t.NonTrivial()
}

func init() {
	register(&pbt.Prop{
		ID: "C02",
		Rule: "a case is a generated history of up to 50 set operations over a drawn element universe and hash distribution, " +
			"every result compared with a bit-mask model in every basic observation; non-trivial: at least 3 derived sets, one with at least 3 elements",
		Scenarios: []*pbt.Scenario{
			{Name: "history", Quick: 6000, Fn: c02History},
			{Name: "hashed", Quick: 6000, Fn: c02Hashed},
			{Name: "big", Quick: 250, Fn: big(c02History)},
			{Name: "large", Quick: 16, Fn: c02Large, Only: []string{"default"}},
		},
		Configs: []*pbt.Config{cfgDefault, cfgDeep},
	})
}
