//go:build all || C03 || C04 || C05 || C06 || C07 || C15 || C22 || C23 || C29 || C32

package props

import (
	"fmt"

	"github.com/arr-ai/frozen"

	"vh/gen"
	"vh/pbt"
	"vh/univ"
)

// operand pairs with structured overlap and shared structure.
func genPair(t *pbt.T, u univ.SetU) (a, b sv) {
	m := genM(t, u)
	a = sv{build(t, u, m), m}
	switch t.Weighted(4, 4, 2, 2, 1, 1) {
	case 0: // unrelated
		n := genM(t, u)
		b = sv{build(t, u, n), n}
	case 1: // derived by a few updates: shares most nodes
		b = sv{a.s, m}
		t.Loop(0, 4, 20, func(int) {
			r := gen.GenRef(t, u)
			if t.Bool() {
				b = sv{b.s.With(r), b.m.with(r.I)}
			} else {
				b = sv{b.s.Without(r), b.m.without(r.I)}
			}
		})
	case 2: // same elements, built again
		b = sv{build(t, u, m), m}
	case 3: // tiny against large
		n := newM(u.N())
		t.Loop(0, 1, 3, func(int) { n.put(t.Intn(u.N())) })
		b = sv{build(t, u, n), n}
	case 4: // disjoint
		n := genM(t, u).minus(m)
		b = sv{build(t, u, n), n}
	case 5: // subset
		n := genM(t, u).and(m)
		b = sv{build(t, u, n), n}
	}
	if t.Bool() {
		a, b = b, a
	}
	t.Logf("a = %v\nb = %v", short(a.m), short(b.m))
	t.ClassIf(a.m.eq(b.m), "pair:equal")
	t.ClassIf(a.m.and(b.m).count() == 0, "pair:disjoint")
	t.ClassIf(a.m.count() == 0 || b.m.count() == 0, "pair:empty operand")
	if a.m.count() > 1 && b.m.count() > 1 {
		t.NonTrivial()
	}
	return a, b
}

func c03Pair(t *pbt.T) { c03Run(t, gen.GenSetU(t, gen.GenN(t))) }
func c03Hashed(t *pbt.T) {
	c03Run(t, gen.GenHashedSetU(t, t.Range(3, 24)))
}

func c03Run(t *pbt.T, u univ.SetU) {
	a, b := genPair(t, u)
	type op struct {
		name string
		f    func(x, y sv) sv
	}
	ops := []op{
		{"Union", func(x, y sv) sv { return sv{x.s.Union(y.s), x.m.or(y.m)} }},
		{"Intersection", func(x, y sv) sv { return sv{x.s.Intersection(y.s), x.m.and(y.m)} }},
		{"Difference", func(x, y sv) sv { return sv{x.s.Difference(y.s), x.m.minus(y.m)} }},
		{"SymmetricDifference", func(x, y sv) sv { return sv{x.s.SymmetricDifference(y.s), x.m.xor(y.m)} }},
	}
	for _, o := range ops {
		for k, pr := range [][2]sv{{a, b}, {b, a}} {
			r := o.f(pr[0], pr[1])
			what := fmt.Sprintf("%s (order %d)", o.name, k)
			verifySet(t, r.s, r.m, what)
			usable(t, r.s, r.m, what)
			// A further operation on the result.
			p := ops[t.Intn(4)]
			x := pr[t.Intn(2)]
			var r2 sv
			if t.Bool() {
				r2 = p.f(r, x)
			} else {
				r2 = p.f(x, r)
			}
			verifySet(t, r2.s, r2.m, what+" then "+p.name)
			if f := fresh(t, u, r2.m); !f.Equal(r2.s) || !r2.s.Equal(f) {
				t.Fatalf("%s then %s: not Equal to a direct build of %v", what, p.name, short(r2.m))
			}
		}
	}
	verifySet(t, a.s, a.m, "operand a afterwards")
	verifySet(t, b.s, b.m, "operand b afterwards")
}

// c03Laws checks algebraic laws and the n-ary functions.
func c03Laws(t *pbt.T) {
	u := gen.GenHashedSetU(t, t.Range(3, 40))
	if t.Chance(1, 3) {
		u = gen.GenSetU(t, t.Range(3, 40))
	}
	a, b := genPair(t, u)
	cm := genM(t, u)
	c := sv{build(t, u, cm), cm}
	all := newM(u.N())
	for i := 0; i < u.N(); i++ {
		all.put(i)
	}
	U := fresh(t, u, all)
	eq := func(law string, x, y univ.Set) {
		if !x.Equal(y) || !y.Equal(x) || x.Count() != y.Count() || x.Hash(0) != y.Hash(0) {
			t.Fatalf("law %s fails: %v and %v", law, x.Elements(), y.Elements())
		}
	}
	A, B, C := a.s, b.s, c.s
	eq("A∪B = B∪A", A.Union(B), B.Union(A))
	eq("A∩B = B∩A", A.Intersection(B), B.Intersection(A))
	eq("(A∪B)∪C = A∪(B∪C)", A.Union(B).Union(C), A.Union(B.Union(C)))
	eq("(A∩B)∩C = A∩(B∩C)", A.Intersection(B).Intersection(C), A.Intersection(B.Intersection(C)))
	eq("A∩(B∪C) = (A∩B)∪(A∩C)", A.Intersection(B.Union(C)), A.Intersection(B).Union(A.Intersection(C)))
	eq("A∪(B∩C) = (A∪B)∩(A∪C)", A.Union(B.Intersection(C)), A.Union(B).Intersection(A.Union(C)))
	eq("A∪A = A", A.Union(A), A)
	eq("A∩A = A", A.Intersection(A), A)
	eq("A∖A = ∅", A.Difference(A), u.Zero())
	eq("U∖(A∪B) = (U∖A)∩(U∖B)", U.Difference(A.Union(B)), U.Difference(A).Intersection(U.Difference(B)))
	eq("U∖(A∩B) = (U∖A)∪(U∖B)", U.Difference(A.Intersection(B)), U.Difference(A).Union(U.Difference(B)))
	eq("A△B = (A∖B)∪(B∖A)", A.SymmetricDifference(B), A.Difference(B).Union(B.Difference(A)))
	eq("A△B△C assoc", A.SymmetricDifference(B).SymmetricDifference(C), A.SymmetricDifference(B.SymmetricDifference(C)))
	eq("Union(A,B,C)", u.Union(A, B, C), A.Union(B).Union(C))
	eq("Intersection(A,B,C)", u.Intersection(A, B, C), A.Intersection(B).Intersection(C))
	verifySet(t, u.Union(A, B, C), a.m.or(b.m).or(c.m), "Union(A,B,C)")
	verifySet(t, u.Intersection(A, B, C), a.m.and(b.m).and(c.m), "Intersection(A,B,C)")
	verifySet(t, u.Union(), newM(u.N()), "Union()")
	verifySet(t, u.Union(A), a.m, "Union(A)")
	verifySet(t, u.Intersection(A), a.m, "Intersection(A)")
	// Many operands at once.
	var ss []univ.Set
	or, and := newM(u.N()), all
	t.Loop(0, 4, 10, func(int) {
		m := genM(t, u)
		ss = append(ss, build(t, u, m))
		or, and = or.or(m), and.and(m)
	})
	verifySet(t, u.Union(ss...), or, "n-ary Union")
	if len(ss) > 0 {
		verifySet(t, u.Intersection(ss...), and, "n-ary Intersection")
	}
}

// c03Large checks set algebra on sets large enough for parallel evaluation.
func c03Large(t *pbt.T) {
	n := 1<<17 + t.Range(0, 1<<16)
	if t.Bool() {
		n = 1<<14 + t.Range(0, 1<<14)
	}
	var u univ.SetU
	if t.Chance(1, 3) {
		h := make([]uint64, n)
		salt := t.Draw(1 << 16)
		for i := range h {
			h[i] = pbt.Mix(salt + uint64(i)/3) // full collisions in threes
		}
		u = univ.Sets(univ.ElU(h))
	} else {
		u = univ.Sets(univ.IntU(t, n))
	}
	mk := func() sv {
		salt, d := t.Draw(1<<20), t.Range(1, 15)
		m := newM(n)
		var refs []univ.Ref
		for i := 0; i < n; i++ {
			if pbt.Mix(salt^uint64(i))%16 < uint64(d) {
				m.put(i)
				refs = append(refs, univ.Ref{I: i})
			}
		}
		return sv{u.New(refs...), m}
	}
	a, b := mk(), mk()
	chk := func(what string, s univ.Set, m M) {
		if s.Count() != m.count() {
			t.Fatalf("%s: Count() = %d, want %d", what, s.Count(), m.count())
		}
		if got := asM(t, n, s.Elements(), what); !got.eq(m) {
			t.Fatalf("%s: wrong elements", what)
		}
		for i := 0; i < n; i += 7 {
			if s.Has(univ.Ref{I: i}) != m.has(i) {
				t.Fatalf("%s: Has(%d) = %v", what, i, !m.has(i))
			}
		}
	}
	un, in := a.s.Union(b.s), a.s.Intersection(b.s)
	chk("Union", un, a.m.or(b.m))
	chk("Intersection", in, a.m.and(b.m))
	chk("Difference", a.s.Difference(b.s), a.m.minus(b.m))
	sd := a.s.SymmetricDifference(b.s)
	chk("SymmetricDifference", sd, a.m.xor(b.m))
	if !un.Equal(sd.Union(in)) || !sd.IsSubsetOf(un) || !in.IsSubsetOf(a.s) || un.IsSubsetOf(in) {
		t.Fatalf("Union, SymmetricDifference and Intersection do not fit together")
	}
	t.NonTrivial()
}

func c04Pool(t *pbt.T) { c04Run(t, gen.GenSetU(t, gen.GenN(t))) }
func c04Hashed(t *pbt.T) {
	c04Run(t, gen.GenHashedSetU(t, t.Range(3, 14)))
}

func c04Run(t *pbt.T, u univ.SetU) {
	p := newPool(t, u)
	t.Loop(1, 8, 24, func(int) { p.step() })
	// The same contents by other routes, and near misses.
	v := p.vs[p.pick()]
	p.add("rebuild", build(t, u, v.m), v.m, "rebuild")
	t.Loop(1, 2, 4, func(int) {
		r := gen.GenRef(t, u)
		if v.m.has(r.I) {
			p.add("near", build(t, u, v.m).Without(r), v.m.without(r.I), "near miss without %v", r)
		} else {
			p.add("near", build(t, u, v.m).With(r), v.m.with(r.I), "near miss with %v", r)
		}
		if c := v.m.count(); c > 0 && c < u.N() { // one element exchanged
			l := v.m.list()
			out := l[t.Intn(len(l))]
			in := t.Intn(u.N())
			for v.m.has(in) {
				in = (in + 1) % u.N()
			}
			m := v.m.without(out).with(in)
			p.add("swap", build(t, u, m), m, "swap %d for %d", out, in)
		}
	})
	seeds := []uintptr{0, 1, uintptr(t.U64())}
	pair := func(i, j int) {
		a, b := p.vs[i], p.vs[j]
		same := a.m.eq(b.m)
		if got := a.s.Equal(b.s); got != same {
			t.Fatalf("s%d.Equal(s%d) = %v, want %v: %v, %v", i, j, got, same, a.m.list(), b.m.list())
		}
		if got := a.s.SameSet(b.s); got != same {
			t.Fatalf("s%d.Same(s%d) = %v, want %v: %v, %v", i, j, got, same, a.m.list(), b.m.list())
		}
		if got, want := a.s.IsSubsetOf(b.s), a.m.subset(b.m); got != want {
			t.Fatalf("s%d.IsSubsetOf(s%d) = %v, want %v: %v, %v", i, j, got, want, a.m.list(), b.m.list())
		}
		if same {
			for _, s := range seeds {
				if x, y := a.s.Hash(s), b.s.Hash(s); x != y {
					t.Fatalf("s%d and s%d are equal (%v) but hash to %x and %x for seed %x", i, j, a.m.list(), x, y, s)
				}
			}
		}
		t.ClassIf(same, "pair:equal")
		t.ClassIf(!same, "pair:different")
	}
	n := len(p.vs)
	if n <= 12 {
		for i := range p.vs {
			for j := range p.vs {
				pair(i, j)
			}
		}
	} else {
		for i := range p.vs {
			pair(i, i)
			pair(i, n-1)
			pair(n-1, i)
			pair(i, t.Intn(n))
			pair(t.Intn(n), i)
		}
	}
	for _, f := range u.Foreign() {
		for _, v := range p.vs[max(0, n-3):] {
			if v.s.Same(f) {
				t.Fatalf("Same(%T) = true for a set over %s", f, u.Name())
			}
		}
	}
	if p.maxSize > 2 {
		t.NonTrivial()
	}
}

func c04Large(t *pbt.T) {
	n := 1<<17 + t.Range(0, 1<<14)
	u := univ.Sets(univ.IntU(t, n))
	salt := t.Draw(1 << 20)
	refs := make([]univ.Ref, n)
	for i := range refs {
		refs[i].I = i
	}
	a := u.New(refs...)
	shuffle(salt|1, refs)
	b := u.New(refs...)
	if !a.Equal(b) || !b.Equal(a) || a.Hash(9) != b.Hash(9) || !a.IsSubsetOf(b) {
		t.Fatalf("large sets of the same %d elements differ", n)
	}
	for k := 0; k < 12; k++ {
		r := univ.Ref{I: t.Intn(n)}
		c := b.Without(r)
		if c.Equal(a) || a.Equal(c) || a.IsSubsetOf(c) || !c.IsSubsetOf(a) {
			t.Fatalf("large sets that differ in element %d compare wrongly", r.I)
		}
		d := c.Without(univ.Ref{I: (r.I + 1) % n})
		e := a.Without(univ.Ref{I: (r.I + 1) % n}).Without(univ.Ref{I: (r.I + 2) % n})
		if d.Equal(e) || d.IsSubsetOf(e) || e.IsSubsetOf(d) {
			t.Fatalf("large sets of equal size that differ in one element compare wrongly")
		}
		if f := c.With(r); !f.Equal(a) || !a.IsSubsetOf(f) || f.Hash(1) != a.Hash(1) {
			t.Fatalf("removing and adding element %d gives a different set", r.I)
		}
	}
	t.NonTrivial()
}

func c05(t *pbt.T)       { c05Run(t, gen.GenSetU(t, gen.GenN(t))) }
func c05Hashed(t *pbt.T) { c05Run(t, gen.GenHashedSetU(t, t.Range(3, 24))) }

func c05Run(t *pbt.T, u univ.SetU) {
	m := genM(t, u)
	s := build(t, u, m)
	t.Logf("s = %v", short(m))
	if m.count() > 2 {
		t.NonTrivial()
	}
	var mu mutex

	// Where
	d, salt := t.Range(0, 16), t.Draw(1<<10)
	pred := func(k int) bool { return pbt.Mix(salt^uint64(k)<<9)%16 < uint64(d) }
	calls := map[int]int{}
	w := s.Where(func(k int) bool {
		mu.do(func() { calls[k]++ })
		return pred(k)
	})
	verifySet(t, w, m.filter(pred), "Where")
	usable(t, w, m.filter(pred), "Where")
	once(t, "Where predicate", m, calls)
	verifySet(t, s.Where(func(int) bool { return true }), m, "Where(true)")
	verifySet(t, s.Where(func(int) bool { return false }), newM(u.N()), "Where(false)")

	// SetMap within the universe and into others
	targets := []univ.SetU{u, u}
	hs := univ.Hashes(t, t.Range(1, 12))
	targets = append(targets, univ.Sets(univ.ElU(hs)), univ.Sets(univ.AnyElU(hs)), univ.Sets(univ.ElSU(hs)),
		univ.Sets(univ.StringU(t, 9)), univ.Sets(univ.IntU(t, 9)))
	tu := targets[t.Intn(len(targets))]
	mapTo := s.MapTo
	if !u.MapTargets(tu) {
		tu = u
	} else if u.HasExt() {
		mapTo = s.Ext().MapTo
	}
	k, salt2 := t.Range(1, tu.N()), t.Draw(1<<10)
	f := func(e int) univ.Ref {
		x := pbt.Mix(salt2 ^ uint64(e)<<7)
		return univ.Ref{I: int(x % uint64(k)), R: int(x >> 40 % uint64(tu.Reps()))}
	}
	img := newM(tu.N())
	m.each(func(e int) { img.put(f(e).I) })
	calls = map[int]int{}
	got := mapTo(tu, func(e int) univ.Ref {
		mu.do(func() { calls[e]++ })
		return f(e)
	})
	verifySet(t, got, img, "SetMap to "+tu.Name())
	usable(t, got, img, "SetMap to "+tu.Name())
	once(t, "SetMap function", m, calls)

	// Reduce with associative, commutative functions over element indices
	n := u.N()
	rank := make([]int, n)
	for i := range rank {
		rank[i] = i
	}
	shuffle(t.Draw(50), rank)
	inv := make([]int, n)
	for i, r := range rank {
		inv[r] = i
	}
	for _, r := range []struct {
		name string
		f    func(a, b int) int
	}{
		{"max", func(a, b int) int { return rank[max(inv[a], inv[b])] }},
		{"min", func(a, b int) int { return rank[min(inv[a], inv[b])] }},
		{"sum mod n", func(a, b int) int { return (a + b) % n }},
	} {
		want, have := -1, false
		m.each(func(i int) {
			if !have {
				want, have = i, true
			} else {
				want = r.f(want, i)
			}
		})
		empty := false
		res, ok := s.Reduce(func(is []int) int {
			if len(is) == 0 {
				mu.do(func() { empty = true })
				return 0
			}
			acc := is[0]
			for _, i := range is[1:] {
				acc = r.f(acc, i)
			}
			return acc
		})
		if empty {
			t.Fatalf("Reduce(%s): called with no elements", r.name)
		}
		if ok != have || ok && res != want {
			t.Fatalf("Reduce(%s) = %d, %v, want %d, %v; elements %v", r.name, res, ok, want, have, m.list())
		}
		res, ok = s.Reduce2(r.f)
		if ok != have || ok && res != want {
			t.Fatalf("Reduce2(%s) = %d, %v, want %d, %v; elements %v", r.name, res, ok, want, have, m.list())
		}
	}
}

// c05Weights folds counts and weights: a lost or repeated element always shows.
func c05Weights(t *pbt.T) {
	u := univ.Sets(univ.ElU(univ.Hashes(t, gen.GenN(t))))
	m := genM(t, u)
	s := build(t, u, m)
	var sum uint64
	m.each(func(i int) { sum += pbt.Mix(uint64(i) + 77) })
	es, oks := univ.ElReducers(s)
	for i, what := range []string{"Reduce2", "Reduce"} {
		e, ok := es[i], oks[i]
		if ok != (m.count() > 0) {
			t.Fatalf("%s reports %v for %d elements", what, ok, m.count())
		}
		if ok && (e.C != m.count() || e.W != sum) {
			t.Fatalf("%s folds %d contributions of %d elements (weights match: %v)", what, e.C, m.count(), e.W == sum)
		}
	}
	if m.count() > 2 {
		t.NonTrivial()
	}
}

func c05Large(t *pbt.T) {
	n := 1<<17 + t.Intn(1<<15)
	s := frozen.Iota(n)
	x, ok := s.Reduce2(func(a, b int) int { return a + b })
	if !ok || x != n*(n-1)/2 {
		t.Fatalf("Reduce2 over %d ints: %d", n, x)
	}
	k := t.Range(2, 9)
	w := s.Where(func(i int) bool { return i%k == 0 })
	if w.Count() != (n+k-1)/k {
		t.Fatalf("Where over %d ints keeps %d", n, w.Count())
	}
	x, ok = w.Reduce2(func(a, b int) int { return max(a, b) })
	if !ok || x != (n-1)/k*k {
		t.Fatalf("max of multiples = %d", x)
	}
	z := frozen.SetMap(s, func(i int) int { return i / k })
	if z.Count() != (n+k-1)/k || !z.Equal(frozen.Iota((n+k-1)/k)) {
		t.Fatalf("SetMap over %d ints: %d images", n, z.Count())
	}
	t.NonTrivial()
}

func c06Group(t *pbt.T) {
	u := gen.GenExtSetU(t, gen.GenN(t))
	m := genM(t, u)
	s := build(t, u, m)
	k, salt := t.Range(1, 9), t.Draw(1<<10)
	f := func(e int) int { return int(pbt.Mix(salt^uint64(e)<<5)%uint64(k)) - 2 }
	calls := map[int]int{}
	n, groups := s.Ext().GroupByCount(func(e int) int { calls[e]++; return f(e) })
	want := map[int]M{}
	m.each(func(e int) {
		if _, has := want[f(e)]; !has {
			want[f(e)] = newM(u.N())
		}
		want[f(e)].put(e)
	})
	if n != len(want) || len(groups) != len(want) {
		t.Fatalf("SetGroupBy makes %d groups (Count), %d iterated, want %d", n, len(groups), len(want))
	}
	for key, g := range want {
		got, has := groups[key]
		if !has {
			t.Fatalf("SetGroupBy: no group %d", key)
		}
		verifySet(t, got, g, fmt.Sprintf("SetGroupBy group %d", key))
		usable(t, got, g, fmt.Sprintf("SetGroupBy group %d", key))
	}
	verifySet(t, s, m, "grouped set afterwards")
	once(t, "SetGroupBy key function", m, calls)
	if len(want) > 1 && m.count() > 3 {
		t.NonTrivial()
	}
}

// c06GroupKeys groups by keys that collide in hash and have representations.
func c06GroupKeys(t *pbt.T) {
	u := univ.Sets(univ.ElU(univ.Hashes(t, t.Range(3, 40))))
	m := genM(t, u)
	s := build(t, u, m)
	ku := univ.Sets(univ.ElSU(univ.Hashes(t, t.Range(1, 10))))
	salt := t.Draw(1 << 10)
	key := func(i int) univ.Ref {
		x := pbt.Mix(salt ^ uint64(i)<<5)
		return univ.Ref{I: int(x % uint64(ku.N())), R: int(x >> 30 % 3)}
	}
	g := s.Ext().GroupByIn(ku, key)
	groups := map[int]int{}
	m.each(func(i int) { groups[key(i).I]++ })
	if g.Count != len(groups) {
		t.Fatalf("SetGroupBy makes %d groups, want %d", g.Count, len(groups))
	}
	total := 0
	g.Each(func(k int, s univ.Set) {
		total += s.Count()
		if s.IsEmpty() {
			t.Fatalf("SetGroupBy: group %d is empty", k)
		}
		if groups[k] != s.Count() {
			t.Fatalf("SetGroupBy: group %d has %d elements, want %d", k, s.Count(), groups[k])
		}
		for i := s.Range(); i.Next(); {
			if e := i.Value(); e < 0 || key(e).I != k || !m.has(e) {
				t.Fatalf("SetGroupBy: element %d is in group %d", e, k)
			}
		}
	})
	m.each(func(i int) {
		if v, has := g.Get(key(i)); !has || !v.Has(univ.Ref{I: i, R: 1}) {
			t.Fatalf("SetGroupBy: element %d is not in the group of its key", i)
		}
	})
	if total != m.count() {
		t.Fatalf("groups hold %d elements of %d", total, m.count())
	}
	if len(groups) > 1 && m.count() > 3 {
		t.NonTrivial()
	}
}

func c06Powerset(t *pbt.T) {
	u := gen.GenExtSetU(t, t.Range(3, 20))
	m := newM(u.N())
	t.Loop(0, 4, 9, func(int) { m.put(t.Intn(u.N())) })
	s := build(t, u, m)
	l := m.list()
	subs := s.Ext().Powerset()
	if want := 1 << len(l); len(subs) != want || s.Ext().PowersetCount() != want {
		t.Fatalf("Powerset of %d elements yields %d sets, Count %d, want %d", len(l), len(subs), s.Ext().PowersetCount(), want)
	}
	seen := map[string]bool{}
	for _, x := range subs {
		xm := asM(t, u.N(), x.Elements(), "Powerset element")
		if !xm.subset(m) {
			t.Fatalf("Powerset yields %v, not a subset of %v", xm.list(), l)
		}
		k := fmt.Sprint(xm.list())
		if seen[k] {
			t.Fatalf("Powerset yields %s twice", k)
		}
		seen[k] = true
		verifySet(t, x, xm, "Powerset element")
		if !x.Equal(fresh(t, u, xm)) {
			t.Fatalf("Powerset element %s is not Equal to a direct build", k)
		}
	}
	if m.count() > 2 {
		t.NonTrivial()
	}
}

func c06As(t *pbt.T) {
	u := gen.GenExtSetU(t, gen.GenN(t))
	m := genM(t, u)
	s := build(t, u, m)
	n, is, back := s.Ext().AsAny()
	if n != m.count() {
		t.Fatalf("AsSetAny: Count() = %d, want %d", n, m.count())
	}
	if got := asM(t, u.N(), is, "AsSetAny"); !got.eq(m) {
		t.Fatalf("AsSetAny holds %v, want %v", got.list(), m.list())
	}
	verifySet(t, back, m, "SetAs back")
	usable(t, back, m, "SetAs back")
	verifySet(t, s, m, "converted set afterwards")
	if m.count() > 2 {
		t.NonTrivial()
	}
}

// c06PowersetRaw checks membership in a power set by value.
func c06PowersetRaw(t *pbt.T) {
	u := univ.Sets(univ.ElU(univ.Hashes(t, t.Range(3, 12))))
	m := newM(u.N())
	t.Loop(0, 4, 9, func(int) { m.put(t.Intn(u.N())) })
	p := build(t, u, m).Ext()
	if p.PowersetCount() != 1<<m.count() {
		t.Fatalf("Powerset of %d elements has Count %d", m.count(), p.PowersetCount())
	}
	t.Loop(1, 10, 40, func(int) {
		x := genM(t, u)
		if t.Bool() {
			x = x.and(m)
		}
		if got := p.PowersetHas(build(t, u, x)); got != x.subset(m) {
			t.Fatalf("Powerset(%v).Has(%v) = %v", m.list(), x.list(), got)
		}
	})
	if m.count() > 1 {
		t.NonTrivial()
	}
}

func c07(t *pbt.T)       { c07Run(t, gen.GenSetU(t, gen.GenN(t))) }
func c07Hashed(t *pbt.T) { c07Run(t, gen.GenHashedSetU(t, t.Range(3, 30))) }

func c07Run(t *pbt.T, u univ.SetU) {
	m := genM(t, u)
	s := build(t, u, m)
	t.Logf("s = %v", short(m))
	n := m.count()
	if n > 2 {
		t.NonTrivial()
	}
	// A strict weak order, perhaps with ties.
	salt := t.Draw(1 << 10)
	classes := []int{0, 1, 2, 3, n/2 + 1}[t.Intn(5)]
	rank := func(i int) uint64 {
		x := pbt.Mix(salt ^ uint64(i)<<3)
		if salt == 0 {
			x = uint64(i)
		}
		if classes > 0 {
			return x % uint64(classes)
		}
		return x
	}
	t.ClassIf(classes > 0, "order with ties")
	less := func(a, b int) bool { return rank(a) < rank(b) }
	sorted := func(is []int, what string) {
		for i := 1; i < len(is); i++ {
			if less(is[i], is[i-1]) {
				t.Fatalf("%s: %v is not in order at %d", what, is, i)
			}
		}
	}
	full := s.OrderedElements(less)
	if got := asM(t, u.N(), full, "OrderedElements"); !got.eq(m) {
		t.Fatalf("OrderedElements = %v, want %v in order", full, m.list())
	}
	sorted(full, "OrderedElements")
	r := drain(s.OrderedRange(less), n+5)
	if got := asM(t, u.N(), r, "OrderedRange"); !got.eq(m) {
		t.Fatalf("OrderedRange = %v, want %v in order", r, m.list())
	}
	sorted(r, "OrderedRange")
	ks := []int{0, 1, n - 1, n, n + 1, n + 100, t.Intn(n + 3), 1<<20 + t.Intn(9), int(^uint(0) >> 1)}
	for _, k := range ks {
		if k < 0 {
			continue
		}
		kk := min(k, n)
		first := func(what string, is []int) M {
			got := asM(t, u.N(), is, what)
			if len(is) != kk || !got.subset(m) {
				t.Fatalf("%s(%d) = %v of %v", what, k, is, full)
			}
			// Everything left out is no less than anything kept.
			for _, i := range is {
				for _, o := range full {
					if !got.has(o) && less(o, i) {
						t.Fatalf("%s(%d) keeps %d and leaves out the lesser %d", what, k, i, o)
					}
				}
			}
			return got
		}
		is := s.OrderedFirstN(k, less)
		first("OrderedFirstN", is)
		sorted(is, "OrderedFirstN")
		fn := s.FirstN(k, less)
		fm := first("FirstN", fn.Elements())
		verifySet(t, fn, fm, "FirstN")
		an := s.AnyN(k)
		am := asM(t, u.N(), an.Elements(), "AnyN")
		if am.count() != kk || !am.subset(m) {
			t.Fatalf("AnyN(%d) = %v of %v", k, am.list(), m.list())
		}
		verifySet(t, an, am, "AnyN")
		usable(t, an, am, "AnyN")
	}
	if n > 0 {
		f := s.First(less)
		if !m.has(f) {
			t.Fatalf("First = %d, not an element of %v", f, m.list())
		}
		m.each(func(i int) {
			if less(i, f) {
				t.Fatalf("First = %d, but %d is less", f, i)
			}
		})
		if a := s.Any(); !m.has(a) {
			t.Fatalf("Any = %d, not an element of %v", a, m.list())
		}
	} else {
		t.Panics("First of an empty set", func() { s.First(less) })
		t.Panics("Any of an empty set", func() { s.Any() })
	}
	verifySet(t, s, m, "set afterwards")
}

func init() {
	register(&pbt.Prop{
		ID: "C03",
		Rule: "a case is a pair (or list) of sets with drawn overlap, sharing and hash collisions; all operations in both orders are compared with mask arithmetic, " +
			"with directly built sets, and used further; non-trivial: both operands have at least 2 elements",
		Scenarios: []*pbt.Scenario{
			{Name: "pairs", Quick: 3500, Fn: c03Pair},
			{Name: "pairs-hashed", Quick: 6000, Fn: c03Hashed},
			{Name: "big", Quick: 250, Fn: big(c03Pair)},
			{Name: "laws", Quick: 3000, Fn: c03Laws},
			{Name: "large", Quick: 10, Thorough: 100, Fn: c03Large, Only: []string{"default"}},
		},
		Configs: []*pbt.Config{cfgDefault, cfgDeep, withShare(cfgMid, 0.1)},
	})
	register(&pbt.Prop{
		ID: "C04",
		Rule: "a case is a pool of sets built by different histories, with rebuilt copies and near misses; every pair (or many pairs) is compared by " +
			"Equal, Same, IsSubsetOf and Hash against the models; non-trivial: some set has at least 3 elements",
		Scenarios: []*pbt.Scenario{
			{Name: "pool", Quick: 4000, Fn: c04Pool},
			{Name: "pool-hashed", Quick: 6000, Fn: c04Hashed},
			{Name: "big", Quick: 150, Fn: big(c04Pool)},
			{Name: "large", Quick: 8, Thorough: 100, Fn: c04Large, Only: []string{"default"}},
		},
		Configs: []*pbt.Config{cfgDefault, cfgDeep, withShare(cfgMid, 0.1)},
	})
	register(&pbt.Prop{
		ID: "C05",
		Rule: "a case is a set with a drawn predicate, mapping (within or across element types) and folds, compared with the model and with call counts per element; " +
			"non-trivial: at least 3 elements",
		Scenarios: []*pbt.Scenario{
			{Name: "callbacks", Quick: 5000, Fn: c05},
			{Name: "callbacks-hashed", Quick: 5000, Fn: c05Hashed},
			{Name: "big", Quick: 250, Fn: big(c05)},
			{Name: "big-weights", Quick: 250, Fn: big(c05Weights)},
			{Name: "weights", Quick: 4000, Fn: c05Weights},
			{Name: "large", Quick: 8, Thorough: 100, Fn: c05Large, Only: []string{"default"}},
		},
		Configs: []*pbt.Config{cfgDefault, cfgDeep, withShare(cfgMid, 0.1)},
	})
	register(&pbt.Prop{
		ID: "C06",
		Rule: "a case is a set with a drawn grouping, its power set, or its conversion to another element type, compared exactly with the model; " +
			"non-trivial: at least 2 or 3 elements, and several groups where grouped",
		Scenarios: []*pbt.Scenario{
			{Name: "group", Quick: 4000, Fn: c06Group},
			{Name: "group-keys", Quick: 4000, Fn: c06GroupKeys},
			{Name: "big-group", Quick: 200, Fn: big(c06Group)},
			{Name: "big-convert", Quick: 200, Fn: big(c06As)},
			{Name: "powerset", Quick: 1500, Fn: c06Powerset},
			{Name: "powerset-members", Quick: 1500, Fn: c06PowersetRaw},
			{Name: "convert", Quick: 4000, Fn: c06As},
		},
	})
	register(&pbt.Prop{
		ID:   "C07",
		Rule: "a case is a set with a drawn strict weak order (often with ties) and several bounds n around its size; non-trivial: at least 3 elements",
		Scenarios: []*pbt.Scenario{
			{Name: "select", Quick: 5000, Fn: c07},
			{Name: "select-hashed", Quick: 6000, Fn: c07Hashed},
			{Name: "big", Quick: 250, Fn: big(c07)},
		},
	})
}
