package props

import (
	"fmt"

	"vh/gen"
	"vh/pbt"
	"vh/univ"
)

// sv is a set together with its model.
type sv struct {
	s univ.Set
	m M
}

// pool is a growing history of sets over one universe: every step derives a
// new set from earlier ones, and none is forgotten.
type pool struct {
	t       *pbt.T
	u       univ.SetU
	vs      []sv
	ops     map[string]bool
	maxSize int
	// check is called with each new value.
	check func(v sv, what string)
}

func newPool(t *pbt.T, u univ.SetU) *pool {
	p := &pool{t: t, u: u, ops: map[string]bool{}}
	p.vs = append(p.vs, sv{u.Zero(), newM(u.N())})
	return p
}

func (p *pool) pick() int {
	n := len(p.vs)
	if n > 4 && p.t.Chance(2, 3) {
		return n - 1 - p.t.Intn(4)
	}
	return n - 1 - p.t.Intn(n)
}

func (p *pool) add(op string, s univ.Set, m M, format string, args ...any) {
	what := ""
	if p.t.Tracing() {
		what = fmt.Sprintf("s%d := %s", len(p.vs), fmt.Sprintf(format, args...))
		p.t.Logf("%s = %v", what, short(m))
	} else {
		what = fmt.Sprintf("s%d (%s)", len(p.vs), op)
	}
	v := sv{s, m}
	if p.check != nil {
		p.check(v, what)
	}
	p.vs = append(p.vs, v)
	p.ops[op] = true
	if c := m.count(); c > p.maxSize {
		p.maxSize = c
	}
}

func short(m M) any {
	l := m.list()
	if len(l) > 30 {
		return fmt.Sprintf("%d elements", len(l))
	}
	return l
}

// member draws a reference, preferring present (or absent) ones.
func (p *pool) member(m M) univ.Ref {
	r := gen.GenRef(p.t, p.u)
	if c := m.count(); c > 0 && p.t.Bool() {
		l := m.list()
		r.I = l[r.I%len(l)]
	}
	return r
}

// step performs one random operation.
func (p *pool) step() {
	t, u := p.t, p.u
	switch t.Weighted(6, 5, 5, 3, 3, 3, 2, 2, 2, 2, 1, 1, 1, 1, 1, 2, 1) {
	case 0:
		i := p.pick()
		r := p.member(p.vs[i].m)
		p.add("With", p.vs[i].s.With(r), p.vs[i].m.with(r.I), "s%d.With(%v)", i, r)
	case 1:
		i := p.pick()
		r := p.member(p.vs[i].m)
		p.add("Without", p.vs[i].s.Without(r), p.vs[i].m.without(r.I), "s%d.Without(%v)", i, r)
	case 2:
		m := genM(t, u)
		p.add("build", build(t, u, m), m, "build")
	case 3:
		i, j := p.pick(), p.pick()
		p.add("Union", p.vs[i].s.Union(p.vs[j].s), p.vs[i].m.or(p.vs[j].m), "s%d.Union(s%d)", i, j)
	case 4:
		i, j := p.pick(), p.pick()
		p.add("Intersection", p.vs[i].s.Intersection(p.vs[j].s), p.vs[i].m.and(p.vs[j].m), "s%d.Intersection(s%d)", i, j)
	case 5:
		i, j := p.pick(), p.pick()
		p.add("Difference", p.vs[i].s.Difference(p.vs[j].s), p.vs[i].m.minus(p.vs[j].m), "s%d.Difference(s%d)", i, j)
	case 6:
		i, j := p.pick(), p.pick()
		p.add("SymmetricDifference", p.vs[i].s.SymmetricDifference(p.vs[j].s), p.vs[i].m.xor(p.vs[j].m), "s%d.SymmetricDifference(s%d)", i, j)
	case 7:
		i := p.pick()
		d, salt := t.Range(0, 16), t.Draw(1<<10)
		f := func(k int) bool { return pbt.Mix(salt^uint64(k)<<11)%16 < uint64(d) }
		p.add("Where", p.vs[i].s.Where(f), p.vs[i].m.filter(f), "s%d.Where(...)", i)
	case 8: // a run of With
		i := p.pick()
		s, m := p.vs[i].s, p.vs[i].m.clone()
		add := genM(t, u)
		for _, r := range freshRefs(t, u, add) {
			s = s.With(r)
			m.put(r.I)
		}
		p.add("With*", s, m, "s%d.With* %v", i, short(add))
	case 9: // a run of Without
		i := p.pick()
		s, m := p.vs[i].s, p.vs[i].m.clone()
		del := genM(t, u)
		for _, r := range freshRefs(t, u, del) {
			s = s.Without(r)
			m.del(r.I)
		}
		p.add("Without*", s, m, "s%d.Without* %v", i, short(del))
	case 10:
		i := p.pick()
		n := t.Intn(p.vs[i].m.count() + 2)
		s := p.vs[i].s.AnyN(n)
		m := asM(t, u.N(), s.Elements(), "AnyN")
		if want := min(n, p.vs[i].m.count()); m.count() != want || !m.subset(p.vs[i].m) {
			t.Fatalf("s%d.AnyN(%d) = %v of %v", i, n, m.list(), p.vs[i].m.list())
		}
		p.add("AnyN", s, m, "s%d.AnyN(%d)", i, n)
	case 11: // image under a function into the universe
		i := p.pick()
		salt, k := t.Draw(1<<10), t.Range(1, u.N())
		f := func(e int) univ.Ref { return univ.Ref{I: int(pbt.Mix(salt^uint64(e)) % uint64(k)), R: e % u.Reps()} }
		m := newM(u.N())
		p.vs[i].m.each(func(e int) { m.put(f(e).I) })
		p.add("SetMap", p.vs[i].s.MapTo(u, f), m, "SetMap(s%d, ...)", i)
	case 12:
		i := p.pick()
		k, salt := t.Range(1, 6), t.Draw(1<<10)
		f := func(e int) int { return int(pbt.Mix(salt^uint64(e)) % uint64(k)) }
		if !u.HasExt() {
			p.add("Where", p.vs[i].s.Where(func(e int) bool { return f(e) == 0 }), p.vs[i].m.filter(func(e int) bool { return f(e) == 0 }), "s%d.Where", i)
			return
		}
		g := p.vs[i].s.Ext().GroupBy(f)
		which := t.Intn(k)
		m := p.vs[i].m.filter(func(e int) bool { return f(e) == which })
		s, has := g[which]
		if has != (m.count() > 0) {
			t.Fatalf("SetGroupBy(s%d): group %d present: %v, want %v", i, which, has, !has)
		}
		if has {
			p.add("SetGroupBy", s, m, "SetGroupBy(s%d, ...)[%d]", i, which)
		}
	case 13:
		i := p.pick()
		if !u.HasExt() {
			m := p.vs[i].m
			p.add("Union", p.vs[i].s.Union(u.Zero()), m, "s%d.Union(zero)", i)
			return
		}
		_, _, s := p.vs[i].s.Ext().AsAny()
		p.add("SetAs", s, p.vs[i].m, "SetAs[T](s%d.AsSetAny())", i)
	case 14:
		var ss []univ.Set
		m := newM(u.N())
		var is []int
		t.Loop(0, 3, 6, func(int) {
			i := p.pick()
			is = append(is, i)
			ss = append(ss, p.vs[i].s)
			m = m.or(p.vs[i].m)
		})
		p.add("Union...", u.Union(ss...), m, "Union(%v)", is)
	case 15:
		var ss []univ.Set
		var m M
		var is []int
		t.Loop(1, 2, 6, func(n int) {
			i := p.pick()
			is = append(is, i)
			ss = append(ss, p.vs[i].s)
			if n == 0 {
				m = p.vs[i].m
			} else {
				m = m.and(p.vs[i].m)
			}
		})
		p.add("Intersection...", u.Intersection(ss...), m, "Intersection(%v)", is)
	case 16:
		m := genM(t, u)
		refs := freshRefs(t, u, m)
		p.add("NewSet", u.NewMutating(refs...), m, "NewSet(slice...), slice then overwritten")
	}
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}
