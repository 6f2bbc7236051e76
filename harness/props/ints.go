//go:build all || C01 || C08 || C14 || C22 || C25 || C26 || C29 || C32

package props

import (
	"fmt"

	"github.com/arr-ai/frozen"

	"vh/pbt"
)

// Named integer types.
type (
	myInt    int
	myInt8   int8
	myUint32 uint32
)

// genInts draws n distinct integers (fewer for narrow types).
func genInts[I integer](t *pbt.T, n int) []I {
	lo, hi := limits[I]()
	seen := map[I]bool{}
	var vals []I
	put := func(v I) {
		if !seen[v] && len(vals) < n {
			seen[v] = true
			vals = append(vals, v)
		}
	}
	anchor := func() I {
		switch t.Weighted(4, 2, 2, 2, 2, 2) {
		case 0:
			return 0
		case 1:
			return lo
		case 2:
			return hi
		case 3:
			return I(64 * uint64(t.Intn(8)))
		case 4:
			return -I(64 * uint64(t.Intn(8)))
		default:
			return I(t.U64())
		}
	}
	for tries := 0; len(vals) < n && tries < 40; tries++ {
		a := anchor()
		k := t.Range(1, 12)
		switch t.Weighted(4, 2, 2, 2) {
		case 0: // dense, across the anchor; wraps at the extremes
			for i := 0; i < k; i++ {
				put(a - I(k/2) + I(i))
			}
		case 1: // around cell boundaries
			for i := 0; i < k; i++ {
				put(a + I(i/3)*64 + I(i%3) - 1)
			}
		case 2: // one per cell
			for i := 0; i < k; i++ {
				put(a + I(i)*64)
			}
		case 3:
			salt := t.U64()
			for i := 0; i < k; i++ {
				put(I(pbt.Mix(salt + uint64(i))))
			}
		}
	}
	for v := lo; len(vals) < 2; v++ {
		put(v)
	}
	return vals
}

type iv[I integer] struct {
	s frozen.IntSet[I]
	m map[I]bool
}

// ipool is a history of IntSets.
type ipool[I integer] struct {
	t       *pbt.T
	vals    []I // what the sets are made of
	probe   []I // what membership is asked for
	vs      []iv[I]
	maxSize int
	check   func(v iv[I], what string)
}

func newIPool[I integer](t *pbt.T) *ipool[I] {
	n := t.Range(2, 10)
	switch t.Weighted(4, 3, 1) {
	case 1:
		n = t.Range(8, 40)
	case 2:
		n = t.Range(40, 250)
	}
	p := &ipool[I]{t: t, vals: genInts[I](t, n)}
	seen := map[I]bool{}
	ask := func(v I) {
		if !seen[v] {
			seen[v] = true
			p.probe = append(p.probe, v)
		}
	}
	for _, v := range p.vals {
		for _, d := range []I{0, 1, 64, 63} {
			ask(v + d)
			ask(v - d)
		}
	}
	p.vs = append(p.vs, iv[I]{frozen.IntSet[I]{}, map[I]bool{}})
	if t.Tracing() {
		t.Logf("%T over %v", frozen.IntSet[I]{}, p.vals)
	}
	return p
}

func (p *ipool[I]) verify(v iv[I], what string) {
	t := p.t
	if c := v.s.Count(); c != len(v.m) {
		t.Fatalf("%s: Count() = %d, want %d", what, c, len(v.m))
	}
	if e := v.s.IsEmpty(); e != (len(v.m) == 0) {
		t.Fatalf("%s: IsEmpty() = %v with %d elements", what, e, len(v.m))
	}
	sameInts(t, v.s.Elements(), v.m, what+": Elements()")
	var is []I
	for r := v.s.Range(); r.Next() && len(is) <= len(v.m); {
		is = append(is, r.Value())
	}
	sameInts(t, is, v.m, what+": Range()")
	for _, x := range p.probe {
		if h := v.s.Has(x); h != v.m[x] {
			t.Fatalf("%s: Has(%d) = %v, want %v; elements %v", what, x, h, v.m[x], v.s.Elements())
		}
	}
	if len(v.m) > 0 {
		if a := v.s.Any(); !v.m[a] {
			t.Fatalf("%s: Any() = %d, which is not an element of %v", what, a, v.s.Elements())
		}
	}
}

func sameInts[I integer](t *pbt.T, is []I, m map[I]bool, what string) {
	seen := map[I]bool{}
	for _, i := range is {
		if !m[i] {
			t.Fatalf("%s = %v, which has the foreign %d; want %v", what, is, i, intList(m))
		}
		if seen[i] {
			t.Fatalf("%s = %v, which has %d more than once", what, is, i)
		}
		seen[i] = true
	}
	if len(seen) != len(m) {
		t.Fatalf("%s = %v, want %v", what, is, intList(m))
	}
}

func (p *ipool[I]) pick() int {
	n := len(p.vs)
	return n - 1 - p.t.Intn(n)
}

func (p *ipool[I]) add(s frozen.IntSet[I], m map[I]bool, format string, args ...any) {
	what := fmt.Sprintf("s%d", len(p.vs))
	if p.t.Tracing() {
		what = fmt.Sprintf("s%d := %s", len(p.vs), fmt.Sprintf(format, args...))
		p.t.Logf("%s = %v", what, intList(m))
	}
	v := iv[I]{s, m}
	if p.check != nil {
		p.check(v, what)
	}
	p.vs = append(p.vs, v)
	p.maxSize = max(p.maxSize, len(m))
}

func cloneInts[I integer](m map[I]bool) map[I]bool {
	c := make(map[I]bool, len(m))
	for k := range m {
		c[k] = true
	}
	return c
}

// some draws a slice, possibly with repetitions.
func (p *ipool[I]) some() []I {
	t := p.t
	var is []I
	switch t.Weighted(4, 2) {
	case 0:
		t.Loop(0, 5, 40, func(int) { is = append(is, p.vals[t.Intn(len(p.vals))]) })
	case 1:
		d, salt := t.Range(1, 15), t.Draw(1<<12)
		for i, v := range p.vals {
			if x := pbt.Mix(salt ^ uint64(i)<<20); x%16 < uint64(d) {
				is = append(is, v)
				if x>>32%8 == 0 {
					is = append(is, v)
				}
			}
		}
		shuffle(salt, is)
	}
	return is
}

func intSetOf[I integer](is []I) map[I]bool {
	m := map[I]bool{}
	for _, i := range is {
		m[i] = true
	}
	return m
}

func (p *ipool[I]) step() {
	t := p.t
	switch t.Weighted(5, 4, 4, 3, 3, 2, 2, 1, 1, 1) {
	case 0:
		i, x := p.pick(), p.vals[t.Intn(len(p.vals))]
		m := cloneInts(p.vs[i].m)
		m[x] = true
		p.add(p.vs[i].s.With(x), m, "s%d.With(%d)", i, x)
	case 1:
		i, x := p.pick(), p.vals[t.Intn(len(p.vals))]
		m := cloneInts(p.vs[i].m)
		if l := intList(m); len(l) > 0 && t.Bool() {
			x = l[t.Intn(len(l))]
		}
		delete(m, x)
		p.add(p.vs[i].s.Without(x), m, "s%d.Without(%d)", i, x)
	case 2:
		is := p.some()
		m := intSetOf(is)
		s := frozen.NewIntSet(is...)
		for i := range is { // the set must not care
			is[i] = p.vals[(i*3+1)%len(p.vals)]
		}
		p.add(s, m, "NewIntSet(%v), slice then overwritten", intList(m))
	case 3:
		i, j := p.pick(), p.pick()
		m := cloneInts(p.vs[i].m)
		for k := range p.vs[j].m {
			m[k] = true
		}
		p.add(p.vs[i].s.Union(p.vs[j].s), m, "s%d.Union(s%d)", i, j)
	case 4:
		i, j := p.pick(), p.pick()
		m := map[I]bool{}
		for k := range p.vs[i].m {
			if p.vs[j].m[k] {
				m[k] = true
			}
		}
		p.add(p.vs[i].s.Intersection(p.vs[j].s), m, "s%d.Intersection(s%d)", i, j)
	case 5:
		i := p.pick()
		d, salt := t.Range(0, 16), t.Draw(1<<10)
		f := func(x I) bool { return pbt.Mix(salt^uint64(x)*77)%16 < uint64(d) }
		m := map[I]bool{}
		for k := range p.vs[i].m {
			if f(k) {
				m[k] = true
			}
		}
		calls := map[I]int{}
		got := p.vs[i].s.Where(func(x I) bool { calls[x]++; return f(x) })
		for k := range p.vs[i].m {
			if calls[k] != 1 {
				t.Fatalf("s%d.Where: predicate called %d times for %d", i, calls[k], k)
			}
		}
		if len(calls) != len(p.vs[i].m) {
			t.Fatalf("s%d.Where: predicate called for foreign elements: %v", i, calls)
		}
		p.add(got, m, "s%d.Where(...)", i)
	case 6:
		i := p.pick()
		salt, k := t.Draw(1<<10), t.Range(1, len(p.vals))
		style := t.Intn(3)
		f := func(x I) I {
			switch style {
			case 0:
				return p.vals[pbt.Mix(salt^uint64(x))%uint64(k)]
			case 1:
				return x + 64
			default:
				return ^x
			}
		}
		m := map[I]bool{}
		for k := range p.vs[i].m {
			m[f(k)] = true
		}
		p.add(p.vs[i].s.Map(f), m, "s%d.Map(style %d)", i, style)
	case 7: // many
		i := p.pick()
		s, m := p.vs[i].s, cloneInts(p.vs[i].m)
		for _, x := range p.some() {
			s = s.With(x)
			m[x] = true
		}
		p.add(s, m, "s%d.With*", i)
	case 8:
		i := p.pick()
		s, m := p.vs[i].s, cloneInts(p.vs[i].m)
		for _, x := range p.some() {
			s = s.Without(x)
			delete(m, x)
		}
		p.add(s, m, "s%d.Without*", i)
	case 9:
		i := p.pick()
		m := cloneInts(p.vs[i].m)
		is := p.vs[i].s.Elements()
		s := frozen.NewIntSet(is...)
		for i := range is {
			is[i] = p.vals[0]
		}
		p.add(s, m, "NewIntSet(s%d.Elements()...)", i)
	}
}

// compare checks all relations between two values.
func (p *ipool[I]) compare(a, b iv[I], what string) {
	t := p.t
	sub := true
	for k := range a.m {
		sub = sub && b.m[k]
	}
	eq := sub && len(a.m) == len(b.m)
	if a.s.Equal(b.s) != eq {
		t.Fatalf("%s: Equal = %v for %v and %v", what, !eq, intList(a.m), intList(b.m))
	}
	if a.s.EqualSet(b.s) != eq {
		t.Fatalf("%s: EqualSet = %v for %v and %v", what, !eq, intList(a.m), intList(b.m))
	}
	if a.s.Same(b.s) != eq {
		t.Fatalf("%s: Same = %v for %v and %v", what, !eq, intList(a.m), intList(b.m))
	}
	if a.s.IsSubsetOf(b.s) != sub {
		t.Fatalf("%s: IsSubsetOf = %v for %v and %v", what, !sub, intList(a.m), intList(b.m))
	}
	if eq {
		for _, seed := range []uintptr{0, 1, 0xdeadbeef} {
			if x, y := a.s.Hash(seed), b.s.Hash(seed); x != y {
				t.Fatalf("%s: equal sets %v hash to %x and %x with seed %x", what, intList(a.m), x, y, seed)
			}
		}
	}
}

func c14Run[I integer](t *pbt.T) {
	t.Class(fmt.Sprintf("%T", frozen.IntSet[I]{}))
	p := newIPool[I](t)
	p.check = p.verify
	p.verify(p.vs[0], "zero value")
	t.Loop(1, 10, 40, func(int) { p.step() })
	for i, a := range p.vs {
		for j, b := range p.vs {
			if len(p.vs) > 12 && pbt.Mix(uint64(i*1000+j))%3 != 0 {
				continue
			}
			p.compare(a, b, fmt.Sprintf("s%d, s%d", i, j))
		}
	}
	// Rebuilt in another way, it is the same value.
	for k := 0; k < 3; k++ {
		i := p.pick()
		l := intList(p.vs[i].m)
		shuffle(t.Draw(64), l)
		b := iv[I]{m: p.vs[i].m}
		if t.Bool() {
			b.s = frozen.NewIntSet(l...)
		} else {
			for _, x := range l {
				b.s = b.s.With(x)
			}
		}
		p.compare(p.vs[i], b, fmt.Sprintf("s%d rebuilt", i))
		p.compare(b, p.vs[i], fmt.Sprintf("s%d rebuilt", i))
	}
	v := p.vs[p.pick()]
	for _, f := range []any{nil, 1, "x", frozen.IntSet[foreignInt]{}, frozen.NewSet(intList(v.m)...), frozen.Map[I, uint64]{}, intList(v.m), &v.s, v.m} {
		if v.s.Same(f) {
			t.Fatalf("%T.Same(%T) = true", v.s, f)
		}
	}
	if p.maxSize > 2 && len(p.vs) > 3 {
		t.NonTrivial()
	}
}

type foreignInt int

func anyInt(t *pbt.T, fs ...func(*pbt.T)) {
	fs[t.Intn(len(fs))](t)
}

func c14(t *pbt.T) {
	anyInt(t, c14Run[int], c14Run[int8], c14Run[int16], c14Run[int32], c14Run[int64],
		c14Run[uint], c14Run[uint8], c14Run[uint16], c14Run[uint32], c14Run[uint64], c14Run[uintptr],
		c14Run[myInt], c14Run[myInt8], c14Run[myUint32])
}

// c14Narrow covers the whole range of 8-bit types at once.
func c14Narrow(t *pbt.T) {
	if t.Bool() {
		c14Whole[int8](t)
	} else {
		c14Whole[uint8](t)
	}
}

func c14Whole[I integer](t *pbt.T) {
	lo, hi := limits[I]()
	p := &ipool[I]{t: t}
	for v := lo; ; v++ {
		p.vals = append(p.vals, v)
		if v == hi {
			break
		}
	}
	p.probe = p.vals
	p.vs = append(p.vs, iv[I]{frozen.IntSet[I]{}, map[I]bool{}})
	p.check = p.verify
	all := append([]I{}, p.vals...)
	shuffle(t.Draw(256), all)
	p.add(frozen.NewIntSet(all...), intSetOf(all), "NewIntSet(every value)")
	t.Loop(1, 8, 20, func(int) { p.step() })
	for i, a := range p.vs {
		for j, b := range p.vs {
			p.compare(a, b, fmt.Sprintf("s%d, s%d", i, j))
		}
	}
	t.NonTrivial()
}

// c14Large compares large sets.
func c14Large(t *pbt.T) {
	n := t.Range(2000, 40000)
	style, salt := t.Intn(3), t.Draw(1<<20)
	var is []int
	for i := 0; i < n; i++ {
		switch style {
		case 0:
			is = append(is, i-n/2)
		case 1:
			is = append(is, (i-n/2)*63)
		default:
			is = append(is, int(pbt.Mix(salt^uint64(i))))
		}
	}
	p := &ipool[int]{t: t, vals: is, probe: is}
	a := iv[int]{frozen.NewIntSet(is...), intSetOf(is)}
	p.verify(a, "NewIntSet")
	half := is[:n/2]
	b := iv[int]{frozen.NewIntSet(half...), intSetOf(half)}
	rest := is[n/3:]
	c := iv[int]{frozen.NewIntSet(rest...), intSetOf(rest)}
	p.verify(iv[int]{b.s.Union(c.s), a.m}, "Union")
	m := map[int]bool{}
	for _, x := range is[n/3 : n/2] {
		m[x] = true
	}
	p.verify(iv[int]{b.s.Intersection(c.s), m}, "Intersection")
	s, sm := a.s, cloneInts(a.m)
	for i := 0; i < n; i += 3 {
		s = s.Without(is[i])
		delete(sm, is[i])
	}
	p.verify(iv[int]{s, sm}, "Without")
	p.verify(a, "the original")
	t.NonTrivial()
}

func init() {
	register(&pbt.Prop{
		ID: "C14",
		Rule: "a case is a history of IntSet operations over one of 14 integer types with values clustered at 0, at multiples of the cell size, " +
			"at the type's extremes and at random, each result compared with a Go map; non-trivial: at least 3 derived sets, one with at least 3 elements",
		Scenarios: []*pbt.Scenario{
			{Name: "history", Quick: 24000, Fn: c14},
			{Name: "whole-type", Quick: 800, Fn: c14Narrow},
			{Name: "large", Quick: 40, Fn: c14Large},
		},
	})
}
