package props

import (
	"math/bits"
	"sort"

	"vh/gen"
	"vh/pbt"
	"vh/univ"
)

// M is the reference model of a set: a bit mask over the universe's indices.
type M struct{ w []uint64 }

func newM(n int) M          { return M{make([]uint64, (n+63)/64)} }
func (m M) has(i int) bool  { return i >= 0 && i/64 < len(m.w) && m.w[i/64]>>(i%64)&1 != 0 }
func (m M) put(i int)       { m.w[i/64] |= 1 << (i % 64) }
func (m M) del(i int)       { m.w[i/64] &^= 1 << (i % 64) }
func (m M) clone() M        { return M{append([]uint64(nil), m.w...)} }
func (m M) with(i int) M    { c := m.clone(); c.put(i); return c }
func (m M) without(i int) M { c := m.clone(); c.del(i); return c }
func (m M) and(o M) M       { return m.op(o, func(a, b uint64) uint64 { return a & b }) }
func (m M) or(o M) M        { return m.op(o, func(a, b uint64) uint64 { return a | b }) }
func (m M) minus(o M) M     { return m.op(o, func(a, b uint64) uint64 { return a &^ b }) }
func (m M) xor(o M) M       { return m.op(o, func(a, b uint64) uint64 { return a ^ b }) }
func (m M) filter(f func(int) bool) M {
	c := M{make([]uint64, len(m.w))}
	m.each(func(i int) {
		if f(i) {
			c.put(i)
		}
	})
	return c
}

func (m M) op(o M, f func(a, b uint64) uint64) M {
	c := M{make([]uint64, len(m.w))}
	for i := range c.w {
		c.w[i] = f(m.w[i], o.w[i])
	}
	return c
}

func (m M) count() int {
	n := 0
	for _, w := range m.w {
		n += bits.OnesCount64(w)
	}
	return n
}

func (m M) each(f func(i int)) {
	for k, w := range m.w {
		for ; w != 0; w &= w - 1 {
			f(k*64 + bits.TrailingZeros64(w))
		}
	}
}

func (m M) list() []int {
	is := make([]int, 0, m.count())
	m.each(func(i int) { is = append(is, i) })
	return is
}

func (m M) eq(o M) bool {
	for i := range m.w {
		if m.w[i] != o.w[i] {
			return false
		}
	}
	return true
}

func (m M) subset(o M) bool { return m.minus(o).count() == 0 }

// asM turns listed indices into a model, failing on foreign or repeated ones.
func asM(t *pbt.T, n int, is []int, what string) M {
	m := newM(n)
	for _, i := range is {
		if i < 0 || i >= n {
			t.Fatalf("%s: yields a value that was never put in (%v)", what, is)
		}
		if m.has(i) {
			t.Fatalf("%s: yields element %d more than once (%v)", what, i, is)
		}
		m.put(i)
	}
	return m
}

func drain(it univ.Iter, limit int) []int {
	var is []int
	for it.Next() {
		is = append(is, it.Value())
		if len(is) > limit {
			break
		}
	}
	return is
}

// verifySet checks every basic observation of a set against the model.
func verifySet(t *pbt.T, s univ.Set, m M, what string) {
	u := s.U()
	n := m.count()
	if c := s.Count(); c != n {
		t.Fatalf("%s: Count() = %d, want %d %v; it holds %v", what, c, n, m.list(), safeElems(s))
	}
	if e := s.IsEmpty(); e != (n == 0) {
		t.Fatalf("%s: IsEmpty() = %v, want %v", what, e, n == 0)
	}
	if got := asM(t, u.N(), s.Elements(), what+": Elements"); !got.eq(m) {
		t.Fatalf("%s: Elements() = %v, want %v", what, got.list(), m.list())
	}
	if got := asM(t, u.N(), drain(s.Range(), n+8), what+": Range"); !got.eq(m) {
		t.Fatalf("%s: Range() yields %v, want %v", what, got.list(), m.list())
	}
	for i := 0; i < u.N(); i++ {
		reps := 1
		if u.N() <= 30 {
			reps = u.Reps()
		}
		for r := 0; r < reps; r++ {
			rr := r
			if reps == 1 {
				rr = i % u.Reps()
			}
			if h := s.Has(univ.Ref{I: i, R: rr}); h != m.has(i) {
				t.Fatalf("%s: Has(%d) = %v, want %v; elements %v", what, i, h, m.has(i), m.list())
			}
		}
	}
}

func safeElems(s univ.Set) (r any) {
	defer func() {
		if x := recover(); x != nil {
			r = x
		}
	}()
	return s.Elements()
}

// freshRefs lists the model's elements in a drawn order with drawn
// representations.
func freshRefs(t *pbt.T, u univ.SetU, m M) []univ.Ref {
	salt := t.Draw(256)
	var refs []univ.Ref
	m.each(func(i int) {
		refs = append(refs, univ.Ref{I: i, R: int(pbt.Mix(salt+uint64(i)*31) % 97 % uint64(u.Reps()))})
	})
	shuffle(salt, refs)
	return refs
}

func shuffle[T any](salt uint64, s []T) {
	if salt == 0 {
		return
	}
	for i := len(s) - 1; i > 0; i-- {
		j := int(pbt.Mix(salt*1000003+uint64(i)) % uint64(i+1))
		s[i], s[j] = s[j], s[i]
	}
}

// fresh builds the model's set directly from its elements.
func fresh(t *pbt.T, u univ.SetU, m M) univ.Set { return u.New(freshRefs(t, u, m)...) }

// genM draws a subset of the universe.
func genM(t *pbt.T, u univ.SetU) M {
	n := u.N()
	m := newM(n)
	w := []int{8, 3, 2, 1}
	if t.Big {
		w = []int{2, 6, 4, 2}
	}
	switch t.Weighted(w...) {
	case 0:
		t.Loop(0, 4, 40, func(int) { m.put(t.Intn(n)) })
	case 1:
		d, salt := t.Range(1, 15), t.Draw(1<<12)
		for i := 0; i < n; i++ {
			if pbt.Mix(salt^uint64(i)<<13)%16 < uint64(d) {
				m.put(i)
			}
		}
	case 2:
		a := t.Intn(n)
		b := t.Range(a, n-1)
		for i := a; i <= b; i++ {
			m.put(i)
		}
	case 3:
		for i := 0; i < n; i++ {
			m.put(i)
		}
		t.Loop(0, 2, 10, func(int) { m.del(t.Intn(n)) })
	}
	return m
}

// build makes the model's set along a drawn construction path.
func build(t *pbt.T, u univ.SetU, m M) univ.Set {
	refs := freshRefs(t, u, m)
	switch t.Weighted(4, 3, 2, 2, 1, 2) {
	case 0:
		return u.New(refs...)
	case 1: // one by one
		s := u.Zero()
		for _, r := range refs {
			s = s.With(r)
		}
		return s
	case 2: // builder, with detours
		b := u.Builder(t.Intn(4)*7, t.Bool())
		salt := t.Draw(64)
		for i, r := range refs {
			if pbt.Mix(salt+uint64(i))%3 == 0 {
				b.Add(univ.Ref{I: int(pbt.Mix(salt^uint64(i)*77) % uint64(u.N()))})
			}
			b.Add(r)
		}
		for i := 0; i < u.N(); i++ {
			if !m.has(i) {
				b.Remove(univ.Ref{I: i, R: i % u.Reps()})
			}
		}
		return b.Finish()
	case 3: // from a superset
		s := u.New(refs...)
		extra := genM(t, u)
		extra.each(func(i int) { s = s.With(univ.Ref{I: i}) })
		extra.each(func(i int) {
			if !m.has(i) {
				s = s.Without(univ.Ref{I: i, R: 1})
			}
		})
		return s
	case 4: // filtered universe
		all := make([]univ.Ref, u.N())
		for i := range all {
			all[i].I = i
		}
		return u.New(all...).Where(m.has)
	default: // two halves
		k := len(refs) / 2
		return u.New(refs[:k]...).Union(u.New(refs[k:]...))
	}
}

// usable checks that a set is interchangeable with one built directly.
func usable(t *pbt.T, s univ.Set, m M, what string) {
	u := s.U()
	f := fresh(t, u, m)
	if !s.Equal(f) || !f.Equal(s) {
		t.Fatalf("%s: not Equal to a set built directly from its elements %v", what, short(m))
	}
	if s.Hash(3) != f.Hash(3) {
		t.Fatalf("%s: hash differs from that of a set built directly from its elements %v", what, short(m))
	}
	if !s.IsSubsetOf(f) || !f.IsSubsetOf(s) {
		t.Fatalf("%s: not mutually a subset with a set built directly from its elements %v", what, short(m))
	}
	if d := s.Difference(f); !d.IsEmpty() || d.Count() != 0 {
		t.Fatalf("%s: its difference with a set built directly from its elements %v is %v", what, short(m), d.Elements())
	}
	r := gen.GenRef(t, u)
	verifySet(t, s.With(r), m.with(r.I), what+", then With")
	verifySet(t, s.Without(r), m.without(r.I), what+", then Without")
}

func once(t *pbt.T, what string, m M, calls map[int]int) {
	for i, c := range calls {
		if !m.has(i) {
			t.Fatalf("%s: called with %d, which is not in the set", what, i)
		}
		if c != 1 {
			t.Fatalf("%s: called %d times with element %d", what, c, i)
		}
	}
	if len(calls) != m.count() {
		t.Fatalf("%s: called for %d of %d elements", what, len(calls), m.count())
	}
}

func sorted(s string) string {
	bs := []byte(s)
	sort.Slice(bs, func(i, j int) bool { return bs[i] < bs[j] })
	return string(bs)
}

func clip(s string) string {
	if len(s) > 600 {
		return s[:600] + "..."
	}
	return s
}
