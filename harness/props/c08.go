//go:build all || C08

package props

import (
	"fmt"

	"github.com/arr-ai/frozen"

	"vh/gen"
	"vh/pbt"
	"vh/univ"
)

// cursor is one iterator in progress, over anything.
type cursor struct {
	what  string
	next  func() bool
	read  func() int // stable between calls of next; index, or -1
	got   []int
	valid bool
	ended bool
}

func (c *cursor) step(t *pbt.T, limit int) {
	more := c.next()
	if c.ended {
		if more {
			t.Fatalf("%s: Next returns true again after the end", c.what)
		}
		return
	}
	if !more {
		c.ended, c.valid = true, false
		return
	}
	c.valid = true
	c.got = append(c.got, c.read())
	if len(c.got) > limit {
		t.Fatalf("%s: does not end; %v so far", c.what, c.got)
	}
	c.reread(t)
}

func (c *cursor) reread(t *pbt.T) {
	if c.valid {
		if v := c.read(); v != c.got[len(c.got)-1] {
			t.Fatalf("%s: the value read was %d, and is %d without Next in between", c.what, c.got[len(c.got)-1], v)
		}
	}
}

// juggle interleaves iterators made by mk over one value of m.
func juggle(t *pbt.T, n int, m M, mk []func() *cursor, disturb func()) {
	var cs []*cursor
	groups := map[int][]*cursor{}
	limit := m.count()
	add := func() {
		g := t.Intn(len(mk))
		c := mk[g]()
		c.what = fmt.Sprintf("%s #%d", c.what, len(cs))
		cs = append(cs, c)
		groups[g] = append(groups[g], c)
	}
	add()
	t.Loop(2, 14, 60, func(int) {
		switch t.Weighted(2, 5, 2, 2, 1) {
		case 0:
			if len(cs) < 8 {
				add()
			}
		case 1:
			cs[t.Intn(len(cs))].step(t, limit)
		case 2:
			c := cs[t.Intn(len(cs))]
			for k := t.Intn(limit + 3); k > 0; k-- {
				c.step(t, limit)
			}
		case 3:
			cs[t.Intn(len(cs))].reread(t)
		case 4:
			disturb()
		}
	})
	for i, c := range cs {
		if i%3 == 2 {
			continue // abandoned
		}
		for !c.ended {
			c.step(t, limit)
		}
		for k := 0; k < 3; k++ {
			c.step(t, limit)
		}
		if got := asM(t, n, c.got, c.what); !got.eq(m) {
			t.Fatalf("%s: yields %v, want %v", c.what, got.list(), m.list())
		}
	}
	for _, g := range groups {
		for _, c := range g[1:] {
			for i := range c.got {
				if i < len(g[0].got) && c.got[i] != g[0].got[i] {
					t.Fatalf("%s and %s over one value yield different sequences: %v, %v", g[0].what, c.what, g[0].got, c.got)
				}
			}
		}
	}
	if len(cs) > 1 && limit > 1 {
		t.NonTrivial()
	}
	t.ClassIf(limit == 0, "empty")
	t.ClassIf(limit > 20, "over 20 elements")
}

func c08Set(t *pbt.T)       { c08SetRun(t, gen.GenSetU(t, gen.GenN(t))) }
func c08SetHashed(t *pbt.T) { c08SetRun(t, gen.GenHashedSetU(t, t.Range(2, 40))) }

func c08SetRun(t *pbt.T, u univ.SetU) {
	m := genM(t, u)
	s := build(t, u, m)
	t.Logf("set of %v", short(m))
	perm := t.Draw(1 << 16)
	less := func(a, b int) bool { return pbt.Mix(perm^uint64(a)) < pbt.Mix(perm^uint64(b)) }
	mk := func(what string, f func() univ.Iter) func() *cursor {
		return func() *cursor {
			it := f()
			return &cursor{what: what, next: it.Next, read: it.Value}
		}
	}
	juggle(t, u.N(), m, []func() *cursor{
		mk("Range", s.Range),
		mk("OrderedRange", func() univ.Iter { return s.OrderedRange(less) }),
	}, func() {
		r := gen.GenRef(t, u)
		s.With(r).Without(gen.GenRef(t, u)).Union(s)
		s.Difference(s.Without(r))
		s.ElementsMutating()
	})
}

func c08Map(t *pbt.T)       { c08MapRun(t, genMU(t, false, false)) }
func c08MapHashed(t *pbt.T) { c08MapRun(t, hashedMU(t)) }

func c08MapRun(t *pbt.T, u univ.MapU) {
	mm := genMM(t, u)
	m := buildMap(t, u, mm)
	t.Logf("map of %v", shortMM(mm))
	keys := newM(u.Keys().N())
	for k := range mm {
		keys.put(k)
	}
	mk := []func() *cursor{
		func() *cursor {
			it := m.Range()
			return &cursor{what: "Map.Range", next: it.Next, read: func() int {
				k, v := it.Key(), it.Value()
				ek, ev := it.Entry()
				if k != ek || v != ev {
					t.Fatalf("Key, Value give %d: %d but Entry gives %d: %d", k, v, ek, ev)
				}
				if w, has := mm[k]; !has || v != w {
					t.Fatalf("iterator yields %d: %d, want the value %d", k, v, w)
				}
				return k
			}}
		},
		func() *cursor {
			it := m.Keys().Range()
			return &cursor{what: "Map.Keys().Range", next: it.Next, read: it.Value}
		},
	}
	juggle(t, u.Keys().N(), keys, mk, func() {
		k := gen.GenRef(t, u.Keys())
		m.With(k, gen.GenRef(t, u.Vals())).Update(m)
		m.Without(k)
	})
}

func c08IntRun[I integer](t *pbt.T) {
	p := newIPool[I](t)
	t.Loop(0, 4, 10, func(int) { p.step() })
	v := p.vs[p.pick()]
	l := intList(v.m)
	idx := map[I]int{}
	m := newM(max(1, len(l)))
	for i, x := range l {
		idx[x] = i
		m.put(i)
	}
	mk := []func() *cursor{func() *cursor {
		it := v.s.Range()
		return &cursor{what: fmt.Sprintf("%T.Range", v.s), next: it.Next, read: func() int {
			if i, has := idx[it.Value()]; has {
				return i
			}
			return -1
		}}
	}}
	juggle(t, max(1, len(l)), m, mk, func() {
		v.s.With(p.vals[t.Intn(len(p.vals))])
		frozen.NewIntSet(v.s.Elements()...)
		v.s.Union(p.vs[p.pick()].s)
	})
}

func c08Int(t *pbt.T) {
	anyInt(t, c08IntRun[int], c08IntRun[int8], c08IntRun[uint64], c08IntRun[int64], c08IntRun[uint8], c08IntRun[myInt])
}

func c08Large(t *pbt.T) {
	n := t.Range(1000, 30000)
	u := univ.Sets(univ.IntU(t, n))
	if t.Bool() {
		u = univ.Sets(univ.ElU(univ.Hashes(t, n/8)))
	}
	m := newM(u.N())
	refs := make([]univ.Ref, u.N())
	for i := range refs {
		refs[i].I = i
		m.put(i)
	}
	s := u.New(refs...)
	var cs []*cursor
	for i := 0; i < 3; i++ {
		it := s.Range()
		cs = append(cs, &cursor{what: fmt.Sprint("Range #", i), next: it.Next, read: it.Value})
	}
	salt := t.Draw(1 << 10)
	for k := 0; k < u.N()*5; k++ {
		cs[pbt.Mix(salt+uint64(k))%3].step(t, u.N())
	}
	for i, c := range cs {
		for !c.ended {
			c.step(t, u.N())
		}
		if !asM(t, u.N(), c.got, c.what).eq(m) {
			t.Fatalf("%s: wrong elements", c.what)
		}
		for k := range c.got {
			if c.got[k] != cs[0].got[k] {
				t.Fatalf("iterators #0 and #%d differ at position %d", i, k)
			}
		}
	}
	t.NonTrivial()
}

func init() {
	register(&pbt.Prop{
		ID: "C08",
		Rule: "a case is a schedule over up to 8 iterators (Range, OrderedRange, Keys().Range, Map.Range) of one generated Set, Map or IntSet, " +
			"stepped, re-read, over-run and abandoned in a drawn order, with derivations in between; non-trivial: at least 2 iterators over at least 2 elements",
		Scenarios: []*pbt.Scenario{
			{Name: "set", Quick: 8000, Fn: c08Set},
			{Name: "set-hashed", Quick: 8000, Fn: c08SetHashed},
			{Name: "map", Quick: 6000, Fn: c08Map},
			{Name: "big-set", Quick: 200, Fn: big(c08Set)},
			{Name: "big-map", Quick: 200, Fn: big(c08Map)},
			{Name: "map-hashed", Quick: 6000, Fn: c08MapHashed},
			{Name: "intset", Quick: 6000, Fn: c08Int},
			{Name: "large", Quick: 60, Fn: c08Large},
		},
	})
}
