//go:build all || C33

package props

import (
	"fmt"
	"math/bits"

	"github.com/arr-ai/frozen"
	"github.com/arr-ai/frozen/lazy"

	"vh/pbt"
)

// meter counts the calls of the predicates and mappers of a pool, and checks
// their arguments.
type meter struct {
	t     *pbt.T
	calls int
}

func (m *meter) call(src LM, k string) {
	m.calls++
	if _, in := src[k]; !in {
		m.t.Fatalf("a predicate or mapper applied to %s is called with %s", src.key(), k)
	}
}

// of gives the number of calls in f.
func (m *meter) of(f func()) int {
	before := m.calls
	f()
	return m.calls - before
}

// c33Demand: expressions are evaluated when, and no further than, observed.
func c33Demand(t *pbt.T) { c33DemandOf(newLPool(t)) }

func c33DemandOf(p *lpool) {
	t := p.t
	m := &meter{t: t}
	p.call = m.call
	t.Loop(2, 7, 14, func(int) {
		var n *lnode
		c := m.of(func() { n = p.step() })
		// A frozen set maps at once.
		if c > 0 && n.op != "Freeze" && n.op != "Map" {
			t.Fatalf("%s: deriving it calls predicates or mappers %d times", n.what, c)
		}
		if n.op == "Map" && c > p.max {
			t.Fatalf("%s: deriving it calls the mapper %d times, for at most %d elements", n.what, c, p.max)
		}
	})
	called := 0
	for i := 0; i < 3; i++ {
		n, _ := p.pick()
		called += p.demand(m, n)
	}
	if called > 2 {
		p.nonTrivial()
	}
}

func (p *lpool) demand(m *meter, n *lnode) int {
	t := p.t
	if c := m.of(func() { p.fast(n.s, n.m, n.what, t.Draw(64)) }); c > 0 {
		t.Fatalf("%s: Fast observations call predicates or mappers %d times", n.what, c)
	}
	// reach[k] is the number of calls it takes to find k elements, and
	// the last one is that to find that there are no more.
	f := n.fresh()
	if c := m.of(func() { p.fast(f, n.m, n.what, t.Draw(64)) }); c > 0 {
		t.Fatalf("%s: Fast observations call predicates or mappers %d times", n.what, c)
	}
	start := m.calls
	reach := []int{0}
	r := f.Range()
	for r.Next() {
		reach = append(reach, m.calls-start)
	}
	all := m.calls - start
	reach = append(reach, all)
	if k := len(reach) - 2; k != len(n.m) {
		t.Fatalf("%s: Range() yields %d elements, want %d: %s", n.what, k, len(n.m), n.m.key())
	}
	// Complete iteration settles the set.
	for k := 0; k < 3; k++ {
		kind, x := t.Intn(observations), t.Draw(1<<10)
		if c := m.of(func() { p.observe(f, n, kind, x) }); c > 0 {
			t.Fatalf("%s: after a complete iteration, observation %d calls predicates or mappers %d times", n.what, kind, c)
		}
	}
	// One element more than is needed is granted.
	within := func(k int) int { return reach[min(k+1, len(reach)-1)] }
	limit := t.Range(0, len(n.m)+2)
	g := n.fresh()
	if c := m.of(func() { g.CountUpTo(limit) }); c > within(limit) {
		t.Fatalf("%s: CountUpTo(%d) calls predicates or mappers %d times, iterating over as many elements %d times: %s", n.what, limit, c, within(limit), n.m.key())
	}
	g = n.fresh()
	need := within(1)
	if p.ops["Powerset"] { // asks whether the set is empty
		need = all
	}
	if c := m.of(func() { g.IsEmpty() }); c > need {
		t.Fatalf("%s: IsEmpty() calls predicates or mappers %d times, iterating over an element %d times: %s", n.what, c, need, n.m.key())
	}
	g = n.fresh()
	if c := m.of(func() { g.Count() }); c > all {
		t.Fatalf("%s: Count() calls predicates or mappers %d times, iterating %d times: %s", n.what, c, all, n.m.key())
	}
	g = n.fresh()
	ps := p.probes(n.m)
	v := ps[t.Intn(len(ps))]
	if c := m.of(func() { p.has(g, v, n.m, n.what, 0) }); c > 2*all+len(p.nodes) {
		t.Fatalf("%s: Has(%s) calls predicates or mappers %d times, iterating %d times: %s", n.what, v.k, c, all, n.m.key())
	}
	return all
}

// A link is one operation in a chain; f is its effect on an element.
type link struct {
	what  string
	f     func(i int) (int, bool)
	extra []int // other elements
	apply func(s lazy.Set) lazy.Set
}

// c33Chain: iterating over a chain of operations takes one element of the
// base at a time, and asks each link about each element once.
func c33Chain(t *pbt.T) {
	n := t.Size(0, 400)
	var b frozen.SetBuilder[any]
	for i := 0; i < n; i++ {
		b.Add(i)
	}
	var consumed []int
	asked := []map[int]int{}
	ask := func(level, i int) {
		if asked[level][i]++; asked[level][i] > 1 {
			t.Fatalf("link %d is asked about %d again within one iteration", level, i)
		}
		if level == 0 {
			consumed = append(consumed, i)
		}
	}
	mixed := func(salt uint64, i int) int { return int(pbt.Mix(salt^uint64(i)*0x9e37) >> 8 % 1000) }
	some := func() frozen.Set[any] {
		var b frozen.SetBuilder[any]
		for k := t.Size(0, 100); k > 0; k-- {
			b.Add(t.Intn(n + 10))
		}
		return b.Finish()
	}
	var links []link
	for k := t.Range(1, 6); k > 0; k-- {
		level := len(links)
		kind := 0
		if level > 0 {
			kind = t.Intn(7)
		}
		asked = append(asked, map[int]int{})
		salt := t.Draw(1 << 16)
		var l link
		switch kind {
		case 0, 1:
			d := []int{1000, 900, 500, 30}[t.Intn(4)]
			f := func(i int) (int, bool) { return i, mixed(salt, i) < d }
			l = link{fmt.Sprintf("Where(%d of 1000)", d), f, nil, func(s lazy.Set) lazy.Set {
				return s.Where(func(e any) bool { ask(level, e.(int)); _, ok := f(e.(int)); return ok })
			}}
		case 2:
			d := 1 + int(salt)%(n+1)
			f := func(i int) (int, bool) { return i % d, true }
			l = link{fmt.Sprintf("Map(%% %d)", d), f, nil, func(s lazy.Set) lazy.Set {
				return s.Map(func(e any) any { ask(level, e.(int)); i, _ := f(e.(int)); return i })
			}}
		case 3:
			v := int(salt) % (n + 10)
			l = link{fmt.Sprintf("With(%d)", v), nil, []int{v}, func(s lazy.Set) lazy.Set { return s.With(v) }}
		case 4:
			v := int(salt) % (n + 10)
			l = link{fmt.Sprintf("Without(%d)", v), func(i int) (int, bool) { return i, i != v }, nil, func(s lazy.Set) lazy.Set { return s.Without(v) }}
		case 5:
			o := some()
			l = link{fmt.Sprintf("Difference(%v)", o), func(i int) (int, bool) { return i, !o.Has(i) }, nil, func(s lazy.Set) lazy.Set { return s.Difference(lazy.Frozen(o)) }}
		default:
			o := some()
			l = link{fmt.Sprintf("Union(%v)", o), nil, nil, func(s lazy.Set) lazy.Set { return s.Union(lazy.Frozen(o)) }}
			for i := o.Range(); i.Next(); {
				l.extra = append(l.extra, i.Value().(int))
			}
		}
		if l.f == nil {
			l.f = func(i int) (int, bool) { return i, true }
		}
		t.Logf("%s", l.what)
		links = append(links, l)
	}
	through := func(from, i int) (int, bool) {
		ok := true
		for _, l := range links[from:] {
			if i, ok = l.f(i); !ok {
				return 0, false
			}
		}
		return i, true
	}
	s := lazy.Frozen(b.Finish())
	for _, l := range links {
		s = l.apply(s)
	}
	want := map[int]bool{}
	for i := 0; i < n; i++ {
		if v, ok := through(0, i); ok {
			want[v] = true
		}
	}
	for j, l := range links {
		for _, i := range l.extra {
			if v, ok := through(j+1, i); ok {
				want[v] = true
			}
		}
	}
	if len(consumed) > 0 {
		t.Fatalf("deriving the chain asks about %v", consumed)
	}
	got := map[int]bool{}
	pending := 0 // results of consumed elements that are yet to come
	seen := 0
	due := map[int]bool{}
	stop := t.Range(0, len(want)+1)
	more := true
	for r := s.Range(); len(got) < stop; {
		if more = r.Next(); !more {
			break
		}
		v := r.Value().(int)
		if !want[v] || got[v] {
			t.Fatalf("yields %d: wanted %v, yielded before %v", v, want[v], got[v])
		}
		got[v] = true
		if due[v] {
			pending--
		}
		for ; seen < len(consumed); seen++ {
			if w, ok := through(0, consumed[seen]); ok && !due[w] {
				due[w] = true
				if !got[w] {
					pending++
				}
			}
		}
		if pending > 1 {
			t.Fatalf("after %d elements of the result, %d elements of the base are used, enough for %d more of the result", len(got), len(consumed), pending)
		}
	}
	if !more && len(got) != len(want) {
		t.Fatalf("yields %d elements, want %d", len(got), len(want))
	}
	if len(links) > 1 && len(consumed) > 2 {
		t.NonTrivial()
	}
	t.Class(fmt.Sprint("chain of ", len(links)))
}

// c33Large: deriving and fast observations do not depend on sizes.
func c33Large(t *pbt.T) {
	salt := t.Draw(1 << 16)
	elem := func(i int) any { return cnt{uint64(i), pbt.Mix(salt ^ uint64(i)*0x9e37)} }
	preds := 0
	type node struct {
		s     lazy.Set
		nodes int
		large bool
	}
	var pool []node
	size := 0
	base := func() node {
		n := []int{0, 1, 100, 5000, 50_000}[t.Weighted(1, 1, 1, 2, 1)]
		size = max(size, n)
		from := t.Range(0, 1000)
		var b frozen.SetBuilder[any]
		for i := 0; i < n; i++ {
			b.Add(elem(from + i))
		}
		return node{lazy.Frozen(b.Finish()), 1, n >= 5000}
	}
	pool = append(pool, base())
	bound := func(nodes int) int { return (nodes + 2) * (12 + 2*bits.Len(uint(size))) }
	checked := func(what string, nodes int, f func()) {
		before := preds
		h, e := cost(f)
		if b := bound(nodes); h > b || e > b || preds > before {
			t.Fatalf("%s: %d Hash and %d Equal calls, %d calls of predicates and mappers, bounds %d, %d and 0", what, h, e, preds-before, b, b)
		}
	}
	large := false
	t.Loop(2, 6, 10, func(int) {
		a := pool[t.Intn(len(pool))]
		b := pool[t.Intn(len(pool))]
		var r node
		d := uint64(t.Range(1, 5))
		pred := func(e any) bool { preds++; return e.(cnt).id%d != 0 }
		what := ""
		two := func(w string, f func(lazy.Set) lazy.Set) {
			what = w
			r.nodes = a.nodes + b.nodes + 1
			checked(what, r.nodes, func() { r.s = f(b.s) })
		}
		one := func(w string, f func() lazy.Set) {
			what = w
			r.nodes = a.nodes + 1
			checked(what, r.nodes, func() { r.s = f() })
		}
		x := elem(t.Intn(2000))
		switch t.Intn(10) {
		case 0:
			r, what = base(), "Frozen"
		case 1, 2:
			one("Where", func() lazy.Set { return a.s.Where(pred) })
		case 3:
			if _, frozen := a.s.FastCount(); frozen { // maps at once
				return
			}
			one("Map", func() lazy.Set { return a.s.Map(func(e any) any { preds++; return e }) })
		case 4:
			one("With", func() lazy.Set { return a.s.With(x) })
		case 5:
			one("Without", func() lazy.Set { return a.s.Without(x) })
		case 6:
			two("Union", a.s.Union)
		case 7:
			two("Intersection", a.s.Intersection)
		case 8:
			two("Difference", a.s.Difference)
		default:
			two("SymmetricDifference", a.s.SymmetricDifference)
			r.nodes *= 2
		}
		if r.nodes > 60 {
			return
		}
		r.large = r.large || a.large
		large = large || r.large
		t.Logf("%s of %d nodes", what, r.nodes)
		pool = append(pool, r)
		p := r.s
		if t.Chance(1, 4) {
			checked("Powerset", r.nodes, func() { p = r.s.Powerset() })
		}
		checked("FastIsEmpty of "+what, r.nodes, func() { p.FastIsEmpty() })
		checked("FastCount of "+what, r.nodes, func() { p.FastCount() })
		limit := []int{0, 1, 10, 1000, maxInt}[t.Intn(5)]
		checked(fmt.Sprintf("FastCountUpTo(%d) of %s", limit, what), r.nodes, func() { p.FastCountUpTo(limit) })
		checked("FastHas of "+what, r.nodes, func() { p.FastHas(x) })
		checked("Range of "+what, r.nodes, func() { p.Range() })
	})
	if large && len(pool) > 2 {
		t.NonTrivial()
	}
}

func init() {
	register(&pbt.Prop{
		ID: "C33",
		Rule: "a case draws a graph of lazy expressions over small sets and compares the numbers of calls of their predicates and mappers in deriving, Fast observations, bounded and complete observations, and after a complete iteration; " +
			"or a chain of up to six operations on up to 400 elements, iterated over to a drawn point, with every call recorded; or expressions over sets of up to 50,000 elements with counted Hash and Equal; " +
			"non-trivial: predicates or mappers are called more than twice in a graph of more than three nodes, a chain of two links consumes more than two elements, or a set of at least 5000 elements is derived from",
		Assumptions: []string{
			"Map of a frozen set may call its mapper at once; Freeze evaluates",
			"bounded observations are granted one element more than they need; Has is granted twice the calls of a complete iteration",
		},
		Scenarios: []*pbt.Scenario{
			{Name: "demand", Quick: 8000, Fn: c33Demand},
			{Name: "big-demand", Quick: 100, Fn: func(t *pbt.T) { c33DemandOf(newBigLPool(t)) }},
			{Name: "chain", Quick: 8000, Fn: c33Chain},
			{Name: "large", Quick: 400, Fn: c33Large},
		},
	})
}
