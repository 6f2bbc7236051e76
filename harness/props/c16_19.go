//go:build all || C16 || C17 || C18 || C19 || C22

package props

import (
	"fmt"

	"github.com/arr-ai/frozen"
	"github.com/arr-ai/frozen/lazy"

	"vh/pbt"
)

func (p *lpool) verify(s lazy.Set, n *lnode) {
	p.observe(s, n, 1, 0)
	for i, v := range p.probes(n.m) {
		p.has(s, v, n.m, n.what, uint64(i))
	}
	p.observe(s, n, 0, 0)
	p.observe(s, n, 2, 0)
	p.observe(s, n, 4, 0)
	for i, v := range p.probes(n.m) {
		p.has(s, v, n.m, n.what+" after iteration", uint64(i+1))
	}
	p.observe(s, n, 0, 0)
}

// c16: every expression denotes what it says, observed first in a drawn way.
func c16(t *pbt.T) { c16Of(newLPool(t)) }

func c16Of(p *lpool) {
	t := p.t
	eager := t.Bool() // verify nodes as they are made, or all at the end
	if eager {
		p.each = func(n *lnode) { p.verify(n.s, n) }
	}
	t.Loop(2, 7, 14, func(int) { p.step() })
	if !eager {
		for i := range p.nodes {
			n := p.nodes[len(p.nodes)-1-i]
			p.verify(n.s, n)
		}
	}
	for _, n := range p.nodes {
		if t.Chance(1, 3) {
			p.verify(n.fresh(), n)
		}
	}
	p.nonTrivial()
}

// c16First makes one kind of observation the very first one of a fresh set.
func c16First(t *pbt.T) { c16FirstOf(newLPool(t)) }

func c16FirstOf(p *lpool) {
	t := p.t
	t.Loop(2, 5, 10, func(int) { p.step() })
	n := p.nodes[len(p.nodes)-1]
	for kind := 0; kind < 5; kind++ {
		for k := 0; k < 3; k++ {
			p.observe(n.fresh(), n, kind, t.Draw(256))
		}
	}
	p.nonTrivial()
}

func c17(t *pbt.T) { c17Of(newLPool(t)) }

func c17Of(p *lpool) {
	t := p.t
	t.Loop(2, 7, 14, func(int) { p.step() })
	for i, n := range p.nodes {
		p.fast(n.s, n.m, n.what, t.Draw(64))
		for limit := 0; limit <= len(n.m)+2; limit++ {
			p.observe(n.fresh(), n, 8, uint64(limit))
			if limit > 8 && i%3 != 0 {
				break
			}
			if p.sample > 0 && limit > 3 && limit < len(n.m)-1 {
				limit = t.Range(limit, len(n.m)-1)
			}
		}
		if c := n.s.CountUpTo(maxInt); c != len(n.m) {
			t.Fatalf("%s: CountUpTo(max) = %d, want %d: %s", n.what, c, len(n.m), n.m.key())
		}
		p.observe(n.s, n, int(t.Draw(observations)), t.Draw(64))
		p.fast(n.s, n.m, n.what+" after another observation", t.Draw(64))
	}
	p.nonTrivial()
}

// c17Huge: power sets far too large to enumerate.
func c17Huge(t *pbt.T) {
	n := t.Range(18, 80)
	if t.Bool() {
		n = t.Range(58, 68)
	}
	var b frozen.SetBuilder[any]
	for i := 0; i < n; i++ {
		b.Add(i)
	}
	base := lazy.Frozen(b.Finish())
	kind := t.Intn(3)
	switch kind {
	case 1: // size not known without enumeration
		base = base.Where(func(e any) bool { return true })
	case 2: // known after materialisation
		base = base.Map(func(e any) any { return e.(int) + 100 })
		base.Count()
		for r := base.Range(); r.Next(); {
		}
	}
	s := base.Powerset()
	what := fmt.Sprintf("power set of %d elements (kind %d)", n, kind)
	t.Logf("%s", what)
	card := maxInt // saturated
	if n < 63 {
		card = 1 << uint(n)
	}
	limits := []int{0, 1, 2, t.Range(3, 300), t.Range(300, 2000)}
	if kind != 1 {
		limits = append(limits, 1<<17-1, 1<<17, 1<<17+1, 1<<30, 1<<62-1, 1<<62, 1<<62+1, maxInt-1, maxInt)
	}
	shuffle(t.Draw(64), limits)
	if t.Bool() {
		r := s.Range()
		for k := 0; k < 100 && k < card; k++ {
			if !r.Next() {
				t.Fatalf("%s: Range ends after %d", what, k)
			}
		}
	}
	for _, l := range limits {
		if c := s.CountUpTo(l); c != min(l, card) {
			t.Fatalf("%s: CountUpTo(%d) = %d, want %d", what, l, c, min(l, card))
		}
		if c, ok := s.FastCountUpTo(l); ok && c != min(l, card) {
			t.Fatalf("%s: FastCountUpTo(%d) = %d, true, want %d", what, l, c, min(l, card))
		}
		u := s.Union(lazy.Frozen(frozen.NewSet[any](-1)))
		if kind != 1 && l < 3000 || l < 3000 {
			if c := u.CountUpTo(l); c != min(l, card) {
				t.Fatalf("%s and one more element: CountUpTo(%d) = %d, want %d", what, l, c, min(l, card))
			}
		}
	}
	if e, ok := s.FastIsEmpty(); ok && e {
		t.Fatalf("%s: FastIsEmpty() = true", what)
	}
	if s.IsEmpty() {
		t.Fatalf("%s: IsEmpty() = true", what)
	}
	pbt.Recover(func() { // a panic says nothing
		if c, ok := s.FastCount(); ok && (c != card || n >= 63) {
			t.Fatalf("%s: FastCount() = %d, true", what, c)
		}
	})
	if n < 63 && kind != 1 {
		if c := s.Count(); c != card {
			t.Fatalf("%s: Count() = %d, want %d", what, c, card)
		}
	}
	if n >= 63 {
		pbt.Recover(func() {
			if c := s.Count(); c != card {
				t.Fatalf("%s: Count() = %d", what, c)
			}
		})
	}
	// Members: subsets of the base.
	var els []any
	for r := base.Range(); r.Next(); {
		els = append(els, r.Value())
	}
	for k := 0; k < 4; k++ {
		var sub frozen.Set[any]
		x := t.U64()
		for i, e := range els {
			if pbt.Mix(x+uint64(i))%2 == 0 {
				sub = sub.With(e)
			}
		}
		if !s.Has(lazy.Frozen(sub)) {
			t.Fatalf("%s: Has(a subset of %d elements) = false", what, sub.Count())
		}
		if s.Has(lazy.Frozen(sub.With("other"))) {
			t.Fatalf("%s: Has(a set with a foreign element) = true", what)
		}
		if h, ok := s.FastHas(lazy.Frozen(sub)); ok && !h {
			t.Fatalf("%s: FastHas(a subset) = false, true", what)
		}
	}
	// The power set of a power set.
	ss := s.Powerset()
	for _, l := range []int{0, 1, 5, 100} {
		if c := ss.CountUpTo(l); c != l {
			t.Fatalf("power set of the %s: CountUpTo(%d) = %d", what, l, c)
		}
	}
	t.NonTrivial()
}

// c18: after any mix of observations, each one still gives the true answer.
func c18(t *pbt.T) { c18Of(newLPool(t)) }

func c18Of(p *lpool) {
	t := p.t
	if p.sample == 0 {
		p.base = 4
	}
	var its []func() // iterators in progress
	t.Loop(3, 16, 50, func(int) {
		if len(p.nodes) < 2 || t.Chance(1, 3) && len(p.nodes) < 14 {
			p.step()
			return
		}
		n, i := p.pick()
		switch t.Weighted(8, 2, 3) {
		case 0:
			kind, x := t.Intn(observations), t.Draw(256)
			t.Logf("observe s%d, kind %d", i, kind)
			p.observe(n.s, n, kind, x)
		case 1:
			t.Logf("iterate s%d", i)
			r, got, ended := n.s.Range(), LM{}, false
			its = append(its, func() {
				if ended {
					if pastEnd(r) {
						t.Fatalf("%s: Next returns true again after the end", n.what)
					}
					return
				}
				if !r.Next() {
					ended = true
					if len(got) != len(n.m) {
						t.Fatalf("%s: an iterator yields %s, want %s", n.what, got.key(), n.m.key())
					}
					return
				}
				k := keyOf(r.Value())
				if _, in := n.m[k]; !in {
					t.Fatalf("%s: an iterator yields %s, which is not in %s", n.what, k, n.m.key())
				}
				if _, dup := got[k]; dup {
					t.Fatalf("%s: an iterator yields %s more than once", n.what, k)
				}
				got[k] = lv{}
			})
		case 2:
			if len(its) == 0 {
				return
			}
			k := t.Intn(len(its))
			for c := t.Range(1, 8); c > 0; c-- {
				its[k]()
			}
			t.Logf("advance iterator %d", k)
		}
	})
	for i, n := range p.nodes {
		for kind := 0; kind < observations; kind++ {
			if kind > 4 && t.Bool() {
				continue
			}
			p.observe(n.s, n, kind, uint64(i*7+kind))
		}
	}
	p.nonTrivial()
}

// c18Concurrent: the same from several goroutines at once.
func c18Concurrent(t *pbt.T) {
	p := newLPool(t)
	p.base = 4
	t.Loop(3, 6, 10, func(int) { p.step() })
	var fs []func()
	g := t.Range(2, 4)
	for i := 0; i < g; i++ {
		salt := t.U64()
		k := t.Range(3, 12)
		fs = append(fs, func() {
			for j := 0; j < k; j++ {
				x := pbt.Mix(salt + uint64(j))
				n := p.nodes[len(p.nodes)-1-int(x%7%uint64(len(p.nodes)))]
				p.observe(n.s, n, int(x>>8%observations), x>>20)
			}
		})
	}
	t.Parallel(fs...)
	for i, n := range p.nodes {
		for kind := 0; kind < 5; kind++ {
			p.observe(n.s, n, kind, uint64(i+kind))
		}
	}
	p.nonTrivial()
}

// c19: pairs.
func c19(t *pbt.T) { c19Of(newLPool(t)) }

func c19Of(p *lpool) {
	t := p.t
	if p.sample == 0 {
		p.base = 3 // equal sets come up often
	}
	t.Loop(2, 7, 14, func(int) { p.step() })
	// Alternatives for some sets, denoting the same in other ways. then gives
	// the estimated costs of an operation, as a node; within adds an
	// alternative only if its costs are bearable.
	then := func(op string, a, b *lnode, m LM) *lnode {
		r := &lnode{m: m}
		r.it, r.hs = costs(op, a, b)
		return r
	}
	within := func(c *lnode, add func() *lnode) {
		if c.it <= maxCost && c.hs <= maxCost {
			n := add()
			n.it, n.hs = c.it, c.hs
		}
	}
	for k := 0; k < 4; k++ {
		n, i := p.pick()
		o, j := p.pick()
		switch t.Intn(7) {
		case 0:
			vs, salt := n.m.list(), t.Draw(64)
			mk := func() lazy.Set { return lazyOf(vs, salt) }
			p.add("rebuilt", n.m, mk(), mk, "s%d rebuilt (%d)", i, salt)
		case 1:
			within(n, func() *lnode { return p.add("copied", n.m, n.fresh(), n.fresh, "fresh copy of s%d", i) })
		case 2:
			mk := func(a, b lazy.Set) lazy.Set { return a.Union(b).Difference(b.Difference(a)) }
			within(then("Difference", then("Union", n, o, n.m.or(o.m)), then("Difference", o, n, o.m.minus(n.m)), n.m), func() *lnode {
				return p.add("absorbed", n.m, mk(n.s, o.s), func() lazy.Set { return mk(n.fresh(), o.fresh()) }, "(s%d+s%d)-(s%d-s%d)", i, j, j, i)
			})
		case 3:
			mk := func(a, b lazy.Set) lazy.Set { return a.Intersection(b).Union(a.Difference(b)) }
			within(then("Union", then("Intersection", n, o, n.m.and(o.m)), then("Difference", n, o, n.m.minus(o.m)), n.m), func() *lnode {
				return p.add("split", n.m, mk(n.s, o.s), func() lazy.Set { return mk(n.fresh(), o.fresh()) }, "(s%d&s%d)+(s%d-s%d)", i, j, i, j)
			})
		case 4:
			mk := func(a, b lazy.Set) lazy.Set { return a.SymmetricDifference(b).SymmetricDifference(b) }
			if len(n.m)+len(o.m) < p.limit {
				xor := n.m.minus(o.m).or(o.m.minus(n.m))
				within(then("SymmetricDifference", then("SymmetricDifference", n, o, xor), o, n.m), func() *lnode {
					return p.add("xor twice", n.m, mk(n.s, o.s), func() lazy.Set { return mk(n.fresh(), o.fresh()) }, "s%d^s%d^s%d", i, j, j)
				})
			}
		case 5:
			mk := func(a lazy.Set) lazy.Set { return a.Map(func(e any) any { return e }) }
			within(then("Map", n, nil, n.m), func() *lnode {
				return p.add("identity", n.m, mk(n.s), func() lazy.Set { return mk(n.fresh()) }, "s%d.Map(identity)", i)
			})
		case 6:
			within(then("Freeze", n, nil, n.m), func() *lnode {
				return p.add("frozen", n.m, n.s.Freeze(), func() lazy.Set { return n.fresh().Freeze() }, "s%d.Freeze()", i)
			})
		}
	}
	salt := t.Draw(1 << 10)
	for i, a := range p.nodes {
		for j, b := range p.nodes {
			x := pbt.Mix(salt ^ uint64(i)<<20 ^ uint64(j))
			if x%3 == 0 && len(p.nodes) > 8 {
				continue
			}
			as, bs := a.s, b.s
			if x>>8%4 == 0 {
				as = a.fresh()
			}
			if x>>16%4 == 0 {
				bs = b.fresh()
			}
			if x>>24%4 == 0 {
				as.Count()
				for r := as.Range(); r.Next(); {
				}
			}
			p.pair(as, bs, a, b, uintptr(x>>30%3)*0x1234567)
		}
		for _, f := range []any{nil, 1, frozenOf(a.m.list(), 0), "x", []any{}} {
			if a.s.Equal(f) {
				t.Fatalf("%s: Equal(%T) = true", a.what, f)
			}
		}
	}
	p.nonTrivial()
}

func (p *lpool) pair(as, bs lazy.Set, a, b *lnode, seed uintptr) {
	t := p.t
	sub := a.m.subset(b.m)
	eq := sub && len(a.m) == len(b.m)
	if as.Equal(bs) != eq {
		t.Fatalf("[%s].Equal([%s]) = %v for %s and %s", a.what, b.what, !eq, a.m.key(), b.m.key())
	}
	if as.EqualSet(bs) != eq {
		t.Fatalf("[%s].EqualSet([%s]) = %v for %s and %s", a.what, b.what, !eq, a.m.key(), b.m.key())
	}
	if as.IsSubsetOf(bs) != sub {
		t.Fatalf("[%s].IsSubsetOf([%s]) = %v for %s and %s", a.what, b.what, !sub, a.m.key(), b.m.key())
	}
	if eq {
		if x, y := as.Hash(seed), bs.Hash(seed); x != y {
			t.Fatalf("[%s] and [%s], which are equal, hash to %x and %x with seed %x", a.what, b.what, x, y, seed)
		}
		t.ClassIf(a != b, "equal pair")
	}
}

// knownEmptyPowerset: the power set of an empty set other than EmptySet.
func knownEmptyPowerset() string {
	s := lazy.Frozen(frozen.Set[any]{}).Powerset()
	if s.IsEmpty() {
		return "lazy.Frozen(frozen.Set[any]{}).Powerset().IsEmpty() = true, but the power set of the empty set has one element"
	}
	return ""
}

func knownEmptyPowersetFast() string {
	s := lazy.Frozen(frozen.Set[any]{}).Powerset()
	if e, ok := s.FastIsEmpty(); ok && e {
		return "lazy.Frozen(frozen.Set[any]{}).Powerset().FastIsEmpty() = true, true, but the power set of the empty set has one element"
	}
	return ""
}

func init() {
	const rule = "a case is a history of lazy expressions over shared sub-expressions (ints, strings, sets and colliding values as elements), each with " +
		"a model computed on canonical keys; non-trivial: at least 4 sets, one with at least 2 elements"
	register(&pbt.Prop{
		ID: "C16", Rule: rule,
		Assumptions: []string{"power sets of empty sets other than EmptySet are excluded (known finding empty-powerset)"},
		Scenarios: []*pbt.Scenario{
			{Name: "expressions", Quick: 6000, Fn: c16},
			{Name: "first-observation", Quick: 5000, Fn: c16First},
			{Name: "big", Quick: 80, Fn: func(t *pbt.T) { c16Of(newBigLPool(t)) }},
			{Name: "big-first-observation", Quick: 80, Fn: func(t *pbt.T) { c16FirstOf(newBigLPool(t)) }},
		},
		Known: []pbt.Known{{Key: "empty-powerset", Probe: knownEmptyPowerset}},
	})
	register(&pbt.Prop{
		ID: "C17", Rule: rule + ", or any huge power set",
		Assumptions: []string{"limits are not negative", "power sets of empty sets other than EmptySet are excluded (known finding empty-powerset)"},
		Scenarios: []*pbt.Scenario{
			{Name: "expressions", Quick: 5000, Fn: c17},
			{Name: "huge", Quick: 500, Fn: c17Huge},
			{Name: "big", Quick: 80, Fn: func(t *pbt.T) { c17Of(newBigLPool(t)) }},
		},
		Known: []pbt.Known{{Key: "empty-powerset", Probe: knownEmptyPowersetFast}},
	})
	register(&pbt.Prop{
		ID: "C18", Rule: rule,
		Scenarios: []*pbt.Scenario{
			{Name: "observations", Quick: 50000, Fn: c18, Only: []string{"default"}},
			{Name: "big", Quick: 500, Fn: func(t *pbt.T) { c18Of(newBigLPool(t)) }, Only: []string{"default"}},
			{Name: "concurrent", Quick: 8000, Fn: c18Concurrent, Only: []string{"race"}},
			{Name: "concurrent-plain", Quick: 12000, Fn: c18Concurrent, Only: []string{"default"}},
		},
		Configs: []*pbt.Config{cfgDefault, cfgRaceSeq},
	})
	register(&pbt.Prop{
		ID: "C19", Rule: rule,
		Scenarios: []*pbt.Scenario{
			{Name: "pairs", Quick: 4000, Fn: c19},
			{Name: "big-pairs", Quick: 30, Fn: func(t *pbt.T) { c19Of(newBigLPool(t)) }},
		},
	})
}
