//go:build all || C15 || C16 || C17 || C18 || C19 || C20 || C21 || C22 || C29 || C32 || C33

package props

import (
	"fmt"
	"sort"
	"strings"

	"github.com/arr-ai/frozen"
	"github.com/arr-ai/frozen/lazy"

	"vh/pbt"
	"vh/univ"
)

// lv is a value of the lazy-set world: its canonical key, and a way to make
// instances of it. Equal values, and only those, have equal keys.
type lv struct {
	k    string
	make func(salt uint64) any
}

// LM is the model of a lazy set.
type LM map[string]lv

func lmOf(vs ...lv) LM {
	m := LM{}
	for _, v := range vs {
		m[v.k] = v
	}
	return m
}

func (m LM) keys() []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (m LM) key() string { return "{" + strings.Join(m.keys(), " ") + "}" }

func (m LM) filter(f func(k string) bool) LM {
	r := LM{}
	for k, v := range m {
		if f(k) {
			r[k] = v
		}
	}
	return r
}

func (m LM) and(o LM) LM   { return m.filter(func(k string) bool { _, in := o[k]; return in }) }
func (m LM) minus(o LM) LM { return m.filter(func(k string) bool { _, in := o[k]; return !in }) }
func (m LM) or(o LM) LM {
	r := LM{}
	for k, v := range m {
		r[k] = v
	}
	for k, v := range o {
		r[k] = v
	}
	return r
}

func (m LM) subset(o LM) bool { return len(m.minus(o)) == 0 }

// list gives the model's values in key order.
func (m LM) list() []lv {
	var vs []lv
	for _, k := range m.keys() {
		vs = append(vs, m[k])
	}
	return vs
}

func lvInt(i int) lv { return lv{fmt.Sprint("i", i), func(uint64) any { return i }} }
func lvInt8(i int8) lv {
	return lv{fmt.Sprint("b", i), func(uint64) any { return i }}
}
func lvStr(s string) lv { return lv{"s" + s, func(uint64) any { return s }} }
func lvEl(id int) lv {
	return lv{fmt.Sprint("e", id), func(salt uint64) any {
		return univ.ElS{ID: id, H: uint64(id % 2), Tag: int(salt % 3)}
	}}
}

// lvSet is a lazy set as a value, in one of several representations.
func lvSet(m LM) lv {
	vs := m.list()
	return lv{m.key(), func(salt uint64) any { return lazyOf(vs, salt) }}
}

// lvFrozen is a frozen.Set[any] as a value, which equals no lazy set.
func lvFrozen(m LM) lv {
	vs := m.list()
	return lv{"F" + m.key(), func(salt uint64) any { return frozenOf(vs, salt) }}
}

func frozenOf(vs []lv, salt uint64) frozen.Set[any] {
	els := make([]any, len(vs))
	for i, v := range vs {
		els[i] = v.make(pbt.Mix(salt + uint64(i)))
	}
	shuffle(salt, els)
	if salt%3 == 1 {
		s := frozen.NewSet[any]("extra")
		for _, e := range els {
			s = s.With(e)
		}
		return s.Without("extra")
	}
	return frozen.NewSet(els...)
}

// lazyOf makes a lazy set of the values in a representation chosen by salt.
func lazyOf(vs []lv, salt uint64) lazy.Set {
	if len(vs) == 0 && salt%5 == 4 {
		return lazy.EmptySet{}
	}
	extra := lvStr("extra").make(0)
	switch f := frozenOf(vs, salt); salt % 7 {
	case 1:
		s := lazy.Frozen(f.With(extra)).Where(func(e any) bool { return e != extra })
		if salt%2 == 0 {
			s.Count()
		}
		return s
	case 2:
		k := len(vs) / 2
		return lazy.Frozen(frozenOf(vs[:k], salt)).Union(lazy.Frozen(frozenOf(vs[k:], salt)))
	case 3:
		return lazy.Frozen(f.With(extra)).Difference(lazy.Frozen(frozen.NewSet(extra)))
	case 4:
		return lazy.Frozen(f).Map(func(e any) any { return e })
	case 5:
		k := (len(vs) + 1) / 2 // overlapping halves
		return lazy.Frozen(frozenOf(vs[:k], salt)).Union(lazy.Frozen(f))
	case 6:
		return lazy.Frozen(f).Intersection(lazy.Frozen(f.With(extra)))
	default:
		return lazy.Frozen(f)
	}
}

// keyOf gives the canonical key of a real value.
func keyOf(v any) string {
	switch v := v.(type) {
	case int:
		return fmt.Sprint("i", v)
	case int8:
		return fmt.Sprint("b", v)
	case string:
		return "s" + v
	case univ.ElS:
		return fmt.Sprint("e", v.ID)
	case lazy.Set:
		return "{" + strings.Join(rangeKeys(v.Range()), " ") + "}"
	case frozen.Set[any]:
		return "F{" + strings.Join(rangeKeys(v.Range()), " ") + "}"
	}
	return fmt.Sprintf("?%T %v", v, v)
}

type anyIter interface {
	Next() bool
	Value() any
}

func rangeKeys(r anyIter) []string {
	ks := []string{}
	for r.Next() {
		ks = append(ks, keyOf(r.Value()))
		if len(ks) > 5000 {
			panic("a nested set does not end")
		}
	}
	sort.Strings(ks)
	return ks
}

// lnode is an expression: its shared value, and how to build it afresh.
type lnode struct {
	s     lazy.Set
	m     LM
	fresh func() lazy.Set
	what  string
	op    string
	empty bool // literally EmptySet{}
	// it and hs estimate what a complete iteration and an unsuccessful Has
	// cost at worst, when nothing is memoised.
	it, hs float64
}

// maxCost keeps expressions from taking exponential time.
const maxCost = 2e5

// costs estimates the costs of a.op(b).
func costs(op string, a, b *lnode) (it, hs float64) {
	size := func(n *lnode) float64 {
		c := 1.0
		for k := range n.m {
			c++
			if k[0] == '{' {
				c += float64(len(k))
			}
		}
		return c
	}
	switch op {
	case "Where":
		return a.it + size(a), a.hs + 1
	case "Map":
		return a.it + 3*size(a), a.it + 3*size(a)
	case "Union":
		return a.it + b.it + size(a) + size(b), a.hs + b.hs
	case "Intersection", "Difference":
		return a.it + size(a)*b.hs, a.hs + b.hs
	case "SymmetricDifference":
		return a.it + size(a)*b.hs + b.it + size(b)*a.hs, 2 * (a.hs + b.hs)
	case "Powerset":
		n := float64(int(1) << uint(len(a.m)))
		return a.it + n*size(a), a.it + size(a)
	default: // Freeze, which building it afresh repeats
		return a.it + size(a), 1
	}
}

// lpool grows expressions over earlier expressions.
type lpool struct {
	t     *pbt.T
	vals  []lv // atoms
	nodes []*lnode
	ops   map[string]bool
	max   int // largest model
	base  int // sets of at most this many elements are drawn
	limit int // sizes of unions are at most this
	// sample limits the number of probes; 0: no limit.
	sample int
	// each is called with every new node.
	each func(n *lnode)
	// call, if not nil, is called in predicates and mappers, with the model of
	// the set they apply to and their argument's key.
	call func(m LM, k string)
}

func newLPool(t *pbt.T) *lpool {
	p := &lpool{t: t, ops: map[string]bool{}, base: 6, limit: maxLM}
	n := t.Range(2, 7)
	for i := 0; i < n; i++ {
		p.vals = append(p.vals, lvInt(i))
	}
	p.vals = append(p.vals, lvStr("1"), lvInt8(1), lvEl(0), lvEl(1), lvEl(2), lvSet(lmOf()), lvSet(lmOf(lvInt(0))),
		lvSet(lmOf(lvInt(0), lvInt(1))), lvFrozen(lmOf(lvInt(0))), lvSet(lmOf(lvSet(lmOf()))))
	return p
}

// newBigLPool makes a pool whose sets have up to some hundred elements.
func newBigLPool(t *pbt.T) *lpool {
	p := newLPool(t)
	n := t.Range(20, []int{100, 300, 1200}[t.Intn(3)])
	p.base, p.limit, p.sample = n, 3*n, 30
	for i := 7; i < n; i++ {
		switch {
		case i%10 == 0:
			p.vals = append(p.vals, lvStr(fmt.Sprint("v", i)))
		case i%10 == 1 && i < 300:
			p.vals = append(p.vals, lvEl(i))
		default:
			p.vals = append(p.vals, lvInt(i))
		}
	}
	return p
}

// genLM draws a set of atoms.
func (p *lpool) genLM(max int) LM {
	t := p.t
	m := LM{}
	if max > 12 {
		salt, d := t.Draw(1<<16), uint64(t.Range(1, 16))
		for i, v := range p.vals {
			if pbt.Mix(salt^uint64(i)*0x9e37)%16 < d {
				m[v.k] = v
			}
		}
		return m
	}
	k := t.Range(0, max)
	simple := t.Chance(2, 3) // ints only
	for i := 0; i < k; i++ {
		n := len(p.vals)
		if simple {
			n = min(n, 7)
		}
		v := p.vals[t.Intn(n)]
		m[v.k] = v
	}
	return m
}

func (p *lpool) pick() (*lnode, int) {
	n := len(p.nodes)
	i := n - 1 - p.t.Intn(n)
	return p.nodes[i], i
}

func (p *lpool) add(op string, m LM, s lazy.Set, fresh func() lazy.Set, format string, args ...any) *lnode {
	n := &lnode{s: s, m: m, fresh: fresh, op: op}
	n.it, n.hs = float64(len(m)+1), 1
	n.what = fmt.Sprintf("s%d (%s)", len(p.nodes), op)
	if p.t.Tracing() {
		n.what = fmt.Sprintf("s%d := %s", len(p.nodes), fmt.Sprintf(format, args...))
		p.t.Logf("%s = %s", n.what, m.key())
	}
	p.nodes = append(p.nodes, n)
	p.ops[op] = true
	p.max = max(p.max, len(m))
	if p.each != nil {
		p.each(n)
	}
	return n
}

// leaf adds a set that depends on no other.
func (p *lpool) leaf() *lnode {
	t := p.t
	if t.Weighted(7, 1) == 1 {
		n := p.add("EmptySet", LM{}, lazy.EmptySet{}, func() lazy.Set { return lazy.EmptySet{} }, "EmptySet{}")
		n.empty = true
		return n
	}
	m := p.genLM(p.base)
	vs, salt := m.list(), t.Draw(64)
	mk := func() lazy.Set { return lazy.Frozen(frozenOf(vs, salt)) }
	return p.add("Frozen", m, mk(), mk, "Frozen(%s)", m.key())
}

// value draws a value, often one of m.
func (p *lpool) value(m LM) lv {
	t := p.t
	if len(m) > 0 && t.Bool() {
		vs := m.list()
		return vs[t.Intn(len(vs))]
	}
	return p.vals[t.Intn(len(p.vals))]
}

const maxLM = 40

// step adds an expression over earlier ones.
func (p *lpool) step() *lnode {
	if len(p.nodes) == 0 {
		return p.leaf()
	}
	a, i := p.pick()
	n := p.stepOn(a, i)
	if n == nil {
		return p.leaf()
	}
	return n
}

func (p *lpool) stepOn(a *lnode, i int) *lnode {
	t := p.t
	single := &lnode{it: 1, hs: 1, m: lmOf(lvInt(0))}
	var it, hs float64
	tooMuch := func(op string, b *lnode) bool {
		it, hs = costs(op, a, b)
		return it > maxCost || hs > maxCost
	}
	known := func(n *lnode) *lnode {
		n.it, n.hs = it, hs
		return n
	}
	switch t.Weighted(3, 3, 3, 2, 2, 3, 2, 3, 2, 2, 1) {
	case 1:
		if tooMuch("Where", nil) {
			return nil
		}
		d, salt := t.Range(0, 16), t.Draw(1<<10)
		f := func(k string) bool { return pbt.Fingerprint([]uint64{salt, strHash(k)})%16 < uint64(d) }
		pred := func(e any) bool {
			k := keyOf(e)
			if p.call != nil {
				p.call(a.m, k)
			}
			return f(k)
		}
		return known(p.add("Where", a.m.filter(f), a.s.Where(pred), func() lazy.Set { return a.fresh().Where(pred) }, "s%d.Where(%d/16, salt %d)", i, d, salt))
	case 2:
		if tooMuch("Map", nil) {
			return nil
		}
		f := p.mapper()
		m := LM{}
		for k := range a.m {
			v := f(k)
			m[v.k] = v
		}
		mp := func(e any) any {
			k := keyOf(e)
			if p.call != nil {
				p.call(a.m, k)
			}
			return f(k).make(strHash(k))
		}
		return known(p.add("Map", m, a.s.Map(mp), func() lazy.Set { return a.fresh().Map(mp) }, "s%d.Map(...)", i))
	case 3:
		if tooMuch("Union", single) {
			return nil
		}
		v, salt := p.value(a.m), t.Draw(64)
		return known(p.add("With", a.m.or(lmOf(v)), a.s.With(v.make(salt)), func() lazy.Set { return a.fresh().With(v.make(salt)) }, "s%d.With(%s)", i, v.k))
	case 4:
		if tooMuch("Difference", single) {
			return nil
		}
		v, salt := p.value(a.m), t.Draw(64)
		return known(p.add("Without", a.m.minus(lmOf(v)), a.s.Without(v.make(salt)), func() lazy.Set { return a.fresh().Without(v.make(salt)) }, "s%d.Without(%s)", i, v.k))
	case 5:
		b, j := p.pick()
		if len(a.m)+len(b.m) > p.limit || tooMuch("Union", b) {
			return nil
		}
		return known(p.add("Union", a.m.or(b.m), a.s.Union(b.s), func() lazy.Set { return a.fresh().Union(b.fresh()) }, "s%d.Union(s%d)", i, j))
	case 6:
		b, j := p.pick()
		if tooMuch("Intersection", b) {
			return nil
		}
		return known(p.add("Intersection", a.m.and(b.m), a.s.Intersection(b.s), func() lazy.Set { return a.fresh().Intersection(b.fresh()) }, "s%d.Intersection(s%d)", i, j))
	case 7:
		b, j := p.pick()
		if tooMuch("Difference", b) {
			return nil
		}
		return known(p.add("Difference", a.m.minus(b.m), a.s.Difference(b.s), func() lazy.Set { return a.fresh().Difference(b.fresh()) }, "s%d.Difference(s%d)", i, j))
	case 8:
		b, j := p.pick()
		if len(a.m)+len(b.m) > p.limit || tooMuch("SymmetricDifference", b) {
			return nil
		}
		return known(p.add("SymmetricDifference", a.m.minus(b.m).or(b.m.minus(a.m)), a.s.SymmetricDifference(b.s),
			func() lazy.Set { return a.fresh().SymmetricDifference(b.fresh()) }, "s%d.SymmetricDifference(s%d)", i, j))
	case 9:
		if tooMuch("Powerset", nil) {
			return nil
		}
		// The power set of an empty set is a known finding, unless it is EmptySet.
		if len(a.m) > 5 || len(a.m) == 0 && !a.empty {
			return nil
		}
		return known(p.add("Powerset", powLM(a.m), a.s.Powerset(), func() lazy.Set { return a.fresh().Powerset() }, "s%d.Powerset()", i))
	case 10:
		if tooMuch("Freeze", nil) {
			return nil
		}
		return known(p.add("Freeze", a.m, a.s.Freeze(), func() lazy.Set { return a.fresh().Freeze() }, "s%d.Freeze()", i))
	}
	return nil
}

func powLM(m LM) LM {
	vs := m.list()
	r := LM{}
	for mask := 0; mask < 1<<uint(len(vs)); mask++ {
		sub := LM{}
		for b, v := range vs {
			if mask>>uint(b)&1 != 0 {
				sub[v.k] = v
			}
		}
		v := lvSet(sub)
		r[v.k] = v
	}
	return r
}

func strHash(s string) uint64 {
	h := uint64(len(s))
	for i := 0; i < len(s); i++ {
		h = pbt.Mix(h ^ uint64(s[i])<<7)
	}
	return h
}

// mapper draws a pure function on values.
func (p *lpool) mapper() func(k string) lv {
	t := p.t
	salt := t.Draw(1 << 10)
	switch t.Weighted(3, 1, 2, 1) {
	case 1:
		return func(string) lv { return lvInt(42) }
	case 2: // a permutation-like spread over the atoms
		return func(k string) lv { return p.vals[pbt.Mix(strHash(k)^salt)%uint64(len(p.vals))] }
	case 3:
		return func(k string) lv {
			return lvSet(lmOf(lvInt(int(pbt.Mix(strHash(k)^salt)%3)), lvInt(1)))
		}
	default:
		n := uint64(t.Range(1, max(4, p.base)))
		return func(k string) lv { return lvInt(int(pbt.Mix(strHash(k)^salt) % n)) }
	}
}

// probes lists values to ask a set about: all of its own and others.
func (p *lpool) probes(m LM) []lv {
	vs := append(m.list(), p.vals...)
	if p.sample > 0 && len(vs) > p.sample {
		salt := p.t.Draw(1 << 16)
		for i := 0; i < p.sample; i++ {
			j := i + int(pbt.Mix(salt+uint64(i))%uint64(len(vs)-i))
			vs[i], vs[j] = vs[j], vs[i]
		}
		vs = vs[:p.sample]
	}
	vs = append(vs, lvInt(42), lvStr("none"), lvInt(1000), lvSet(lmOf(lvInt(1000))), lvSet(m))
	if l := m.list(); len(l) > 1 {
		vs = append(vs, lvSet(lmOf(l[0])), lvSet(lmOf(l[0], l[len(l)-1])))
	}
	return vs
}

// observe performs one drawn observation of a set and compares the answer.
// It returns nothing, but may materialise the set.
func (p *lpool) observe(s lazy.Set, n *lnode, kind int, x uint64) {
	t, m, what := p.t, n.m, n.what
	switch kind {
	case 0:
		if c := s.Count(); c != len(m) {
			t.Fatalf("%s: Count() = %d, want %d: %s", what, c, len(m), m.key())
		}
	case 1:
		if e := s.IsEmpty(); e != (len(m) == 0) {
			t.Fatalf("%s: IsEmpty() = %v, want %v: %s", what, e, !e, m.key())
		}
	case 2:
		p.rangeAll(s.Range(), m, what+": Range()")
	case 3:
		ps := p.probes(m)
		p.has(s, ps[x%uint64(len(ps))], m, what, x)
	case 4:
		f := s.Freeze()
		p.rangeAll(f.Range(), m, what+": Freeze().Range()")
		if c := f.Count(); c != len(m) {
			t.Fatalf("%s: Freeze().Count() = %d, want %d: %s", what, c, len(m), m.key())
		}
	case 5:
		p.fast(s, m, what, x)
	case 6: // partial iteration
		r := s.Range()
		got := LM{}
		for k := int(x % uint64(len(m)+1)); k > 0; k-- {
			if !r.Next() {
				t.Fatalf("%s: Range() ends after %d of %d elements", what, len(got), len(m))
			}
			k := keyOf(r.Value())
			if _, in := m[k]; !in {
				t.Fatalf("%s: Range() yields %s, which is not in %s", what, k, m.key())
			}
			if _, dup := got[k]; dup {
				t.Fatalf("%s: Range() yields %s more than once", what, k)
			}
			got[k] = lv{}
		}
	case 7: // beyond the end
		r := s.Range()
		p.rangeAll(r, m, what+": Range()")
		for k := 0; k < 3; k++ {
			if pastEnd(r) {
				t.Fatalf("%s: Next returns true again after the end", what)
			}
		}
	case 8:
		limit := int(x % uint64(len(m)+3))
		if c, want := s.CountUpTo(limit), min(limit, len(m)); c != want {
			t.Fatalf("%s: CountUpTo(%d) = %d, want %d: %s", what, limit, c, want, m.key())
		}
	case 9:
		o := lazyOf(m.list(), x)
		if !s.EqualSet(o) || !s.Equal(o) || !o.EqualSet(s) || !o.Equal(s) {
			t.Fatalf("%s: not equal to a set of %s", what, m.key())
		}
		if s.Hash(uintptr(x)) != o.Hash(uintptr(x)) {
			t.Fatalf("%s: hashes unlike another set of %s", what, m.key())
		}
	case 10:
		o := lazyOf(m.or(lmOf(lvInt(1000))).list(), x)
		if s.EqualSet(o) || s.Equal(o) || o.EqualSet(s) || o.Equal(s) {
			t.Fatalf("%s: equal to a set of %s and i1000", what, m.key())
		}
		if !s.IsSubsetOf(o) || o.IsSubsetOf(s) {
			t.Fatalf("%s: IsSubsetOf a set with one more element = %v, the reverse = %v: %s", what, s.IsSubsetOf(o), o.IsSubsetOf(s), m.key())
		}
	case 11: // derive and forget
		v := p.vals[x%uint64(len(p.vals))]
		d := s.With(v.make(x)).Union(s.Where(func(any) bool { return x%2 == 0 }))
		want := m.or(lmOf(v))
		if c := d.Count(); c != len(want) {
			t.Fatalf("%s: a set derived from it has %d elements, want %d: %s", what, c, len(want), want.key())
		}
	}
}

const observations = 12

func (p *lpool) has(s lazy.Set, v lv, m LM, what string, salt uint64) {
	_, want := m[v.k]
	if h := s.Has(v.make(salt)); h != want {
		p.t.Fatalf("%s: Has(%s) = %v, want %v: %s", what, v.k, h, want, m.key())
	}
}

func (p *lpool) rangeAll(r lazy.SetIterator, m LM, what string) {
	t := p.t
	got := LM{}
	for r.Next() {
		v := r.Value()
		k := keyOf(v)
		if _, in := m[k]; !in {
			t.Fatalf("%s yields %s, which is not in %s", what, k, m.key())
		}
		if _, dup := got[k]; dup {
			t.Fatalf("%s yields %s more than once", what, k)
		}
		if k2 := keyOf(r.Value()); k2 != k {
			t.Fatalf("%s: Value changed from %s to %s without Next", what, k, k2)
		}
		got[k] = lv{}
	}
	if len(got) != len(m) {
		t.Fatalf("%s yields %s, want %s", what, got.key(), m.key())
	}
}

// fast checks the Fast observations.
func (p *lpool) fast(s lazy.Set, m LM, what string, x uint64) {
	t := p.t
	if e, ok := s.FastIsEmpty(); ok && e != (len(m) == 0) {
		t.Fatalf("%s: FastIsEmpty() = %v, true, want %v: %s", what, e, !e, m.key())
	} else if ok {
		t.Class("fast: IsEmpty")
	}
	if c, ok := s.FastCount(); ok && c != len(m) {
		t.Fatalf("%s: FastCount() = %d, true, want %d: %s", what, c, len(m), m.key())
	} else if ok {
		t.Class("fast: Count")
	}
	for _, limit := range []int{0, 1, int(x % uint64(len(m)+3)), len(m), len(m) + 1, maxInt} {
		if c, ok := s.FastCountUpTo(limit); ok && c != min(limit, len(m)) {
			t.Fatalf("%s: FastCountUpTo(%d) = %d, true, want %d: %s", what, limit, c, min(limit, len(m)), m.key())
		} else if ok {
			t.Class("fast: CountUpTo")
		}
	}
	for i, v := range p.probes(m) {
		if i > 4 && pbt.Mix(x+uint64(i))%3 != 0 {
			continue
		}
		_, want := m[v.k]
		if h, ok := s.FastHas(v.make(x)); ok && h != want {
			t.Fatalf("%s: FastHas(%s) = %v, true, want %v: %s", what, v.k, h, want, m.key())
		} else if ok {
			t.Class("fast: Has")
		}
	}
}

const maxInt = int(^uint(0) >> 1)

// pastEnd calls Next on an iterator that has ended. The iterator of a power set
// that is not memoised is documented, by its panic message, to refuse that.
func pastEnd(r lazy.SetIterator) (more bool) {
	if e, p := pbt.Recover(func() { more = r.Next() }); p {
		if e != "called Next() after reaching the end" {
			panic(e)
		}
	}
	return more
}

func (p *lpool) nonTrivial() {
	if len(p.nodes) > 3 && p.max > 1 {
		p.t.NonTrivial()
	}
	for op := range p.ops {
		p.t.Class("op:" + op)
	}
}
