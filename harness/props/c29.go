//go:build all || C29 || C32

package props

import (
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"sort"
	"strings"
	"sync/atomic"

	"github.com/arr-ai/frozen"
	"github.com/arr-ai/frozen/lazy"
	"github.com/arr-ai/frozen/pkg/rel"

	"vh/gen"
	"vh/pbt"
	"vh/univ"
)

// fuse makes one of the user-supplied functions, which all call univ.Tick,
// panic. Workers of the library may call them concurrently.
type fuse struct {
	ticks int64 // so far
	at    int64 // panics at this one; 0: never
	every bool  // and at all later ones
	fired int64
}

// boom is what the fuse panics with.
type boom struct{ at int64 }

func (f *fuse) tick() {
	n := atomic.AddInt64(&f.ticks, 1)
	if f.at > 0 && (n == f.at || f.every && n > f.at) {
		atomic.AddInt64(&f.fired, 1)
		panic(&boom{f.at})
	}
}

// run runs act with the fuse and reports whether the fuse's panic, and no
// other, came out of it.
func (f *fuse) run(act func() string) (out string, panicked bool, other any) {
	univ.Hook = f.tick
	defer func() {
		univ.Hook = nil
		if r := recover(); r != nil {
			if pbt.Failed(r) {
				panic(r)
			}
			if _, is := r.(*boom); is {
				panicked = true
			} else {
				other = r
			}
		}
	}()
	return act(), false, nil
}

var inParallel = os.Getenv("FROZEN_CONCURRENCY") != "off"

// A disturber runs an action with something unusual going on in the functions
// it calls; other does another action on the same values. It reports whether
// the action called any such functions.
type disturber func(t *pbt.T, what string, act func() string, other func(x uint64) string) bool

// inject runs act undisturbed, then with a panic at a drawn call of the
// user-supplied functions, then undisturbed again.
func inject(t *pbt.T, what string, act func() string, other2 func(x uint64) string) bool {
	count := &fuse{}
	want, p, other := count.run(act)
	if p || other != nil {
		t.Fatalf("%s: panics by itself: %v", what, other)
	}
	n := count.ticks
	if n == 0 {
		return false
	}
	f := &fuse{every: t.Chance(1, 4)}
	// The first and the last calls are of special interest.
	switch t.Weighted(3, 1, 1) {
	case 0:
		f.at = 1 + int64(t.Draw(1<<20))%n
	case 1:
		f.at = 1
	default:
		f.at = n
	}
	x2, first := t.U64(), t.Bool()
	var want2 string
	if other2 != nil {
		want2 = other2(x2)
	}
	got, p, other := f.run(act)
	t.Logf("%s: panic at call %d of %d: %v", what, f.at, n, p)
	switch {
	case other != nil:
		t.Fatalf("%s: a panic in call %d of %d comes out as %v", what, f.at, n, other)
	case p && f.fired == 0:
		t.Fatalf("%s: panics without cause", what)
	case !p && f.fired > 0 && !inParallel:
		t.Fatalf("%s: a panic in call %d of %d is swallowed, and the result is %s", what, f.at, n, clip(got))
	case !p && got != want: // not reached, or a worker whose part did not matter
		t.Fatalf("%s: gives %s, before %s (a panic in call %d of %d: %d)", what, clip(got), clip(want), f.at, n, f.fired)
	}
	another := func() {
		if other2 == nil {
			return
		}
		if got := other2(x2); got != want2 {
			t.Fatalf("after a panic in call %d of %d of %s, another action (%d) gives %s, before %s", f.at, n, what, x2, clip(got), clip(want2))
		}
	}
	if first { // something that the panic left behind may show in the next action only
		another()
	}
	again, p, other := (&fuse{}).run(act)
	if p || other != nil {
		t.Fatalf("%s: after a panic in call %d of %d, panics again: %v", what, f.at, n, other)
	}
	if again != want {
		t.Fatalf("%s: after a panic in call %d of %d, gives %s, before %s", what, f.at, n, clip(again), clip(want))
	}
	if !first {
		another()
	}
	return f.fired > 0
}

// moreSet has further actions on sets that call user-supplied functions.
func moreSet(u univ.SetU, s, o univ.Set, x uint64) string {
	y := x >> 20
	ref := func(k uint64) univ.Ref {
		z := pbt.Mix(y + k)
		return univ.Ref{I: int(z % uint64(u.N())), R: int(z >> 32 % uint64(u.Reps()))}
	}
	switch x % 10 {
	case 0:
		var refs []univ.Ref
		for k := uint64(0); k < x>>8%30; k++ {
			refs = append(refs, ref(k))
		}
		return digest(u.New(refs...))
	case 1:
		b := u.Builder(int(x>>8%9), x&1024 != 0)
		for k := uint64(0); k < x>>8%30; k++ {
			if r := ref(k); k%5 == 4 {
				b.Remove(r)
			} else if !b.Has(r) {
				b.Add(r)
			}
		}
		return digest(b.Finish())
	case 2:
		return digest(u.Union(s, o, s.With(ref(0))))
	case 3:
		return digest(u.Intersection(s, o.With(ref(0)), s))
	case 4:
		r, ok := s.Reduce2(func(a, b int) int { univ.Tick(); return max(a, b) })
		return fmt.Sprint(r, ok)
	case 5:
		var es []int
		for r := s.OrderedRange(func(a, b int) bool { univ.Tick(); return a > b }); r.Next(); {
			es = append(es, r.Value())
		}
		return fmt.Sprint(es)
	case 6:
		return digest(s.FirstN(int(x>>8%5), func(a, b int) bool { univ.Tick(); return a < b }))
	case 7:
		if s.IsEmpty() {
			return ""
		}
		return fmt.Sprint(s.First(func(a, b int) bool { univ.Tick(); return a < b }))
	case 8:
		if !u.HasExt() || s.Count() > 6 {
			return ""
		}
		ps := s.Ext().Powerset()
		var ds []string
		for _, p := range ps {
			ds = append(ds, digest(p))
		}
		sort.Strings(ds)
		return strings.Join(ds, "|")
	default:
		if u.Name() != "El" {
			return ""
		}
		ku := univ.Sets(univ.ElSU(u.Hashes()))
		g := s.Ext().GroupByIn(ku, func(i int) univ.Ref { univ.Tick(); return univ.Ref{I: int(pbt.Mix(y+uint64(i%3)) % uint64(u.N()))} })
		var ds []string
		g.Each(func(k int, s univ.Set) { ds = append(ds, fmt.Sprint(k, ":", digest(s))) })
		sort.Strings(ds)
		return fmt.Sprint(g.Count, ds)
	}
}

// Actions that make texts are left out: fmt turns panics into text.
func isText(k uint64, ks ...uint64) bool {
	for _, x := range ks {
		if k == x {
			return true
		}
	}
	return false
}

func disturbSets(t *pbt.T, u univ.SetU, disturb disturber) {
	p := newPool(t, u)
	t.Loop(2, 7, 14, func(int) { p.step() })
	hits := 0
	t.Loop(1, 6, 16, func(int) {
		i, j := p.pick(), p.pick()
		s, o := p.vs[i].s, p.vs[j].s
		x := t.U64()
		more := t.Bool()
		what := ""
		act := func() string { return actSet(u, s, o, x) }
		if more {
			what = fmt.Sprintf("action +%d on s%d and s%d", x%10, i, j)
			act = func() string { return moreSet(u, s, o, x) }
		} else {
			if isText(x%setActs, 20, 21, 22) {
				x += 3
			}
			what = fmt.Sprintf("action %d on s%d and s%d", x%setActs, i, j)
		}
		// An iteration in progress goes on.
		it := s.Range()
		k := t.Intn(p.vs[i].m.count() + 1)
		var seen []int
		for ; k > 0 && it.Next(); k-- {
			seen = append(seen, it.Value())
		}
		if disturb(t, what, act, func(x uint64) string {
			y := x >> 48
			return actSet(u, p.vs[int(y)%len(p.vs)].s, p.vs[int(y>>8)%len(p.vs)].s, x)
		}) {
			hits++
		}
		seen = append(seen, drain(it, u.N())...)
		if !asM(t, u.N(), seen, what+": iteration of an operand").eq(p.vs[i].m) {
			t.Fatalf("%s: iteration of an operand yields %v, want %v", what, seen, p.vs[i].m.list())
		}
		verifySet(t, s, p.vs[i].m, what+": an operand")
		verifySet(t, o, p.vs[j].m, what+": the other operand")
		// The history continues.
		if t.Chance(1, 3) {
			p.step()
			last := p.vs[len(p.vs)-1]
			verifySet(t, last.s, last.m, fmt.Sprintf("%s: s%d made afterwards", what, len(p.vs)-1))
		}
	})
	for i, v := range p.vs {
		verifySet(t, v.s, v.m, fmt.Sprintf("s%d at the end", i))
	}
	usable(t, p.vs[len(p.vs)-1].s, p.vs[len(p.vs)-1].m, "the last set")
	if hits > 0 && p.maxSize > 2 {
		t.NonTrivial()
	}
}

func c29U(t *pbt.T) univ.SetU {
	n := gen.GenN(t)
	if n > 60 {
		n = 60
	}
	if t.Chance(1, 6) {
		return gen.GenSetU(t, n) // only callbacks can fail for most of these
	}
	return gen.GenHashedSetU(t, n)
}

func c29Sets(t *pbt.T) { disturbSets(t, c29U(t), inject) }
func c29Maps(t *pbt.T) { disturbMaps(t, inject) }
func c29Ints(t *pbt.T) { disturbInts(t, inject) }
func c29Lazy(t *pbt.T) { disturbLazy(t, inject) }
func c29Rel(t *pbt.T)  { disturbRel(t, inject) }

func disturbMaps(t *pbt.T, disturb disturber) {
	u := hashedMU(t)
	if t.Chance(1, 6) {
		u = genMU(t, true, true)
	}
	p := newMPool(t, u)
	t.Loop(2, 7, 14, func(int) { p.step() })
	hits := 0
	t.Loop(1, 6, 16, func(int) {
		i, j := p.pick(), p.pick()
		m, o := p.vs[i].m, p.vs[j].m
		x := t.U64()
		var what string
		var act func() string
		if t.Chance(2, 3) {
			if isText(x%mapActs, 13, 14, 16) {
				x -= 2
				if isText(x%mapActs, 14) {
					x -= 2
				}
			}
			what = fmt.Sprintf("action %d on m%d and m%d", x%mapActs, i, j)
			act = func() string { return actMap(u, m, o, x) }
		} else {
			kvs := entries(t, u, p.vs[j].mm)
			what = fmt.Sprintf("action +%d on m%d and m%d", x%3, i, j)
			act = func() string {
				switch x % 3 {
				case 0:
					return digestMap(u.New(kvs...))
				case 1:
					b := u.Builder(int(x>>8%9), x&1024 != 0)
					for i, kv := range kvs {
						b.Put(kv.K, kv.V)
						if i%5 == 4 {
							b.Remove(kvs[i/2].K)
						}
					}
					return digestMap(b.Finish())
				default:
					return digestMap(u.FromKeys(m.Keys(), func(k int) univ.Ref {
						univ.Tick()
						return univ.Ref{I: k % u.Vals().N()}
					}))
				}
			}
		}
		if disturb(t, what, act, func(x uint64) string {
			y := x >> 48
			return actMap(u, p.vs[int(y)%len(p.vs)].m, p.vs[int(y>>8)%len(p.vs)].m, x)
		}) {
			hits++
		}
		verifyMap(t, m, p.vs[i].mm, what+": an operand")
		verifyMap(t, o, p.vs[j].mm, what+": the other operand")
		if t.Chance(1, 3) {
			p.step()
			last := p.vs[len(p.vs)-1]
			verifyMap(t, last.m, last.mm, fmt.Sprintf("%s: m%d made afterwards", what, len(p.vs)-1))
		}
	})
	for i, v := range p.vs {
		verifyMap(t, v.m, v.mm, fmt.Sprintf("m%d at the end", i))
	}
	if hits > 0 && p.maxSize > 2 {
		t.NonTrivial()
	}
}

// c29Builders: a builder that fails half way, and those it shares structure
// with, do not disturb what was finished or given to it before.
func c29Builders(t *pbt.T) {
	u := c29U(t)
	b := u.Builder(t.Intn(9), t.Bool())
	m := newM(u.N())
	var done []sv
	hits := 0
	t.Loop(3, 25, 80, func(int) {
		r := gen.GenRef(t, u)
		k := t.Weighted(4, 2, 1, 3)
		switch k {
		case 0:
			b.Add(r)
			m.put(r.I)
		case 1:
			b.Remove(r)
			m.del(r.I)
		case 2:
			s := b.Finish()
			done = append(done, sv{s, m.clone()})
			b, m = u.Builder(0, false), newM(u.N())
			for _, r := range freshRefs(t, u, done[t.Intn(len(done))].m) {
				b.Add(r)
				m.put(r.I)
			}
		default:
			if len(done) == 0 {
				return
			}
			// Updates of a set's successor fail.
			v := done[t.Intn(len(done))]
			f := &fuse{at: 1 + int64(t.Intn(12))}
			_, p, other := f.run(func() string {
				s := v.s
				for i := 0; i < 6; i++ {
					s = s.With(univ.Ref{I: (r.I + i) % u.N()}).Without(univ.Ref{I: (r.I + 3*i) % u.N()})
				}
				return ""
			})
			if other != nil {
				t.Fatalf("updates fail with %v", other)
			}
			if p {
				hits++
			}
			verifySet(t, v.s, v.m, "a finished set after failing updates")
		}
	})
	// The builder itself fails; its products remain.
	final := b.Finish()
	done = append(done, sv{final, m.clone()})
	f := &fuse{at: 1 + int64(t.Intn(20))}
	_, p, other := f.run(func() string {
		c := u.Builder(0, false)
		for _, r := range freshRefs(t, u, m) {
			c.Add(r)
		}
		done = append(done, sv{c.Finish(), m.clone()})
		for i := 0; i < 20; i++ {
			c.Add(univ.Ref{I: i % u.N()})
			c.Remove(univ.Ref{I: (i * 7) % u.N()})
		}
		return ""
	})
	if other != nil {
		t.Fatalf("a builder fails with %v", other)
	}
	if p {
		hits++
	}
	for i, v := range done {
		verifySet(t, v.s, v.m, fmt.Sprintf("finished set %d at the end", i))
	}
	if hits > 0 {
		t.NonTrivial()
	}
}

func disturbIntRun[I integer](t *pbt.T, disturb disturber) {
	p := newIPool[I](t)
	t.Loop(2, 7, 14, func(int) { p.step() })
	hits := 0
	t.Loop(1, 4, 10, func(int) {
		i := p.pick()
		v := p.vs[i]
		x := t.Draw(1 << 10)
		if disturb(t, fmt.Sprintf("action %d on s%d", x%2, i), func() string {
			if x%2 == 0 {
				return digestInts(v.s.Where(func(i I) bool { univ.Tick(); return pbt.Mix(x^uint64(i))%2 == 0 }))
			}
			return digestInts(v.s.Map(func(i I) I { univ.Tick(); return i / I(x%5+1) }))
		}, func(x uint64) string {
			o := p.vs[int(x>>48)%len(p.vs)].s
			return digestInts(o.Union(v.s).Where(func(i I) bool { univ.Tick(); return i%2 == 0 })) + o.String()
		}) {
			hits++
		}
		p.verify(v, fmt.Sprintf("s%d after a panic", i))
		if t.Chance(1, 3) {
			p.step()
		}
	})
	for i, v := range p.vs {
		p.verify(v, fmt.Sprintf("s%d at the end", i))
	}
	if hits > 0 {
		t.NonTrivial()
	}
}

func disturbInts(t *pbt.T, d disturber) {
	anyInt(t, func(t *pbt.T) { disturbIntRun[int](t, d) }, func(t *pbt.T) { disturbIntRun[int8](t, d) }, func(t *pbt.T) { disturbIntRun[uint64](t, d) })
}

// c29Lazy: lazy sets whose predicates, mappers and elements fail.
func disturbLazy(t *pbt.T, disturb disturber) {
	p := newLPool(t)
	t.Loop(2, 7, 14, func(int) { p.step() })
	hits := 0
	t.Loop(1, 5, 12, func(int) {
		n, i := p.pick()
		o, j := p.pick()
		x := t.U64()
		v := p.value(n.m)
		s := n.s
		if t.Bool() {
			s = n.fresh()
		}
		what := fmt.Sprintf("action %d on s%d and s%d", x%10, i, j)
		keys := func(s lazy.Set) string { return strings.Join(rangeKeys(s.Range()), " ") }
		lazyAct := func(s, o lazy.Set, x uint64) string {
			switch x % 10 {
			case 0:
				return fmt.Sprint(s.Count(), s.IsEmpty())
			case 1:
				return keys(s)
			case 2:
				return fmt.Sprint(s.Has(v.make(x >> 30)))
			case 3:
				return keys(s.Freeze())
			case 4:
				return fmt.Sprint(s.Equal(o), o.EqualSet(s))
			case 5:
				return fmt.Sprint(s.IsSubsetOf(o), o.IsSubsetOf(s))
			case 6:
				return fmt.Sprint(s.Hash(uintptr(x >> 40)))
			case 7:
				return fmt.Sprint(s.CountUpTo(int(x >> 30 % 7)))
			case 8:
				return keys(s.Where(func(e any) bool { univ.Tick(); return strHash(keyOf(e))%2 == 0 }).Map(func(e any) any {
					univ.Tick()
					return int(strHash(keyOf(e)) % 3)
				}))
			default:
				return keys(s.Union(o).Difference(s.Intersection(o)).With(v.make(x >> 30)))
			}
		}
		if disturb(t, what, func() string { return lazyAct(s, o.s, x) }, func(x uint64) string {
			y := x >> 48
			return lazyAct(p.nodes[int(y)%len(p.nodes)].s, p.nodes[int(y>>8)%len(p.nodes)].s, x)
		}) {
			hits++
		}
		p.observe(s, n, int(x>>20%observations), x>>50)
		p.rangeAll(s.Range(), n.m, what+": an operand's Range()")
		p.rangeAll(o.s.Range(), o.m, what+": the other operand's Range()")
	})
	for _, n := range p.nodes {
		p.observe(n.s, n, 0, 0)
		p.observe(n.s, n, 2, 0)
		p.observe(n.s, n, 4, 0)
	}
	if hits > 0 && p.max > 1 {
		t.NonTrivial()
	}
}

// c29Rel: relations over values that fail.
func disturbRel(t *pbt.T, disturb disturber) {
	g := newRelGen(t, relAttrs)
	for _, a := range relAttrs {
		for i := range g.vals[a] {
			i := i
			g.vals[a][i] = nv[any]{fmt.Sprint("ElS", i), func(salt uint64) any {
				return univ.ElS{ID: i, H: uint64(i % 2), Tag: int(salt % 3)}
			}}
		}
	}
	ms := make([]rrel, 3)
	rs := make([]rel.Relation, 3)
	for i := range ms {
		h := g.header(relAttrs[:4])
		if i == 0 || len(h) == 0 {
			h = relAttrs[:3]
		}
		ms[i] = g.rel(h, 5, 14)
		rs[i] = ms[i].real(t.Draw(64))
	}
	nested := frozen.NewMap(frozen.KV("aa", frozen.NewSet("a", "b")))
	hits := 0
	t.Loop(1, 4, 8, func(int) {
		x := t.U64()
		relAct := func(x uint64) string {
			a, b := rs[x>>8%3], rs[x>>16%3]
			switch x % 7 {
			case 0:
				return canonV(rel.Join(a, b))
			case 6: // disjoint attributes
				return canonV(rel.CartesianProduct(rel.Project(a, "a"), rel.Project(b, "b", "c"))) + canonV(rel.CartesianProduct(b))
			case 1:
				return canonV(rel.Project(a, "a", "c"))
			case 2:
				return canonV(rel.Nest(rs[0], nested))
			case 3:
				return canonV(rel.Unnest(rel.Nest(rs[0], nested), "aa"))
			case 4:
				return canonV(a.Union(b)) + canonV(a.Difference(b))
			default:
				return fmt.Sprint(a.Equal(b), a.IsSubsetOf(b), a.Hash(uintptr(x>>30)))
			}
		}
		if disturb(t, fmt.Sprintf("action %d on relations %d and %d", x%7, x>>8%3, x>>16%3), func() string { return relAct(x) }, relAct) {
			hits++
		}
	})
	for i, m := range ms {
		verifyRel(t, rs[i], m, fmt.Sprintf("relation %d at the end", i))
	}
	if hits > 0 {
		t.NonTrivial()
	}
}

// badJSON fails to encode when its value is odd.
type badJSON int

var errBad = errors.New("odd")

func (b badJSON) MarshalJSON() ([]byte, error) {
	if b%2 != 0 {
		return nil, errBad
	}
	return []byte(fmt.Sprint(int(b))), nil
}

// iff checks that f panics exactly when it should, and gives the panic.
func iff(t *pbt.T, want bool, what string, f func()) {
	if r, p := pbt.Recover(f); p != want {
		t.Fatalf("%s: panics: %v (%v), want %v", what, p, r, want)
	}
}

// c29Documented: the documented panics and errors, no others.
func c29Documented(t *pbt.T) {
	u := gen.GenExtSetU(t, t.Range(64, 90))
	m := genM(t, u)
	s := build(t, u, m)
	n := m.count()
	less := func(a, b int) bool { return a < b }
	switch t.Intn(8) {
	case 0:
		iff(t, n == 0, fmt.Sprintf("Any of %d elements", n), func() { s.Any() })
		iff(t, n == 0, fmt.Sprintf("First of %d elements", n), func() { s.First(less) })
		iff(t, false, fmt.Sprintf("AnyN of %d elements", n), func() { s.AnyN(3) })
		iff(t, false, fmt.Sprintf("FirstN of %d elements", n), func() { s.FirstN(3, less) })
	case 1:
		k := t.Weighted(1, 2, 1, 1)
		var ss []univ.Set
		for i := 0; i < k; i++ {
			ss = append(ss, s)
		}
		iff(t, k == 0, fmt.Sprintf("Intersection of %d sets", k), func() { u.Intersection(ss...) })
		iff(t, false, fmt.Sprintf("Union of %d sets", k), func() { u.Union(ss...) })
	case 2:
		if n <= 63 && n > 10 {
			return
		}
		iff(t, n > 63, fmt.Sprintf("Powerset of %d elements", n), func() { s.Ext().Powerset() })
	case 3:
		a, z, d := t.Range(-5, 5), t.Range(-5, 5), t.Range(-3, 3)
		iff(t, d == 0 && a != z, fmt.Sprintf("Iota3(%d, %d, %d)", a, z, d), func() { frozen.Iota3(a, z, d) })
		iff(t, false, "Iota", func() { frozen.Iota(z); frozen.Iota2(a, z) })
	case 4:
		var kvs []frozen.KeyValue[int, int]
		t.Loop(0, 4, 12, func(int) { kvs = append(kvs, frozen.KV(t.Intn(10), 1)) })
		fm := frozen.NewMap(kvs...)
		k := t.Intn(10)
		has := false
		for _, kv := range kvs {
			has = has || kv.Key == k
		}
		iff(t, !has, fmt.Sprintf("MustGet(%d) of %v", k, kvs), func() { fm.MustGet(k) })
		iff(t, len(kvs) == 0, fmt.Sprintf("Any of %v", kvs), func() { fm.Any() })
		iff(t, false, "Get, GetElse", func() { fm.Get(k); fm.GetElse(k, 2); fm.GetElseFunc(k, func() int { return 1 }) })
		if c := fm.Count(); len(kvs) > 0 && (c == 0 || !fm.Has(kvs[0].Key)) {
			t.Fatalf("%v afterwards: Count() = %d", kvs, c)
		}
	case 5:
		h := relAttrs[:t.Range(0, 4)]
		bad := false
		var rows [][]any
		t.Loop(0, 4, 8, func(int) {
			w := len(h)
			if t.Chance(1, 5) {
				w = t.Range(0, 5)
			}
			row := make([]any, w)
			for i := range row {
				row[i] = t.Intn(3)
			}
			bad = bad || w != len(h)
			rows = append(rows, row)
		})
		iff(t, bad, fmt.Sprintf("rel.New(%v, %v)", h, rows), func() { rel.New(h, rows...) })
	case 6:
		var b frozen.SetBuilder[badJSON]
		var mb frozen.MapBuilder[string, badJSON]
		bad := false
		t.Loop(0, 3, 10, func(int) {
			v := badJSON(2 * t.Intn(9))
			if t.Chance(1, 8) {
				v++
			}
			bad = bad || v%2 != 0
			b.Add(v)
			mb.Put(fmt.Sprint(int(v)), v)
		})
		fs, fm := b.Finish(), mb.Finish()
		for what, v := range map[string]any{"set": fs, "map": fm, "slice of the set": []any{fs}} {
			_, err := json.Marshal(v)
			if (err != nil) != bad {
				t.Fatalf("encoding a %s with an element that cannot be encoded (%v): %v", what, bad, err)
			}
			if err != nil && !errors.Is(err, errBad) {
				t.Fatalf("encoding a %s: error %v, want %v", what, err, errBad)
			}
		}
		if fs.Count() != fm.Count() {
			t.Fatalf("%d elements, %d entries", fs.Count(), fm.Count())
		}
	default:
		var is frozen.IntSet[int]
		var want []int
		t.Loop(0, 2, 8, func(int) { i := t.Range(-100, 100); is = is.With(i); want = append(want, i) })
		iff(t, len(want) == 0, fmt.Sprintf("Any of the IntSet of %v", want), func() { is.Any() })
	}
	verifySet(t, s, m, "the set afterwards")
	if n > 0 {
		t.NonTrivial()
	}
}

func init() {
	register(&pbt.Prop{
		ID: "C29",
		Rule: "a case draws a history of sets, maps, IntSets, lazy sets or relations whose element types and callbacks can be made to panic, runs drawn operations once undisturbed to count the calls of " +
			"user-supplied functions, then with a panic at a drawn one of these calls, then undisturbed again, and verifies all values against their models; or exercises the documented panics; " +
			"non-trivial: at least one panic was injected and a collection has more than two elements (documented: a non-empty set)",
		Assumptions: []string{
			"builders that saw a panic are abandoned; fmt's own recovery of panics is not held against the library",
			"with several goroutines, a panic in a worker whose part does not matter any more (a comparison already decided) may go unnoticed",
		},
		Scenarios: []*pbt.Scenario{
			{Name: "sets", Quick: 30000, Fn: c29Sets},
			{Name: "maps", Quick: 20000, Fn: c29Maps},
			{Name: "big-sets", Quick: 200, Fn: big(c29Sets)},
			{Name: "builders", Quick: 15000, Fn: c29Builders},
			{Name: "intsets", Quick: 6000, Fn: c29Ints},
			{Name: "lazy", Quick: 20000, Fn: c29Lazy},
			{Name: "relations", Quick: 5000, Fn: c29Rel},
			{Name: "documented", Quick: 8000, Fn: c29Documented},
		},
		Configs: []*pbt.Config{withShare(cfgOff, 1), cfgDeep},
	})
}
