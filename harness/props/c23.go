//go:build all || C23

package props

import (
	"fmt"
	"runtime"
	"time"

	"github.com/arr-ai/frozen"

	"vh/gen"
	"vh/pbt"
	"vh/univ"
)

// The same cases run in every configuration; the models say what sequential
// evaluation gives.

func c23N(t *pbt.T) int {
	switch t.Weighted(3, 3, 2, 1) {
	case 0:
		return t.Range(3, 30)
	case 1:
		return t.Range(20, 120)
	case 2:
		return t.Range(100, 400)
	default:
		return t.Range(400, 1500)
	}
}

func c23Sets(t *pbt.T)    { c02Run(t, gen.GenSetU(t, c23N(t))) }
func c23Algebra(t *pbt.T) { c03Run(t, gen.GenSetU(t, c23N(t))) }
func c23Equal(t *pbt.T)   { c04Run(t, gen.GenSetU(t, gen.GenN(t))) }
func c23Each(t *pbt.T)    { c05Run(t, gen.GenSetU(t, c23N(t))) }
func c23Hashed(t *pbt.T) {
	u := gen.GenHashedSetU(t, t.Range(8, 60))
	switch t.Intn(3) {
	case 0:
		c03Run(t, u)
	case 1:
		c04Run(t, u)
	default:
		c05Run(t, u)
	}
}

func c23Maps(t *pbt.T) {
	u := hashedMU(t)
	if t.Bool() {
		u = genMU(t, true, true)
	}
	switch t.Intn(3) {
	case 0:
		c09Run(t, u)
	case 1:
		c10Run(t, u)
	default:
		c11Run(t, u)
	}
}

// c23Again repeats one operation and expects the same result every time.
func c23Again(t *pbt.T) {
	u := gen.GenHashedSetU(t, c23N(t))
	a, b := genPair(t, u)
	salt := t.Draw(1 << 16)
	pred := func(i int) bool { return pbt.Mix(salt^uint64(i))%3 > 0 }
	op := t.Intn(9)
	act := func() string {
		switch op {
		case 0:
			return fmt.Sprint(asM(t, u.N(), a.s.Union(b.s).Elements(), "Union").list())
		case 1:
			return fmt.Sprint(asM(t, u.N(), a.s.Intersection(b.s).Elements(), "Intersection").list())
		case 2:
			return fmt.Sprint(asM(t, u.N(), a.s.Difference(b.s).Elements(), "Difference").list())
		case 3:
			return fmt.Sprint(asM(t, u.N(), a.s.SymmetricDifference(b.s).Elements(), "SymmetricDifference").list())
		case 4:
			return fmt.Sprint(a.s.Equal(b.s), b.s.Equal(a.s), a.s.SameSet(b.s))
		case 5:
			return fmt.Sprint(a.s.IsSubsetOf(b.s), b.s.IsSubsetOf(a.s))
		case 6:
			return fmt.Sprint(asM(t, u.N(), a.s.Where(pred).Elements(), "Where").list())
		case 7:
			c := a.s.Union(b.s)
			return fmt.Sprint(c.Hash(7), c.Count())
		default:
			c := a.s.SymmetricDifference(b.s).Union(a.s.Intersection(b.s))
			return fmt.Sprint(c.Count(), c.Equal(a.s.Union(b.s)))
		}
	}
	first := act()
	for i := 0; i < 6; i++ {
		if again := act(); again != first {
			t.Fatalf("operation %d gives %s, later %s", op, clip(first), clip(again))
		}
	}
}

type bitset []bool

func (b bitset) count() (n int) {
	for _, x := range b {
		if x {
			n++
		}
	}
	return
}

func sameInt(t *pbt.T, what string, s frozen.Set[int], want bitset) {
	n := 0
	seen := make(bitset, len(want))
	for r := s.Range(); r.Next(); n++ {
		i := r.Value()
		if i < 0 || i >= len(want) || !want[i] {
			t.Fatalf("%s: has %d, which does not belong to it", what, i)
		}
		if seen[i] {
			t.Fatalf("%s: %d appears twice", what, i)
		}
		seen[i] = true
	}
	if w := want.count(); n != w || s.Count() != w {
		t.Fatalf("%s: %d elements iterated, Count %d, want %d", what, n, s.Count(), w)
	}
	step := len(want)/997 + 1
	for i := 0; i < len(want); i += step {
		if s.Has(i) != want[i] {
			t.Fatalf("%s: Has(%d) = %v", what, i, !want[i])
		}
	}
}

// c23Large is past the size from which the library goes parallel by itself.
func c23Large(t *pbt.T) {
	n := []int{1 << 14, 1 << 17, 1 << 18, 1<<17 - 1, 300000}[t.Weighted(2, 3, 2, 1, 1)] + t.Intn(1000)
	da, db := t.Range(1, 16), t.Range(0, 16)
	sa, sb := t.Draw(1<<16), t.Draw(1<<16)
	ma, mb := make(bitset, n), make(bitset, n)
	var ba, bb frozen.SetBuilder[int]
	for i := range ma {
		ma[i] = pbt.Mix(sa^uint64(i)<<3)%16 < uint64(da)
		mb[i] = pbt.Mix(sb^uint64(i)<<3)%16 < uint64(db)
		if ma[i] {
			ba.Add(i)
		}
		if mb[i] {
			bb.Add(i)
		}
	}
	a, b := ba.Finish(), bb.Finish()
	if t.Chance(1, 3) { // b shares most of a
		b, mb = a, append(bitset(nil), ma...)
		t.Loop(0, 5, 30, func(int) {
			i := t.Intn(n)
			if t.Bool() {
				b, mb[i] = b.With(i), true
			} else {
				b, mb[i] = b.Without(i), false
			}
		})
		t.Class("large:shared")
	}
	t.NonTrivial()
	t.Logf("sets of %d and %d of %d ints", ma.count(), mb.count(), n)
	zip := func(f func(x, y bool) bool) bitset {
		r := make(bitset, n)
		for i := range r {
			r[i] = f(ma[i], mb[i])
		}
		return r
	}
	same, sub, bus := true, true, true
	for i := range ma {
		same = same && ma[i] == mb[i]
		sub = sub && (!ma[i] || mb[i])
		bus = bus && (!mb[i] || ma[i])
	}
	for i := 0; i < 3; i++ {
		switch k := t.Intn(9); k {
		case 0:
			sameInt(t, "Union", a.Union(b), zip(func(x, y bool) bool { return x || y }))
		case 1:
			sameInt(t, "Intersection", a.Intersection(b), zip(func(x, y bool) bool { return x && y }))
		case 2:
			sameInt(t, "Difference", a.Difference(b), zip(func(x, y bool) bool { return x && !y }))
		case 3:
			sameInt(t, "SymmetricDifference", a.SymmetricDifference(b), zip(func(x, y bool) bool { return x != y }))
		case 4:
			if a.Equal(b) != same || b.Equal(a) != same {
				t.Fatalf("Equal = %v, %v, want %v", a.Equal(b), b.Equal(a), same)
			}
			var c frozen.SetBuilder[int]
			for i := n - 1; i >= 0; i-- {
				if ma[i] {
					c.Add(i)
				}
			}
			d := c.Finish()
			if !a.Equal(d) || !d.Equal(a) || a.Hash(3) != d.Hash(3) {
				t.Fatalf("equal sets of %d ints: Equal = %v, %v", a.Count(), a.Equal(d), d.Equal(a))
			}
		case 5:
			if a.IsSubsetOf(b) != sub || b.IsSubsetOf(a) != bus {
				t.Fatalf("IsSubsetOf = %v, %v, want %v, %v", a.IsSubsetOf(b), b.IsSubsetOf(a), sub, bus)
			}
			w := a.Where(func(i int) bool { return i%3 > 0 })
			if !w.IsSubsetOf(a) || !a.Intersection(b).IsSubsetOf(b) {
				t.Fatalf("IsSubsetOf is false for a subset")
			}
		case 6:
			w := zip(func(x, y bool) bool { return x })
			for i := range w {
				w[i] = w[i] && pbt.Mix(sb^uint64(i))%3 > 0
			}
			sameInt(t, "Where", a.Where(func(i int) bool { return pbt.Mix(sb^uint64(i))%3 > 0 }), w)
		case 7:
			want, has := 0, false
			for i, x := range ma {
				if x {
					want, has = want+i, true
				}
			}
			got, ok := a.Reduce2(func(x, y int) int { return x + y })
			if ok != has || ok && got != want {
				t.Fatalf("Reduce2 = %d, %v, want %d, %v", got, ok, want, has)
			}
			got, ok = a.Reduce(func(xs ...int) int {
				s := 0
				for _, x := range xs {
					s += x
				}
				return s
			})
			if ok != has || ok && got != want {
				t.Fatalf("Reduce = %d, %v, want %d, %v", got, ok, want, has)
			}
		default:
			k := t.Range(1, n)
			w := make(bitset, k)
			for i, x := range ma {
				if x {
					w[i%k] = true
				}
			}
			sameInt(t, "SetMap", frozen.SetMap(a, func(i int) int { return i % k }), w)
		}
	}
	sameInt(t, "operand a afterwards", a, ma)
	sameInt(t, "operand b afterwards", b, mb)
}

func c23LargeMaps(t *pbt.T) {
	n := []int{1 << 14, 1 << 17, 1 << 18}[t.Weighted(2, 3, 1)] + t.Intn(1000)
	sa, sb := t.Draw(1<<16), t.Draw(1<<16)
	da, db := t.Range(1, 16), t.Range(0, 16)
	ma, mb := map[int]int{}, map[int]int{}
	var ba, bb frozen.MapBuilder[int, int]
	for i := 0; i < n; i++ {
		if pbt.Mix(sa^uint64(i)<<3)%16 < uint64(da) {
			ma[i] = i * 3
			ba.Put(i, i*3)
		}
		if pbt.Mix(sb^uint64(i)<<3)%16 < uint64(db) {
			mb[i] = i * 5
			bb.Put(i, i*5)
		}
	}
	a, b := ba.Finish(), bb.Finish()
	t.NonTrivial()
	chk := func(what string, m frozen.Map[int, int], want map[int]int) {
		c := 0
		for r := m.Range(); r.Next(); c++ {
			if v, has := want[r.Key()]; !has || v != r.Value() {
				t.Fatalf("%s: has %d: %d; want %d, %v", what, r.Key(), r.Value(), v, has)
			}
		}
		if c != len(want) || m.Count() != len(want) {
			t.Fatalf("%s: %d entries iterated, Count %d, want %d", what, c, m.Count(), len(want))
		}
		k := 0
		for i := range want {
			if v, has := m.Get(i); !has || v != want[i] {
				t.Fatalf("%s: Get(%d) = %d, %v", what, i, v, has)
			}
			if k++; k > 500 {
				break
			}
		}
	}
	want := map[int]int{}
	switch t.Intn(5) {
	case 0:
		for k, v := range ma {
			want[k] = v
		}
		for k, v := range mb {
			if w, has := ma[k]; has {
				v = w*7 - v + k
			}
			want[k] = v
		}
		chk("Merge", a.Merge(b, func(k, x, y int) int { return x*7 - y + k }), want)
	case 1:
		for k, v := range ma {
			want[k] = v
		}
		for k, v := range mb {
			want[k] = v
		}
		chk("Update", a.Update(b), want)
	case 2:
		for k, v := range ma {
			if (k^v)%3 > 0 {
				want[k] = v
			}
		}
		chk("Where", a.Where(func(k, v int) bool { return (k^v)%3 > 0 }), want)
	case 3:
		for k, v := range ma {
			want[k] = k - v
		}
		chk("MapMap", frozen.MapMap(a, func(k, v int) int { return k - v }), want)
	default:
		same := len(ma) == len(mb)
		for k, v := range ma {
			w, has := mb[k]
			same = same && has && v == w
		}
		if a.Equal(b) != same || b.Equal(a) != same {
			t.Fatalf("Equal = %v, %v, want %v", a.Equal(b), b.Equal(a), same)
		}
		c := frozen.NewMapFromGoMap(ma)
		if !a.Equal(c) || !c.Equal(a) || a.Hash(1) != c.Hash(1) {
			t.Fatalf("equal maps of %d entries: Equal = %v, %v", len(ma), a.Equal(c), c.Equal(a))
		}
		if len(ma) > 0 {
			k, v := a.Any()
			d := c.With(k, v+1)
			if a.Equal(d) || d.Equal(a) {
				t.Fatalf("maps that differ in one value are Equal")
			}
			if d = c.Without(k); a.Equal(d) || d.Equal(a) {
				t.Fatalf("maps that differ in one key are Equal")
			}
		}
	}
	chk("operand afterwards", a, ma)
	chk("operand afterwards", b, mb)
}

// c23Builders: builders are sequential, but start from and feed parallel
// operations.
func c23Builders(t *pbt.T) {
	u := univ.Sets(univ.ElU(univ.Hashes(t, c23N(t))))
	a, b := genPair(t, u)
	k := t.Range(1, 4)
	gs := map[int]M{}
	key := func(i int) int { return i * 7 % k }
	x := sv{a.s.Union(b.s), a.m.or(b.m)}
	x.m.each(func(i int) {
		if _, has := gs[key(i)]; !has {
			gs[key(i)] = newM(u.N())
		}
		gs[key(i)].put(i)
	})
	n, got := x.s.Ext().GroupByCount(key)
	if n != len(gs) {
		t.Fatalf("%d groups, want %d", n, len(gs))
	}
	for key, m := range gs {
		if s, has := got[key]; has {
			verifySet(t, s, m, fmt.Sprintf("group %d", key))
		} else {
			t.Fatalf("group %d is missing", key)
		}
	}
	verifySet(t, a.s, a.m, "a afterwards")
}

// settled gives the number of goroutines once it has stopped falling.
func settled() int {
	n := runtime.NumGoroutine()
	for i := 0; i < 100; i++ {
		time.Sleep(time.Millisecond)
		m := runtime.NumGoroutine()
		if m >= n && i >= 3 {
			break
		}
		n = min(n, m)
	}
	return n
}

// c23Settles: whatever goroutines an operation starts end, also if its result
// is known before they are done, or one of them panics.
func c23Settles(t *pbt.T) {
	n := t.Range(3, 3000)
	salt, group := t.Draw(1<<20), []int{1, 1, 2, 50}[t.Intn(4)]
	el := func(i, _ int) univ.ElC {
		return univ.ElC{ID: i, H: pbt.Mix(salt ^ uint64(i/group))}
	}
	build := func(from, to, tag int) frozen.Set[univ.ElC] {
		var b frozen.SetBuilder[univ.ElC]
		for i := from; i < to; i++ {
			b.Add(el(i, tag))
		}
		return b.Finish()
	}
	a := build(0, n, 0)
	k := t.Intn(n)
	other := build(1, n+1, 1)
	if t.Bool() { // differs in one element only
		other = build(0, n, 1).Without(el(k, 0)).With(el(n, 0))
	}
	m := frozen.NewMapFromKeys(a, func(e univ.ElC) int { return e.ID })
	m2 := m.With(el(k, 0), -1)
	if n > 50 {
		t.NonTrivial()
	}
	base := settled()
	ops := t.Range(3, 12)
	var did []int
	for i := 0; i < ops; i++ {
		op := t.Intn(10)
		did = append(did, op)
		func() {
			defer func() {
				if r := recover(); r != nil && r != any("c23") {
					panic(r)
				}
			}()
			var is, want bool
			switch op {
			case 0:
				is = a.Equal(other)
			case 1:
				is = a.IsSubsetOf(other)
			case 2:
				is = other.IsSubsetOf(a)
			case 3:
				is = m.Equal(m2)
			case 4:
				is, want = a.Equal(build(0, n, 2)), true
			case 5:
				a.Where(func(e univ.ElC) bool {
					if e.ID == k {
						panic("c23")
					}
					return e.ID%2 == 0
				})
			case 6:
				a.Reduce(func(es ...univ.ElC) univ.ElC {
					if len(es) == 2 {
						panic("c23")
					}
					return es[0]
				})
			case 7:
				m.Merge(m2, func(e univ.ElC, x, y int) int {
					if e.ID == k {
						panic("c23")
					}
					return x
				})
			case 8:
				a.Union(other)
				a.Difference(other)
			default:
				a.Intersection(other)
			}
			if is != want {
				t.Fatalf("operation %d gives %t", op, is)
			}
		}()
	}
	t.Logf("operations %v on sets of %d", did, n)
	deadline := time.Now().Add(10 * time.Second)
	for now := 0; ; time.Sleep(time.Millisecond) {
		if now = runtime.NumGoroutine(); now <= base {
			return
		} else if time.Now().After(deadline) {
			t.Fatalf("operations %v on sets of %d leave goroutines behind: %d, before %d", did, n, now, base)
		}
	}
}

func init() {
	env := func(name, v string, share float64) *pbt.Config {
		return &pbt.Config{Name: name, Env: []string{"FROZEN_CONCURRENCY=" + v}, Share: share}
	}
	large := []string{"default", "off", "one-cpu", "graded", "zero", "misspelt"}
	register(&pbt.Prop{
		ID: "C23",
		Rule: "a case is a history, or a pair of sets or maps and operations on them, checked against a sequential model in processes with different concurrency settings " +
			"(never parallel, default, parallel at the top levels, depending on size, at every level, also under the race detector) and sizes around and past the built-in threshold of 2^17, or a series of operations, some of whose answers are known early or whose callbacks panic, after which the number of goroutines must fall back to what it was; " +
			"non-trivial: operands of at least 2 elements, or at least 2^14 ones",
		Assumptions: []string{"callbacks are safe for concurrent use, as the library may call them from several goroutines"},
		Scenarios: []*pbt.Scenario{
			{Name: "sets", Quick: 800, Fn: c23Sets},
			{Name: "algebra", Quick: 2000, Fn: c23Algebra},
			{Name: "equal", Quick: 1200, Fn: c23Equal},
			{Name: "each", Quick: 1500, Fn: c23Each},
			{Name: "hashed", Quick: 3000, Fn: c23Hashed},
			{Name: "maps", Quick: 2500, Fn: c23Maps},
			{Name: "again", Quick: 1500, Fn: c23Again},
			{Name: "groups", Quick: 800, Fn: c23Builders},
			{Name: "settles", Quick: 400, Fn: c23Settles},
			{Name: "large", Quick: 24, Thorough: 300, Fn: c23Large, Only: large},
			{Name: "large-maps", Quick: 12, Thorough: 150, Fn: c23LargeMaps, Only: large},
			{Name: "large-race", Quick: 8, Thorough: 60, Fn: c23Large, Only: []string{"race"}},
			{Name: "large-maps-race", Quick: 4, Thorough: 30, Fn: c23LargeMaps, Only: []string{"race"}},
		},
		Configs: []*pbt.Config{
			withShare(cfgDeep, 0.5), withShare(cfgMid, 0.3), withShare(cfgGrad, 0.5), withShare(cfgDefault, 0.1),
			withShare(cfgOff, 0.1), withShare(cfgOne, 0.1), withShare(cfgRace, 0.1), withShare(cfgRaceSeq, 0.02),
			env("zero", "0", 0.05), env("misspelt", "none", 0.05),
		},
	})
}
