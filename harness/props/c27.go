//go:build all || C27

package props

import (
	"math/bits"
	"runtime"
	"time"

	"github.com/arr-ai/frozen"

	"vh/pbt"
)

// allocated gives the bytes that f allocates.
func allocated(f func()) int {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return int(b.TotalAlloc - a.TotalAlloc)
}

// Bounds. A lookup in a tree of fan-out 8 descends log8(n) levels, which may
// each cost a hash or two.
func callBound(n int) int { return 8 + 2*bits.Len(uint(n)) }
func byteBound(n int) int { return 3072 + 512*bits.Len(uint(n)) }
func bulkBound(n int) int { return (n + 16) * (6 + bits.Len(uint(n))) }

// quick reports a walk over the collection that neither calls the elements nor
// allocates: in many tries, even the fastest takes far longer than the
// operation's few microseconds on collections this large. Only for at least
// 200000 elements, of which a walk takes over a millisecond.
func quick(t *pbt.T, what string, n int, f func()) {
	best := time.Hour
	for i := 0; i < 200 && best > slow; i++ {
		if i > 20 {
			time.Sleep(time.Millisecond) // let a busy machine get over it
		}
		start := time.Now()
		f()
		if d := time.Since(start); d < best {
			best = d
		}
	}
	if best > slow {
		t.Fatalf("%s on %d elements takes %v at best, bound %v", what, n, best, slow)
	}
}

const slow = 400 * time.Microsecond

type cntGen struct {
	salt uint64
	n    int
}

func (g cntGen) at(i int) cnt { return cnt{uint64(i), pbt.Mix(g.salt ^ uint64(i)*0x9e3779b97f4a7c15)} }

func genCnt(t *pbt.T) cntGen {
	n := 0
	switch t.Weighted(2, 3, 3, 2) {
	case 0:
		n = t.Range(1, 100)
	case 1:
		n = t.Range(100, 2000)
	case 2:
		n = t.Range(2000, 20000)
	default:
		n = t.Range(20000, 100000)
	}
	if t.Intn(4) == 0 { // sizes at which something might be reorganised
		n = 1<<uint(bits.Len(uint(n))) + t.Intn(3) - 1
	}
	return cntGen{t.Draw(1 << 20), n}
}

func within(t *pbt.T, what string, n int, f func()) {
	if h, e := cost(f); h > callBound(n) || e > callBound(n) {
		t.Fatalf("%s on %d elements: %d Hash and %d Equal calls, bound %d", what, n, h, e, callBound(n))
	}
}

func withinBytes(t *pbt.T, what string, n, times int, f func()) {
	f() // once to warm up
	if b := allocated(func() {
		for i := 0; i < times; i++ {
			f()
		}
	}); b > times*byteBound(n) {
		t.Fatalf("%s on %d elements allocates %d bytes each time, bound %d", what, n, b/times, byteBound(n))
	}
}

func c27Sets(t *pbt.T) {
	g := genCnt(t)
	n := g.n
	var s frozen.Set[cnt]
	vs := make([]cnt, n)
	for i := range vs {
		vs[i] = g.at(i)
	}
	var h, e int
	switch t.Intn(3) {
	case 0:
		h, e = cost(func() { s = frozen.NewSet(vs...) })
	case 1:
		h, e = cost(func() {
			var b frozen.SetBuilder[cnt]
			for _, v := range vs {
				b.Add(v)
			}
			s = b.Finish()
		})
	default:
		h, e = cost(func() {
			for _, v := range vs {
				s = s.With(v)
			}
		})
	}
	if h > bulkBound(n) || e > bulkBound(n) {
		t.Fatalf("building a set of %d elements: %d Hash and %d Equal calls, bound %d", n, h, e, bulkBound(n))
	}
	t.Loop(1, 4, 12, func(int) {
		x := g.at(t.Intn(n + n/8 + 1))
		in := x.id < uint64(n)
		within(t, "Has", n, func() { in = s.Has(x) == in })
		if !in {
			t.Fatalf("Has(%d) of %d elements is wrong", x.id, n)
		}
		within(t, "With", n, func() { s.With(x) })
		within(t, "Without", n, func() { s.Without(x) })
		withinBytes(t, "Has", n, 4, func() { s.Has(x) })
		withinBytes(t, "With", n, 4, func() { s.With(x) })
		withinBytes(t, "Without", n, 4, func() { s.Without(x) })
	})
	// Work on a value that went through updates.
	w := s
	t.Loop(0, 3, 10, func(int) {
		x := g.at(t.Intn(n + n/8 + 1))
		within(t, "With after updates", n+20, func() { w = w.With(x) })
		y := g.at(t.Intn(n))
		within(t, "Without after updates", n+20, func() { w = w.Without(y) })
	})
	// Many versions alive at once share their structure.
	if n >= 1000 {
		versions := make([]frozen.Set[cnt], 0, 64)
		k := t.Intn(n)
		b := allocated(func() {
			v := s
			for i := 0; i < 64; i++ {
				v = v.With(g.at(n + i)).Without(g.at((k + i*37) % n))
				versions = append(versions, v)
			}
		})
		if b > 128*byteBound(n) {
			t.Fatalf("64 versions of a set of %d elements take %d bytes", n, b)
		}
		for i, v := range versions {
			if v.Count() > n+i+1 {
				t.Fatalf("version %d has %d elements", i, v.Count())
			}
		}
		t.NonTrivial()
	}
}

func c27Maps(t *pbt.T) {
	g := genCnt(t)
	n := g.n
	var m frozen.Map[cnt, int]
	var h, e int
	switch t.Intn(3) {
	case 0:
		kvs := make([]frozen.KeyValue[cnt, int], n)
		for i := range kvs {
			kvs[i] = frozen.KV(g.at(i), i)
		}
		h, e = cost(func() { m = frozen.NewMap(kvs...) })
	case 1:
		h, e = cost(func() {
			var b frozen.MapBuilder[cnt, int]
			for i := 0; i < n; i++ {
				b.Put(g.at(i), i)
			}
			m = b.Finish()
		})
	default:
		h, e = cost(func() {
			for i := 0; i < n; i++ {
				m = m.With(g.at(i), i)
			}
		})
	}
	if h > bulkBound(n) || e > bulkBound(n) {
		t.Fatalf("building a map of %d entries: %d Hash and %d Equal calls, bound %d", n, h, e, bulkBound(n))
	}
	t.Loop(1, 4, 12, func(int) {
		x := g.at(t.Intn(n + n/8 + 1))
		in := x.id < uint64(n)
		within(t, "Get", n, func() { _, has := m.Get(x); in = has == in })
		if !in {
			t.Fatalf("Get(%d) of %d entries is wrong", x.id, n)
		}
		within(t, "Has", n, func() { m.Has(x) })
		within(t, "With", n, func() { m.With(x, -1) })
		within(t, "Without", n, func() { m.Without(x) })
		within(t, "GetElse", n, func() { m.GetElse(x, 3) })
		withinBytes(t, "Get", n, 4, func() { m.Get(x) })
		withinBytes(t, "Has", n, 4, func() { m.Has(x) })
		withinBytes(t, "With", n, 4, func() { m.With(x, -1) })
		withinBytes(t, "Without", n, 4, func() { m.Without(x) })
	})
	if n >= 1000 {
		versions := make([]frozen.Map[cnt, int], 0, 64)
		k := t.Intn(n)
		b := allocated(func() {
			v := m
			for i := 0; i < 64; i++ {
				v = v.With(g.at((k+i*11)%n), -i).Without(g.at((k + i*37) % n))
				versions = append(versions, v)
			}
		})
		if b > 128*byteBound(n) {
			t.Fatalf("64 versions of a map of %d entries take %d bytes", n, b)
		}
		runtime.KeepAlive(versions)
		t.NonTrivial()
	}
}

// c27Bulk: operations on whole collections.
func c27Bulk(t *pbt.T) {
	g := genCnt(t)
	n := g.n
	lo, hi := t.Intn(n+1), t.Intn(n+1)
	var as, bs []cnt
	for i := 0; i < n; i++ {
		if i < hi {
			as = append(as, g.at(i))
		}
		if i >= lo {
			bs = append(bs, g.at(i))
		}
	}
	a, b := frozen.NewSet(as...), frozen.NewSet(bs...)
	common := 0
	if hi > lo {
		common = hi - lo
	}
	chk := func(what string, want int, f func() int) {
		got := 0
		h, e := cost(func() { got = f() })
		if h > bulkBound(2*n) || e > bulkBound(2*n) {
			t.Fatalf("%s of %d and %d elements: %d Hash and %d Equal calls, bound %d", what, len(as), len(bs), h, e, bulkBound(2*n))
		}
		if got != want {
			t.Fatalf("%s of %d and %d elements: %d, want %d", what, len(as), len(bs), got, want)
		}
	}
	one := func(b bool) int {
		if b {
			return 1
		}
		return 0
	}
	t.Loop(2, 4, 8, func(int) {
		switch t.Intn(13) {
		case 0:
			chk("Union", len(as)+len(bs)-common, func() int { return a.Union(b).Count() })
		case 1:
			chk("Intersection", common, func() int { return a.Intersection(b).Count() })
		case 2:
			chk("Difference", len(as)-common, func() int { return a.Difference(b).Count() })
		case 3:
			chk("SymmetricDifference", len(as)+len(bs)-2*common, func() int { return a.SymmetricDifference(b).Count() })
		case 4:
			chk("Equal", one(len(as) == len(bs) && common == len(as)), func() int { return one(a.Equal(b)) })
		case 5:
			chk("IsSubsetOf", one(common == len(as)), func() int { return one(a.IsSubsetOf(b)) })
		case 6:
			chk("Where", (len(as)+2)/3, func() int { return a.Where(func(c cnt) bool { return c.id%3 == 0 }).Count() })
		case 7:
			k := t.Range(1, n)
			want := k
			if len(as) < k {
				want = len(as)
			}
			chk("SetMap", want, func() int { return frozen.SetMap(a, func(c cnt) cnt { return g.at(int(c.id) % k) }).Count() })
		case 8:
			k := t.Range(1, 20)
			want := k
			if len(as) < k {
				want = len(as)
			}
			chk("SetGroupBy", want, func() int { return frozen.SetGroupBy(a, func(c cnt) int { return int(c.id) % k }).Count() })
		case 9:
			chk("n-ary Union", len(as)+len(bs)-common, func() int { return frozen.Union(a, b, a, b).Count() })
		case 10:
			chk("n-ary Intersection", common, func() int { return frozen.Intersection(a, b, a).Count() })
		case 11:
			ma := frozen.NewMapFromKeys(a, func(c cnt) int { return int(c.id) })
			mb := frozen.NewMapFromKeys(b, func(c cnt) int { return -int(c.id) })
			chk("Merge", len(as)+len(bs)-common, func() int { return ma.Merge(mb, func(_ cnt, x, y int) int { return x + y }).Count() })
			chk("Update", len(as)+len(bs)-common, func() int { return ma.Update(mb).Count() })
			chk("Keys", len(as), func() int { return ma.Keys().Count() })
			chk("Map.Where", (len(as)+1)/2, func() int { return ma.Where(func(c cnt, v int) bool { return v%2 == 0 }).Count() })
			chk("Map.Equal", 1, func() int { return one(ma.Equal(ma.Update(ma))) })
			chk("Project", common, func() int { return ma.Project(bs...).Count() })
		default:
			chk("NewMapFromKeys", len(as), func() int { return frozen.NewMapFromKeys(a, func(c cnt) int { return 1 }).Count() })
		}
	})
	if len(as) > 1000 && len(bs) > 1000 {
		t.NonTrivial()
	}
}

// c27Huge: single-element operations at the largest sizes.
func c27Huge(t *pbt.T) {
	g := cntGen{t.Draw(1 << 20), t.Range(200000, 600000)}
	n := g.n
	var b frozen.SetBuilder[cnt]
	var mb frozen.MapBuilder[cnt, int]
	for i := 0; i < n; i++ {
		b.Add(g.at(i))
		mb.Put(g.at(i), i)
	}
	s, m := b.Finish(), mb.Finish()
	t.Loop(8, 20, 60, func(int) {
		x := g.at(t.Intn(n + 1000))
		within(t, "Has", n, func() { s.Has(x) })
		within(t, "With", n, func() { s.With(x) })
		within(t, "Without", n, func() { s.Without(x) })
		within(t, "Map.Get", n, func() { m.Get(x) })
		within(t, "Map.With", n, func() { m.With(x, 1) })
		within(t, "Map.Without", n, func() { m.Without(x) })
		withinBytes(t, "Has", n, 2, func() { s.Has(x) })
		withinBytes(t, "With", n, 2, func() { s.With(x) })
		withinBytes(t, "Without", n, 2, func() { s.Without(x) })
		withinBytes(t, "Map.Get", n, 2, func() { m.Get(x) })
		withinBytes(t, "Map.With", n, 2, func() { m.With(x, 1) })
		withinBytes(t, "Map.Without", n, 2, func() { m.Without(x) })
		withinBytes(t, "Any", n, 2, func() { s.Any() })
		withinBytes(t, "Map.Any", n, 2, func() { m.Any() })
	})
	x, y := g.at(t.Intn(n)), g.at(n+t.Intn(1000))
	t.Logf("%d elements, timing %d and %d", n, x.id, y.id)
	for _, v := range []cnt{x, y} {
		v := v
		quick(t, "Has", n, func() { s.Has(v) })
		quick(t, "With", n, func() { s.With(v) })
		quick(t, "Without", n, func() { s.Without(v) })
		quick(t, "Map.Get", n, func() { m.Get(v) })
		quick(t, "Map.Has", n, func() { m.Has(v) })
		quick(t, "Map.GetElse", n, func() { m.GetElse(v, 1) })
		quick(t, "Map.With", n, func() { m.With(v, 1) })
		quick(t, "Map.Without", n, func() { m.Without(v) })
	}
	quick(t, "Any", n, func() { s.Any() })
	quick(t, "Map.Any", n, func() { m.Any() })
	quick(t, "Count", n, func() { s.Count(); s.IsEmpty() })
	quick(t, "Map.Count", n, func() { m.Count(); m.IsEmpty() })
	quick(t, "Range", n, func() { s.Range().Next() })
	quick(t, "Map.Range", n, func() { r := m.Range(); r.Next() })
	t.NonTrivial()
}

// c27Ints: single-element operations on an IntSet.
func c27Ints(t *pbt.T) {
	n := t.Range(1, 200000)
	step := 1 + t.Intn(3)*31 // dense or one or two to a cell
	is := make([]int, n)
	for i := range is {
		is[i] = (i - n/2) * step
	}
	s := frozen.NewIntSet(is...)
	t.Loop(2, 6, 20, func(int) {
		x := (t.Intn(n+10) - n/2) * step
		x += t.Intn(2)
		withinBytes(t, "IntSet.Has", n, 4, func() { s.Has(x) })
		withinBytes(t, "IntSet.With", n, 4, func() { s.With(x) })
		withinBytes(t, "IntSet.Without", n, 4, func() { s.Without(x) })
	})
	if n >= 1000 {
		t.NonTrivial()
	}
}

// c27Builders: single-element operations on builders under construction.
func c27Builders(t *pbt.T) {
	g := genCnt(t)
	n := g.n
	var b frozen.SetBuilder[cnt]
	var mb frozen.MapBuilder[cnt, int]
	h, e := cost(func() {
		for i := 0; i < n; i++ {
			b.Add(g.at(i))
			mb.Put(g.at(i), i)
		}
	})
	if h > 2*bulkBound(n) || e > 2*bulkBound(n) {
		t.Fatalf("building a set and a map of %d elements: %d Hash and %d Equal calls, bound %d", n, h, e, 2*bulkBound(n))
	}
	t.Loop(4, 10, 40, func(int) {
		x := g.at(t.Intn(n + n/8 + 1))
		within(t, "SetBuilder.Has", n, func() { b.Has(x) })
		within(t, "MapBuilder.Get", n, func() { mb.Get(x) })
		withinBytes(t, "SetBuilder.Has", n, 4, func() { b.Has(x) })
		withinBytes(t, "MapBuilder.Has", n, 4, func() { mb.Has(x) })
		if t.Bool() {
			within(t, "SetBuilder.Add", n+40, func() { b.Add(x) })
			within(t, "MapBuilder.Put", n+40, func() { mb.Put(x, 1) })
			withinBytes(t, "SetBuilder.Add", n+40, 1, func() { b.Add(x) })
			withinBytes(t, "MapBuilder.Put", n+40, 1, func() { mb.Put(x, 1) })
		} else {
			within(t, "SetBuilder.Remove", n+40, func() { b.Remove(x) })
			within(t, "MapBuilder.Remove", n+40, func() { mb.Remove(x) })
			withinBytes(t, "SetBuilder.Remove", n+40, 1, func() { b.Remove(x) })
			withinBytes(t, "MapBuilder.Remove", n+40, 1, func() { mb.Remove(x) })
		}
	})
	c, mc := b.Count(), mb.Count()
	withinBytes(t, "Finish", n, 1, func() {
		if s := b.Finish(); s.Count() != c && s.Count() != 0 {
			t.Fatalf("finished set has %d elements, want %d", s.Count(), c)
		}
		if m := mb.Finish(); m.Count() != mc && m.Count() != 0 {
			t.Fatalf("finished map has %d entries, want %d", m.Count(), mc)
		}
	})
	if n >= 1000 {
		t.NonTrivial()
	}
}

func init() {
	register(&pbt.Prop{
		ID: "C27",
		Rule: "a case builds a set or map of 1 to 600,000 well-hashed elements along a drawn path, and counts the Hash and Equal calls and the bytes allocated (and, on the largest, the time taken) by single-element operations on drawn " +
			"present and absent elements, by chains of updates keeping all versions, or by operations on whole collections, against bounds several times what the structure needs; " +
			"non-trivial: at least 1000 elements",
		Assumptions: []string{
			"bounds: single operations 8+2*log2(n) Hash or Equal calls and 3072+512*log2(n) bytes; whole collections (n+16)*(6+log2(n)) calls; 400 microseconds at best of up to 200 tries; the actual maxima are about 4, 3 and 2 calls, under 2000 bytes, and 2.3 calls per element",
		},
		Scenarios: []*pbt.Scenario{
			{Name: "sets", Quick: 400, Fn: c27Sets},
			{Name: "maps", Quick: 400, Fn: c27Maps},
			{Name: "bulk", Quick: 400, Fn: c27Bulk},
			{Name: "intsets", Quick: 200, Fn: c27Ints},
			{Name: "builders", Quick: 300, Fn: c27Builders},
			{Name: "huge", Quick: 16, Thorough: 200, Fn: c27Huge},
		},
		Configs: []*pbt.Config{withShare(cfgOff, 1)},
	})
}
