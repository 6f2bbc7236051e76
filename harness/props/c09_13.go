//go:build all || C09 || C10 || C11 || C12 || C13 || C15 || C22 || C23 || C29 || C32

package props

import (
	"fmt"

	"github.com/arr-ai/frozen"

	"vh/gen"
	"vh/pbt"
	"vh/univ"
)

func c09(t *pbt.T)       { c09Run(t, genMU(t, false, false)) }
func c09Hashed(t *pbt.T) { c09Run(t, hashedMU(t)) }

func c09Run(t *pbt.T, u univ.MapU) {
	p := newMPool(t, u)
	verifyMap(t, p.vs[0].m, p.vs[0].mm, "zero value")
	p.check = func(v mv, what string) {
		verifyMap(t, v.m, v.mm, what)
	}
	t.Loop(1, 12, 50, func(int) {
		p.step()
		v := p.vs[len(p.vs)-1]
		if t.Chance(1, 3) {
			verifyLookups(t, v.m, v.mm, "latest")
		}
	})
	if p.maxSize > 2 && len(p.vs) > 3 {
		t.NonTrivial()
	}
}

func c09Large(t *pbt.T) {
	n := 1 << uint(t.Range(12, 17))
	u := univ.Maps(univ.IntU(t, n), univ.ZeroIntU(1000), univ.MapOpts{})
	salt := t.Draw(1 << 20)
	mm := MM{}
	var kvs []univ.KV
	for i := 0; i < n; i++ {
		k, v := int(pbt.Mix(salt^uint64(i))%uint64(n)), int(pbt.Mix(salt+uint64(i)*5)%1000)
		kvs = append(kvs, univ.KV{K: univ.Ref{I: k}, V: univ.Ref{I: v}})
		mm[k] = v
	}
	m := u.New(kvs...)
	for i := 0; i < 3000; i++ {
		k, v := int(pbt.Mix(salt^uint64(i)<<9)%uint64(n)), i%1000
		if i%3 == 0 {
			m = m.Without(univ.Ref{I: k})
			delete(mm, k)
		} else {
			m = m.With(univ.Ref{I: k}, univ.Ref{I: v})
			mm[k] = v
		}
	}
	verifyMap(t, m, mm, "large map")
	other := MM{}
	kvs = kvs[:0]
	for i := 0; i < n; i += 2 {
		k, v := int(pbt.Mix(salt^uint64(i)<<3)%uint64(n)), i%997
		kvs = append(kvs, univ.KV{K: univ.Ref{I: k}, V: univ.Ref{I: v}})
		other[k] = v
	}
	o := u.New(kvs...)
	f := oriented(salt|2, 1000)
	verifyMap(t, m.Merge(o, func(k, a, b int) univ.Ref { return univ.Ref{I: f(k, a, b)} }), merge(mm, other, f), "large Merge")
	verifyMap(t, o.Merge(m, func(k, a, b int) univ.Ref { return univ.Ref{I: f(k, a, b)} }), merge(other, mm, f), "large Merge, reversed")
	verifyMap(t, m.Update(o), merge(mm, other, func(_, _, b int) int { return b }), "large Update")
	verifyMap(t, o.Update(m), merge(other, mm, func(_, _, b int) int { return b }), "large Update, reversed")
	t.NonTrivial()
}

func c10(t *pbt.T)       { c10Run(t, genMU(t, false, false)) }
func c10Hashed(t *pbt.T) { c10Run(t, hashedMU(t)) }

func c10Run(t *pbt.T, u univ.MapU) {
	am := genMM(t, u)
	a := buildMap(t, u, am)
	var bm MM
	var b univ.Map
	switch t.Weighted(4, 3, 2, 1) {
	case 0:
		bm = genMM(t, u)
		b = buildMap(t, u, bm)
	case 1: // shares structure, some keys changed
		b, bm = a, am.clone()
		t.Loop(0, 4, 16, func(int) {
			k, v := gen.GenRef(t, u.Keys()), gen.GenRef(t, u.Vals())
			if t.Bool() {
				b = b.With(k, v)
				bm[k.I] = v.I
			} else {
				b = b.Without(k)
				delete(bm, k.I)
			}
		})
	case 2: // tiny
		bm = MM{}
		t.Loop(0, 1, 3, func(int) { bm[t.Intn(u.Keys().N())] = t.Intn(u.Vals().N()) })
		b = buildMap(t, u, bm)
	case 3: // the same keys, other values
		bm = MM{}
		for k := range am {
			bm[k] = int(pbt.Mix(uint64(k)+99) % uint64(u.Vals().N()))
		}
		b = buildMap(t, u, bm)
	}
	if t.Bool() {
		a, am, b, bm = b, bm, a, am
	}
	t.Logf("a = %v\nb = %v", shortMM(am), shortMM(bm))
	common := 0
	for k := range am {
		if _, has := bm[k]; has {
			common++
		}
	}
	if common > 0 && len(am) > 1 && len(bm) > 1 {
		t.NonTrivial()
	}
	f := oriented(t.Draw(1<<10), u.Vals().N())
	var mu mutex
	calls := map[int][][2]int{}
	got := a.Merge(b, func(k, x, y int) univ.Ref {
		mu.do(func() { calls[k] = append(calls[k], [2]int{x, y}) })
		return univ.Ref{I: f(k, x, y), R: k & 1}
	})
	for k, cs := range calls {
		x, hasX := am[k]
		y, hasY := bm[k]
		if !hasX || !hasY {
			t.Fatalf("Merge: resolve called for key %d, which is not common", k)
		}
		for _, c := range cs {
			if c != [2]int{x, y} {
				t.Fatalf("Merge: resolve(%d) called with %v, want %v", k, c, [2]int{x, y})
			}
		}
	}
	verifyMap(t, got, merge(am, bm, f), "Merge")
	verifyMap(t, a.Update(b), merge(am, bm, func(_, _, y int) int { return y }), "Update")
	if u.Comparable() {
		for what, m := range map[string]univ.Map{"Merge": got, "Update": a.Update(b)} {
			want := merge(am, bm, f)
			if what == "Update" {
				want = merge(am, bm, func(_, _, y int) int { return y })
			}
			if fr := freshMap(t, u, want); !fr.Equal(m) || !m.Equal(fr) {
				t.Fatalf("%s: the result is not Equal to a map built directly from %v", what, shortMM(want))
			}
		}
	}
	// Used further.
	k, v := gen.GenRef(t, u.Keys()), gen.GenRef(t, u.Vals())
	verifyMap(t, got.With(k, v), merge(am, bm, f).with(k.I, v.I), "Merge, then With")
	verifyMap(t, got.Without(k), merge(am, bm, f).without(k.I), "Merge, then Without")
	verifyMap(t, a, am, "a afterwards")
	verifyMap(t, b, bm, "b afterwards")
}

func c11(t *pbt.T)       { c11Run(t, genMU(t, true, false)) }
func c11Hashed(t *pbt.T) { c11Run(t, hashedMU(t)) }

func c11Run(t *pbt.T, u univ.MapU) {
	p := newMPool(t, u)
	t.Loop(1, 6, 20, func(int) { p.step() })
	v := p.vs[p.pick()]
	p.add("rebuild", buildMap(t, u, v.mm), v.mm, "rebuild")
	p.add("rebuild", buildMap(t, u, v.mm), v.mm, "rebuild")
	t.Loop(1, 2, 4, func(int) {
		k, x := gen.GenRef(t, u.Keys()), gen.GenRef(t, u.Vals())
		if old, has := v.mm[k.I]; has && t.Bool() {
			p.add("near", buildMap(t, u, v.mm).Without(k), v.mm.without(k.I), "near miss without %v", k)
		} else {
			p.add("near", buildMap(t, u, v.mm).With(k, x), v.mm.with(k.I, x.I), "near miss with %v: %v (was %d)", k, x, old)
		}
		if len(v.mm) > 0 { // one key exchanged
			ks := v.mm.keys(u.Keys().N())
			k := ks[t.Intn(len(ks))]
			nk := t.Intn(u.Keys().N())
			if _, has := v.mm[nk]; !has {
				mm := v.mm.without(k).with(nk, v.mm[k])
				p.add("swap", buildMap(t, u, mm), mm, "key %d exchanged for %d", k, nk)
			}
		}
	})
	seeds := []uintptr{0, 1, uintptr(t.U64())}
	pair := func(i, j int) {
		a, b := p.vs[i], p.vs[j]
		same := a.mm.eq(b.mm)
		if got := a.m.Equal(b.m); got != same {
			t.Fatalf("m%d.Equal(m%d) = %v, want %v: %v, %v", i, j, got, same, a.mm, b.mm)
		}
		if got := a.m.SameMap(b.m); got != same {
			t.Fatalf("m%d.Same(m%d) = %v, want %v: %v, %v", i, j, got, same, a.mm, b.mm)
		}
		if same && u.Hashable() {
			for _, s := range seeds {
				if x, y := a.m.Hash(s), b.m.Hash(s); x != y {
					t.Fatalf("m%d and m%d are equal (%v) but hash to %x and %x for seed %x", i, j, a.mm, x, y, s)
				}
			}
		}
	}
	n := len(p.vs)
	for i := range p.vs {
		pair(i, i)
		pair(i, n-1)
		pair(n-1, i)
		for j := max(0, n-8); j < n; j++ {
			pair(i, j)
			pair(j, i)
		}
	}
	for _, f := range u.Foreign() {
		if p.vs[n-1].m.Same(f) || p.vs[0].m.Same(f) {
			t.Fatalf("Same(%T) = true for a map %s", f, u.Name())
		}
	}
	if p.maxSize > 2 {
		t.NonTrivial()
	}
}

func c11KV(t *pbt.T) {
	switch t.Intn(3) {
	case 0:
		kvPairs(t, univ.ElU(univ.Hashes(t, 6)), univ.ElSU(univ.Hashes(t, 6)))
	case 1:
		kvPairs(t, univ.AnyElU(univ.Hashes(t, 9)), gen.MixU(40))
	default:
		kvPairs(t, univ.FloatU(t, 8), univ.StringU(t, 8))
	}
}

func kvPairs[K, V any](t *pbt.T, ku *univ.U[K], vu *univ.U[V]) {
	g := func() (univ.KV, frozen.KeyValue[K, V]) {
		kv := univ.KV{K: univ.Ref{I: t.Intn(ku.N), R: t.Intn(3)}, V: univ.Ref{I: t.Intn(vu.N), R: t.Intn(3)}}
		return kv, frozen.KV(ku.At(kv.K), vu.At(kv.V))
	}
	ra, a := g()
	rb, b := g()
	switch t.Intn(4) {
	case 1:
		rb.K.I = ra.K.I
		b = frozen.KV(ku.At(rb.K), vu.At(rb.V))
	case 2:
		rb.V.I = ra.V.I
		b = frozen.KV(ku.At(rb.K), vu.At(rb.V))
	case 3:
		rb.K.I, rb.V.I = ra.K.I, ra.V.I
		b = frozen.KV(ku.At(rb.K), vu.At(rb.V))
	}
	same := ra.K.I == rb.K.I && ra.V.I == rb.V.I
	t.Logf("%s: %v, %v", ku.Name+":"+vu.Name, ra, rb)
	if a.Equal(b) != same || b.Equal(a) != same || a.Same(b) != same || b.Same(a) != same {
		t.Fatalf("KeyValue Equal/Same of %v and %v: %v %v, want %v", ra, rb, a.Equal(b), a.Same(b), same)
	}
	if same {
		for _, s := range []uintptr{0, uintptr(t.U64())} {
			if a.Hash(s) != b.Hash(s) {
				t.Fatalf("equal KeyValues %v and %v hash differently", ra, rb)
			}
		}
	}
	for _, f := range []any{nil, 1, a.Key, a.Value, &a, frozen.KV(1, int8(2)), frozen.NewMap(a), frozen.NewSet(a)} {
		if a.Same(f) {
			t.Fatalf("KeyValue.Same(%T) = true", f)
		}
	}
	s := frozen.NewSet(a, b)
	if want := map[bool]int{true: 1, false: 2}[same]; s.Count() != want {
		t.Fatalf("set of KeyValues %v and %v has %d elements", ra, rb, s.Count())
	}
	t.NonTrivial()
}

func c12(t *pbt.T) {
	u := genMU(t, true, true)
	c12Run(t, u)
}
func c12Hashed(t *pbt.T) { c12Run(t, hashedMU(t)) }

func c12Run(t *pbt.T, u univ.MapU) {
	mm := genMM(t, u)
	m := buildMap(t, u, mm)
	t.Logf("m = %v", shortMM(mm))
	if len(mm) > 2 {
		t.NonTrivial()
	}
	kn, vn := u.Keys().N(), u.Vals().N()
	keys, vals := newM(kn), newM(vn)
	for k, v := range mm {
		keys.put(k)
		vals.put(v)
	}
	ks := m.Keys()
	verifySet(t, ks, keys, "Keys")
	usable(t, ks, keys, "Keys")
	vs := m.Values()
	verifySet(t, vs, vals, "Values")
	usable(t, vs, vals, "Values")

	var sel []univ.Ref
	pm := MM{}
	t.Loop(0, 5, 20, func(int) {
		k := gen.GenRef(t, u.Keys())
		sel = append(sel, k)
		if v, has := mm[k.I]; has {
			pm[k.I] = v
		}
	})
	if t.Big {
		d, salt := t.Range(0, 15), t.Draw(1<<10)
		for k := 0; k < u.Keys().N(); k++ {
			if pbt.Mix(salt^uint64(k)<<9)%16 < uint64(d) {
				sel = append(sel, univ.Ref{I: k})
				if v, has := mm[k]; has {
					pm[k] = v
				}
			}
		}
	}
	chk := func(got univ.Map, want MM, what string) {
		verifyMap(t, got, want, what)
		if f := freshMap(t, u, want); !f.Equal(got) || !got.Equal(f) {
			t.Fatalf("%s: not Equal to a map built directly", what)
		}
	}
	chk(m.Project(sel...), pm, "Project")
	d, salt := t.Range(0, 16), t.Draw(1<<10)
	f := func(k, v int) bool { return pbt.Mix(salt^uint64(k)<<11^uint64(v)<<40)%16 < uint64(d) }
	calls := MM{}
	chk(m.Where(func(k, v int) bool {
		if w, has := mm[k]; !has || w != v {
			t.Fatalf("Where: predicate called with %d: %d, not an entry", k, v)
		}
		calls[k]++
		return f(k, v)
	}), mm.filter(f), "Where")
	g := oriented(t.Draw(1<<10)|2, vn)
	want := MM{}
	for k, v := range mm {
		want[k] = g(k, v, 0)
	}
	chk(m.MapMap(func(k, v int) univ.Ref { return univ.Ref{I: g(k, v, 0)} }), want, "MapMap")
	gs := m.MapMapString(func(k, v int) string { return fmt.Sprint(k, "/", v) })
	if gs != nil && len(gs) != len(mm) {
		t.Fatalf("MapMap to strings: %d entries, want %d", len(gs), len(mm))
	}
	for k, v := range mm {
		if gs != nil && gs[k] != fmt.Sprint(k, "/", v) {
			t.Fatalf("MapMap to strings: key %d has %q", k, gs[k])
		}
	}
	// NewMapFromKeys
	km := genM(t, u.Keys())
	kset := build(t, u.Keys(), km)
	want = MM{}
	km.each(func(k int) { want[k] = g(k, 1, 2) })
	ncalls := map[int]int{}
	chk(u.FromKeys(kset, func(k int) univ.Ref { ncalls[k]++; return univ.Ref{I: g(k, 1, 2)} }), want, "NewMapFromKeys")
	once(t, "NewMapFromKeys function", km, ncalls)
	// Go maps
	if u.GoMaps() {
		n, gm := m.GoMutating()
		if n != len(mm) || !MM(gm).eq(mm) {
			t.Fatalf("MapToGoMap = %v (%d entries), want %v", gm, n, mm)
		}
		if n, gm = m.Go(); n != len(mm) || !MM(gm).eq(mm) {
			t.Fatalf("MapToGoMap after its first result was changed = %v, want %v", gm, mm)
		}
		chk(u.FromGo(entries(t, u, mm)...), mm, "NewMapFromGoMap")
		t.Class("go maps")
	}
	chk(m, mm, "map afterwards")
}

func c13Set(t *pbt.T)       { c13SetRun(t, gen.GenSetU(t, gen.GenN(t))) }
func c13SetHashed(t *pbt.T) { c13SetRun(t, gen.GenHashedSetU(t, t.Range(3, 16))) }

func c13SetRun(t *pbt.T, u univ.SetU) {
	type bld struct {
		b univ.SetBuilder
		m M
	}
	var bs []bld
	var done []sv
	biggest := 0
	fin := func(i int) {
		s := bs[i].b.Finish()
		v := sv{s, bs[i].m}
		t.Logf("b%d.Finish() = %v", i, short(v.m))
		verifySet(t, s, v.m, "Finish")
		usable(t, s, v.m, "Finish")
		done = append(done, v)
		bs[i].m = newM(u.N())
		if c := bs[i].b.Count(); c != 0 {
			t.Fatalf("after Finish the builder's Count() is %d", c)
		}
		for k := 0; k < min(u.N(), 40); k++ {
			if bs[i].b.Has(univ.Ref{I: k}) {
				t.Fatalf("after Finish the builder still has %d", k)
			}
		}
	}
	t.Loop(4, 25, 120, func(n int) {
		if len(bs) == 0 || t.Weighted(20, 1) == 1 && len(bs) < 4 {
			bs = append(bs, bld{u.Builder([]int{0, 1, 2, 100, 5000}[t.Intn(5)], t.Bool()), newM(u.N())})
			t.Logf("b%d := new builder", len(bs)-1)
		}
		i := t.Intn(len(bs))
		b := &bs[i]
		switch t.Weighted(10, 6, 3, 2, 2) {
		case 0:
			r := gen.GenRef(t, u)
			t.Logf("b%d.Add(%v)", i, r)
			b.b.Add(r)
			b.m = b.m.with(r.I)
		case 1:
			r := gen.GenRef(t, u)
			t.Logf("b%d.Remove(%v)", i, r)
			b.b.Remove(r)
			b.m = b.m.without(r.I)
		case 2:
			m := genM(t, u)
			t.Logf("b%d.Add* %v", i, short(m))
			for _, r := range freshRefs(t, u, m) {
				b.b.Add(r)
			}
			b.m = b.m.or(m)
		case 3:
			m := genM(t, u)
			t.Logf("b%d.Remove* %v", i, short(m))
			for _, r := range freshRefs(t, u, m) {
				b.b.Remove(r)
			}
			b.m = b.m.minus(m)
		case 4:
			fin(i)
			return
		}
		if c := b.b.Count(); c != b.m.count() {
			t.Fatalf("builder Count() = %d, want %d %v", c, b.m.count(), b.m.list())
		}
		biggest = max(biggest, b.m.count())
		for j := 0; j < u.N() && j < 60; j++ {
			k := (n*60 + j) % u.N()
			if h := b.b.Has(univ.Ref{I: k, R: k % u.Reps()}); h != b.m.has(k) {
				t.Fatalf("builder Has(%d) = %v, want %v", k, h, b.m.has(k))
			}
		}
	})
	for i := range bs {
		fin(i)
	}
	for i, v := range done {
		verifySet(t, v.s, v.m, fmt.Sprintf("result %d, after its builder was used further", i))
		if !v.s.Equal(fresh(t, u, v.m)) {
			t.Fatalf("result %d, after its builder was used further, is not Equal to a direct build", i)
		}
	}
	if biggest > 2 && len(done) > 1 {
		t.NonTrivial()
	}
}

func c13Map(t *pbt.T)       { c13MapRun(t, genMU(t, true, false)) }
func c13MapHashed(t *pbt.T) { c13MapRun(t, hashedMU(t)) }

func c13MapRun(t *pbt.T, u univ.MapU) {
	type bld struct {
		b univ.MapBuilder
		m MM
	}
	var bs []bld
	var done []mv
	biggest := 0
	fin := func(i int) {
		m := bs[i].b.Finish()
		v := mv{m, bs[i].m}
		t.Logf("b%d.Finish() = %v", i, shortMM(v.mm))
		verifyMap(t, m, v.mm, "Finish")
		if f := freshMap(t, u, v.mm); !f.Equal(m) || !m.Equal(f) {
			t.Fatalf("Finish: not Equal to a map built directly")
		}
		done = append(done, v)
		bs[i].m = MM{}
		if c := bs[i].b.Count(); c != 0 {
			t.Fatalf("after Finish the builder's Count() is %d", c)
		}
		for k := 0; k < min(u.Keys().N(), 40); k++ {
			if bs[i].b.Has(univ.Ref{I: k}) {
				t.Fatalf("after Finish the builder still has %d", k)
			}
		}
	}
	t.Loop(4, 25, 120, func(n int) {
		if len(bs) == 0 || t.Weighted(20, 1) == 1 && len(bs) < 4 {
			bs = append(bs, bld{u.Builder([]int{0, 1, 2, 100, 5000}[t.Intn(5)], t.Bool()), MM{}})
		}
		i := t.Intn(len(bs))
		b := &bs[i]
		switch t.Weighted(12, 6, 3, 2, 2) {
		case 0:
			k, v := gen.GenRef(t, u.Keys()), gen.GenRef(t, u.Vals())
			t.Logf("b%d.Put(%v, %v)", i, k, v)
			b.b.Put(k, v)
			b.m = b.m.with(k.I, v.I)
		case 1:
			k := gen.GenRef(t, u.Keys())
			t.Logf("b%d.Remove(%v)", i, k)
			b.b.Remove(k)
			b.m = b.m.without(k.I)
		case 2:
			mm := genMM(t, u)
			t.Logf("b%d.Put* %v", i, shortMM(mm))
			c := b.m.clone()
			for _, kv := range entries(t, u, mm) {
				b.b.Put(kv.K, kv.V)
				c[kv.K.I] = kv.V.I
			}
			b.m = c
		case 3:
			mm := genMM(t, u)
			t.Logf("b%d.Remove* %v", i, mm.keys(u.Keys().N()))
			c := b.m.clone()
			for _, kv := range entries(t, u, mm) {
				b.b.Remove(kv.K)
				delete(c, kv.K.I)
			}
			b.m = c
		case 4:
			fin(i)
			return
		}
		if c := b.b.Count(); c != len(b.m) {
			t.Fatalf("builder Count() = %d, want %d %v", c, len(b.m), b.m)
		}
		biggest = max(biggest, len(b.m))
		for j := 0; j < u.Keys().N() && j < 60; j++ {
			k := (n*60 + j) % u.Keys().N()
			r := univ.Ref{I: k, R: k % u.Keys().Reps()}
			v, ok := b.b.Get(r)
			w, want := b.m[k]
			if ok != want || ok && v != w || b.b.Has(r) != want {
				t.Fatalf("builder Get(%d) = %d, %v, want %d, %v", k, v, ok, w, want)
			}
		}
	})
	for i := range bs {
		fin(i)
	}
	for i, v := range done {
		verifyMap(t, v.m, v.mm, fmt.Sprintf("result %d, after its builder was used further", i))
	}
	if biggest > 2 && len(done) > 1 {
		t.NonTrivial()
	}
}

func init() {
	register(&pbt.Prop{
		ID: "C09",
		Rule: "a case is a generated history of up to 50 map operations over a drawn key and value universe, every result compared with a Go map by all lookups; " +
			"non-trivial: at least 3 derived maps, one with at least 3 entries",
		Scenarios: []*pbt.Scenario{
			{Name: "history", Quick: 6000, Fn: c09},
			{Name: "big", Quick: 200, Fn: big(c09)},
			{Name: "hashed", Quick: 6000, Fn: c09Hashed},
			{Name: "large", Quick: 10, Thorough: 150, Fn: c09Large, Only: []string{"default"}},
		},
		Configs: []*pbt.Config{cfgDefault, withShare(cfgDeep, 0.1)},
	})
	register(&pbt.Prop{
		ID: "C10",
		Rule: "a case is a pair of maps with drawn key overlap, size ratio and sharing, merged with an asymmetric resolver in both operand orders; " +
			"non-trivial: at least one common key and two entries in each",
		Scenarios: []*pbt.Scenario{
			{Name: "pairs", Quick: 8000, Fn: c10},
			{Name: "big", Quick: 250, Fn: big(c10)},
			{Name: "pairs-hashed", Quick: 10000, Fn: c10Hashed},
			{Name: "large", Quick: 8, Thorough: 150, Fn: c09Large, Only: []string{"default"}},
		},
		Configs: []*pbt.Config{cfgDefault, cfgDeep, withShare(cfgMid, 0.1)},
	})
	register(&pbt.Prop{
		ID: "C11",
		Rule: "a case is a pool of maps from different histories with rebuilt copies and near misses (one key or one value different), compared pairwise, " +
			"or a pair of KeyValues; non-trivial: a map with at least 3 entries, or any KeyValue pair",
		Scenarios: []*pbt.Scenario{
			{Name: "pool", Quick: 5000, Fn: c11},
			{Name: "big", Quick: 150, Fn: big(c11)},
			{Name: "pool-hashed", Quick: 5000, Fn: c11Hashed},
			{Name: "keyvalue", Quick: 6000, Fn: c11KV},
		},
		Configs: []*pbt.Config{cfgDefault, withShare(cfgDeep, 0.1)},
	})
	register(&pbt.Prop{
		ID: "C12",
		Rule: "a case is a map whose Keys, Values, projections, filters, images and Go map conversions are compared exactly with a Go map; " +
			"non-trivial: at least 3 entries",
		Scenarios: []*pbt.Scenario{
			{Name: "convert", Quick: 8000, Fn: c12},
			{Name: "convert-hashed", Quick: 6000, Fn: c12Hashed},
			{Name: "big", Quick: 200, Fn: big(c12)},
		},
	})
	register(&pbt.Prop{
		ID: "C13",
		Rule: "a case is an interleaving of adds, removes, queries and finishes over up to four builders, with all finished collections checked again at the end; " +
			"non-trivial: at least two finished collections and at some point 3 elements",
		Scenarios: []*pbt.Scenario{
			{Name: "sets", Quick: 3000, Fn: c13Set},
			{Name: "sets-hashed", Quick: 5000, Fn: c13SetHashed},
			{Name: "maps", Quick: 3000, Fn: c13Map},
			{Name: "maps-hashed", Quick: 5000, Fn: c13MapHashed},
			{Name: "big-sets", Quick: 150, Fn: big(c13Set)},
			{Name: "big-maps", Quick: 150, Fn: big(c13Map)},
		},
	})
}
