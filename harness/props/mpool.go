package props

import (
	"fmt"

	"vh/gen"
	"vh/pbt"
	"vh/univ"
)

// MM is the reference model of a map: value index by key index.
type MM map[int]int

func (m MM) clone() MM {
	c := make(MM, len(m))
	for k, v := range m {
		c[k] = v
	}
	return c
}
func (m MM) with(k, v int) MM { c := m.clone(); c[k] = v; return c }
func (m MM) without(k int) MM { c := m.clone(); delete(c, k); return c }
func (m MM) eq(o MM) bool {
	if len(m) != len(o) {
		return false
	}
	for k, v := range m {
		if w, has := o[k]; !has || v != w {
			return false
		}
	}
	return true
}

func (m MM) filter(f func(k, v int) bool) MM {
	c := MM{}
	for k, v := range m {
		if f(k, v) {
			c[k] = v
		}
	}
	return c
}

func (m MM) keys(n int) []int {
	var ks []int
	for k := 0; k < n; k++ {
		if _, has := m[k]; has {
			ks = append(ks, k)
		}
	}
	return ks
}

func shortMM(m MM) any {
	if len(m) > 20 {
		return fmt.Sprintf("%d entries", len(m))
	}
	return map[int]int(m)
}

func rangeMM(t *pbt.T, m univ.Map, what string) MM {
	got := MM{}
	limit := m.U().Keys().N() + 5
	for r := m.Range(); r.Next(); {
		k, v := r.Key(), r.Value()
		ek, ev := r.Entry()
		if k != ek || v != ev || k != r.Key() || v != r.Value() {
			t.Fatalf("%s: iterator gives %d: %d and %d: %d for one entry", what, k, v, ek, ev)
		}
		if k < 0 || v < 0 {
			t.Fatalf("%s: iterator yields a foreign entry (%d: %d)", what, k, v)
		}
		if _, dup := got[k]; dup {
			t.Fatalf("%s: iterator yields key %d more than once", what, k)
		}
		got[k] = v
		if limit--; limit < 0 {
			t.Fatalf("%s: iteration does not end", what)
		}
	}
	return got
}

// verifyMap checks every basic observation of a map against the model.
func verifyMap(t *pbt.T, m univ.Map, mm MM, what string) {
	u := m.U()
	if c := m.Count(); c != len(mm) {
		t.Fatalf("%s: Count() = %d, want %d %v", what, c, len(mm), shortMM(mm))
	}
	if e := m.IsEmpty(); e != (len(mm) == 0) {
		t.Fatalf("%s: IsEmpty() = %v with %d entries", what, e, len(mm))
	}
	if got := rangeMM(t, m, what); !got.eq(mm) {
		t.Fatalf("%s: Range yields %v, want %v", what, got, mm)
	}
	for i := 0; i < u.Keys().N(); i++ {
		k := univ.Ref{I: i, R: i % u.Keys().Reps()}
		v, ok := m.Get(k)
		w, want := mm[i]
		if ok != want || ok && v != w {
			t.Fatalf("%s: Get(%d) = %d, %v, want %d, %v", what, i, v, ok, w, want)
		}
		if m.Has(k) != want {
			t.Fatalf("%s: Has(%d) = %v, want %v", what, i, !want, want)
		}
	}
}

// verifyLookups checks the remaining lookup functions.
func verifyLookups(t *pbt.T, m univ.Map, mm MM, what string) {
	u := m.U()
	t.Loop(1, 2, 5, func(int) {
		k, d := gen.GenRef(t, u.Keys()), gen.GenRef(t, u.Vals())
		v, has := mm[k.I]
		if has {
			if got := m.MustGet(k); got != v {
				t.Fatalf("%s: MustGet(%d) = %d, want %d", what, k.I, got, v)
			}
		} else {
			t.Panics(fmt.Sprintf("%s: MustGet(%d) of an absent key", what, k.I), func() { m.MustGet(k) })
			v = d.I
		}
		if got := m.GetElse(k, d); got != v {
			t.Fatalf("%s: GetElse(%d, %d) = %d, want %d", what, k.I, d.I, got, v)
		}
		calls := 0
		if got := m.GetElseFunc(k, func() univ.Ref { calls++; return d }); got != v {
			t.Fatalf("%s: GetElseFunc(%d, %d) = %d, want %d", what, k.I, d.I, got, v)
		}
		if has && calls != 0 || !has && calls != 1 {
			t.Fatalf("%s: GetElseFunc calls its fallback %d times, key present: %v", what, calls, has)
		}
	})
	if len(mm) > 0 {
		k, v := m.Any()
		if w, has := mm[k]; !has || v != w {
			t.Fatalf("%s: Any() = %d: %d, not an entry of %v", what, k, v, mm)
		}
	} else {
		t.Panics(what+": Any of an empty map", func() { m.Any() })
	}
}

func genMM(t *pbt.T, u univ.MapU) MM {
	mm := MM{}
	n, vn := u.Keys().N(), u.Vals().N()
	w := []int{6, 3, 1}
	if t.Big {
		w = []int{1, 6, 2}
	}
	switch t.Weighted(w...) {
	case 0:
		t.Loop(0, 5, 40, func(int) { mm[t.Intn(n)] = t.Intn(vn) })
	case 1:
		d, salt := t.Range(1, 15), t.Draw(1<<12)
		for i := 0; i < n; i++ {
			if x := pbt.Mix(salt ^ uint64(i)<<13); x%16 < uint64(d) {
				mm[i] = int(x >> 20 % uint64(vn))
			}
		}
	case 2:
		v := t.Intn(vn)
		for i := 0; i < n; i++ {
			mm[i] = v
		}
	}
	return mm
}

// entries lists the model's entries in a drawn order with drawn
// representations.
func entries(t *pbt.T, u univ.MapU, mm MM) []univ.KV {
	salt := t.Draw(256)
	var kvs []univ.KV
	for _, k := range mm.keys(u.Keys().N()) {
		x := pbt.Mix(salt + uint64(k)*31)
		kvs = append(kvs, univ.KV{
			K: univ.Ref{I: k, R: int(x % 97 % uint64(u.Keys().Reps()))},
			V: univ.Ref{I: mm[k], R: int(x >> 33 % 97 % uint64(u.Vals().Reps()))},
		})
	}
	shuffle(salt, kvs)
	return kvs
}

func freshMap(t *pbt.T, u univ.MapU, mm MM) univ.Map { return u.New(entries(t, u, mm)...) }

// buildMap makes the model's map along a drawn construction path.
func buildMap(t *pbt.T, u univ.MapU, mm MM) univ.Map {
	kvs := entries(t, u, mm)
	salt := t.Draw(64)
	rk := func(i int) univ.Ref { return univ.Ref{I: int(pbt.Mix(salt^uint64(i)*77) % uint64(u.Keys().N()))} }
	rv := func(i int) univ.Ref { return univ.Ref{I: int(pbt.Mix(salt^uint64(i)*99) % uint64(u.Vals().N()))} }
	path := t.Weighted(4, 3, 3, 2, 2, 1, 2)
	if path == 6 && !u.GoMaps() {
		path = 0
	}
	switch path {
	case 0: // with earlier, overwritten associations
		var all []univ.KV
		for i, kv := range kvs {
			if pbt.Mix(salt+uint64(i))%3 == 0 {
				all = append(all, univ.KV{K: kv.K, V: rv(i)})
			}
		}
		return u.New(append(all, kvs...)...)
	case 1:
		m := u.Zero()
		for _, kv := range kvs {
			m = m.With(kv.K, kv.V)
		}
		return m
	case 2: // builder, with detours
		b := u.Builder(t.Intn(3)*9, t.Bool())
		for i, kv := range kvs {
			if pbt.Mix(salt+uint64(i))%3 == 0 {
				b.Put(rk(i), rv(i))
			}
			if pbt.Mix(salt+uint64(i))%5 == 0 {
				b.Put(kv.K, rv(i+1))
			}
		}
		for _, kv := range kvs {
			b.Put(kv.K, kv.V)
		}
		for i := 0; i < u.Keys().N(); i++ {
			if _, has := mm[i]; !has {
				b.Remove(univ.Ref{I: i, R: i % u.Keys().Reps()})
			}
		}
		return b.Finish()
	case 3: // from a larger map
		m := u.New(kvs...)
		for i := 0; i < 6; i++ {
			if k := rk(i); true {
				if _, has := mm[k.I]; !has {
					m = m.With(k, rv(i))
				}
			}
		}
		for i := 0; i < 6; i++ {
			if _, has := mm[rk(i).I]; !has {
				m = m.Without(rk(i))
			}
		}
		return m
	case 4: // two halves
		k := len(kvs) / 2
		return u.New(kvs[:k]...).Update(u.New(kvs[k:]...))
	case 5: // computed from its keys
		var refs []univ.Ref
		vals := map[int]univ.Ref{}
		for _, kv := range kvs {
			refs = append(refs, kv.K)
			vals[kv.K.I] = kv.V
		}
		return u.FromKeys(u.Keys().New(refs...), func(k int) univ.Ref { return vals[k] })
	default:
		return u.FromGo(kvs...)
	}
}

type mv struct {
	m  univ.Map
	mm MM
}

// mpool is a growing history of maps over one universe.
type mpool struct {
	t       *pbt.T
	u       univ.MapU
	vs      []mv
	ops     map[string]bool
	maxSize int
	check   func(v mv, what string)
}

func newMPool(t *pbt.T, u univ.MapU) *mpool {
	p := &mpool{t: t, u: u, ops: map[string]bool{}}
	p.vs = append(p.vs, mv{u.Zero(), MM{}})
	return p
}

func (p *mpool) pick() int {
	n := len(p.vs)
	if n > 4 && p.t.Chance(2, 3) {
		return n - 1 - p.t.Intn(4)
	}
	return n - 1 - p.t.Intn(n)
}

func (p *mpool) add(op string, m univ.Map, mm MM, format string, args ...any) {
	var what string
	if p.t.Tracing() {
		what = fmt.Sprintf("m%d := %s", len(p.vs), fmt.Sprintf(format, args...))
		p.t.Logf("%s = %v", what, shortMM(mm))
	} else {
		what = fmt.Sprintf("m%d (%s)", len(p.vs), op)
	}
	v := mv{m, mm}
	if p.check != nil {
		p.check(v, what)
	}
	p.vs = append(p.vs, v)
	p.ops[op] = true
	p.maxSize = max(p.maxSize, len(mm))
}

func (p *mpool) key(mm MM) univ.Ref {
	r := gen.GenRef(p.t, p.u.Keys())
	if len(mm) > 0 && p.t.Bool() {
		ks := mm.keys(p.u.Keys().N())
		r.I = ks[r.I%len(ks)]
	}
	return r
}

// oriented combines a key and two values without symmetry.
func oriented(salt uint64, vn int) func(k, a, b int) int {
	return func(k, a, b int) int {
		switch salt % 4 {
		case 0:
			return a
		case 1:
			return b
		}
		return int(pbt.Mix(salt^uint64(k)<<40^uint64(a)<<20^uint64(b)) % uint64(vn))
	}
}

func merge(a, b MM, f func(k, x, y int) int) MM {
	c := a.clone()
	for k, y := range b {
		if x, has := a[k]; has {
			c[k] = f(k, x, y)
		} else {
			c[k] = y
		}
	}
	return c
}

func (p *mpool) step() {
	t, u := p.t, p.u
	vn := u.Vals().N()
	switch t.Weighted(6, 5, 4, 4, 3, 2, 2, 2, 2, 1, 1, 1) {
	case 0:
		i := p.pick()
		k, v := p.key(p.vs[i].mm), gen.GenRef(t, u.Vals())
		p.add("With", p.vs[i].m.With(k, v), p.vs[i].mm.with(k.I, v.I), "m%d.With(%v, %v)", i, k, v)
	case 1:
		i := p.pick()
		k := p.key(p.vs[i].mm)
		p.add("Without", p.vs[i].m.Without(k), p.vs[i].mm.without(k.I), "m%d.Without(%v)", i, k)
	case 2:
		mm := genMM(t, u)
		p.add("build", buildMap(t, u, mm), mm, "build")
	case 3:
		i, j := p.pick(), p.pick()
		p.add("Update", p.vs[i].m.Update(p.vs[j].m), merge(p.vs[i].mm, p.vs[j].mm, func(_, _, b int) int { return b }), "m%d.Update(m%d)", i, j)
	case 4:
		i, j := p.pick(), p.pick()
		f := oriented(t.Draw(1<<10), vn)
		got := p.vs[i].m.Merge(p.vs[j].m, func(k, a, b int) univ.Ref { return univ.Ref{I: f(k, a, b)} })
		p.add("Merge", got, merge(p.vs[i].mm, p.vs[j].mm, f), "m%d.Merge(m%d, ...)", i, j)
	case 5:
		i := p.pick()
		d, salt := t.Range(0, 16), t.Draw(1<<10)
		f := func(k, v int) bool { return pbt.Mix(salt^uint64(k)<<11^uint64(v)<<40)%16 < uint64(d) }
		p.add("Where", p.vs[i].m.Where(f), p.vs[i].mm.filter(f), "m%d.Where(...)", i)
	case 6: // a run of With
		i := p.pick()
		m, mm := p.vs[i].m, p.vs[i].mm.clone()
		add := genMM(t, u)
		for _, kv := range entries(t, u, add) {
			m = m.With(kv.K, kv.V)
			mm[kv.K.I] = kv.V.I
		}
		p.add("With*", m, mm, "m%d.With* %v", i, shortMM(add))
	case 7: // a run of Without
		i := p.pick()
		m, mm := p.vs[i].m, p.vs[i].mm.clone()
		del := genMM(t, u)
		for _, kv := range entries(t, u, del) {
			m = m.Without(kv.K)
			delete(mm, kv.K.I)
		}
		p.add("Without*", m, mm, "m%d.Without* %v", i, del.keys(u.Keys().N()))
	case 8:
		i := p.pick()
		var ks []univ.Ref
		mm := MM{}
		t.Loop(0, 4, 12, func(int) {
			k := p.key(p.vs[i].mm)
			ks = append(ks, k)
			if v, has := p.vs[i].mm[k.I]; has {
				mm[k.I] = v
			}
		})
		p.add("Project", p.vs[i].m.ProjectMutating(ks...), mm, "m%d.Project(%v)", i, ks)
	case 9:
		i := p.pick()
		f := oriented(t.Draw(1<<10)|2, vn)
		mm := MM{}
		for k, v := range p.vs[i].mm {
			mm[k] = f(k, v, 0)
		}
		got := p.vs[i].m.MapMap(func(k, v int) univ.Ref { return univ.Ref{I: f(k, v, 0)} })
		p.add("MapMap", got, mm, "MapMap(m%d, ...)", i)
	case 10:
		mm := genMM(t, u)
		p.add("NewMap", u.NewMutating(entries(t, u, mm)...), mm, "NewMap(slice...), slice then overwritten")
	case 11:
		i := p.pick()
		ks := p.vs[i].m.Keys()
		f := oriented(t.Draw(1<<10)|2, vn)
		mm := MM{}
		for k := range p.vs[i].mm {
			mm[k] = f(k, 0, 0)
		}
		p.add("NewMapFromKeys", u.FromKeys(ks, func(k int) univ.Ref { return univ.Ref{I: f(k, 0, 0)} }), mm, "NewMapFromKeys(m%d.Keys(), ...)", i)
	}
}

func genMU(t *pbt.T, eq, hash bool) univ.MapU {
	return gen.GenMapU(t, gen.GenN(t), t.Range(2, 12), eq, hash)
}

func hashedMU(t *pbt.T) univ.MapU {
	n := t.Range(3, 16)
	switch t.Intn(4) {
	case 0:
		return univ.Maps(univ.ElU(univ.Hashes(t, n)), univ.ZeroIntU(t.Range(2, 9)), univ.MapOpts{})
	case 1:
		return univ.Maps(univ.ElSU(univ.Hashes(t, n)), univ.ElU(univ.Hashes(t, 5)), univ.MapOpts{})
	case 2:
		return univ.Maps(univ.ElCU(univ.Hashes(t, n)), univ.ElCU(univ.Hashes(t, 5)), univ.MapOpts{})
	default:
		return univ.Maps(univ.AnyElU(univ.Hashes(t, n)), gen.MixU(20), univ.MapOpts{})
	}
}
