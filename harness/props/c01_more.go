//go:build all || C01

package props

import (
	"fmt"

	"github.com/arr-ai/frozen"

	"vh/gen"
	"vh/pbt"
	"vh/univ"
)

// msnap is everything observable about a map.
type msnap struct {
	count  int
	got    MM
	hash   [2]uintptr
	keys   sv
	ksnap  snap
	mirror univ.Map
}

func takeMSnap(t *pbt.T, v mv) msnap {
	u := v.m.U()
	s := msnap{count: v.m.Count(), got: rangeMM(t, v.m, "map")}
	if u.Hashable() {
		s.hash = [2]uintptr{v.m.Hash(0), v.m.Hash(77)}
	}
	if u.Comparable() {
		var kvs []univ.KV
		for _, k := range v.mm.keys(u.Keys().N()) {
			kvs = append(kvs, univ.KV{K: univ.Ref{I: k}, V: univ.Ref{I: v.mm[k]}})
		}
		s.mirror = u.New(kvs...)
	}
	km := newM(u.Keys().N())
	for k := range v.mm {
		km.put(k)
	}
	s.keys = sv{v.m.Keys(), km}
	s.ksnap = takeSnap(t, s.keys)
	return s
}

func sameMSnap(t *pbt.T, v mv, old msnap, what string) {
	u := v.m.U()
	if c := v.m.Count(); c != old.count {
		t.Fatalf("%s changed: Count was %d, is %d", what, old.count, c)
	}
	if got := rangeMM(t, v.m, what); !got.eq(old.got) {
		t.Fatalf("%s changed: entries were %v, are %v", what, old.got, got)
	}
	for i := 0; i < u.Keys().N(); i++ {
		k, ok := v.m.Get(univ.Ref{I: i})
		w, want := old.got[i]
		if ok != want || ok && w != k {
			t.Fatalf("%s changed: Get(%d) = %d, %v; was %d, %v", what, i, k, ok, w, want)
		}
	}
	if u.Hashable() {
		if h := [2]uintptr{v.m.Hash(0), v.m.Hash(77)}; h != old.hash {
			t.Fatalf("%s changed: its hash was %x, is %x", what, old.hash, h)
		}
	}
	if u.Comparable() && (!v.m.Equal(old.mirror) || !old.mirror.Equal(v.m)) {
		t.Fatalf("%s changed: no longer Equal to a map of the same entries %v", what, shortMM(v.mm))
	}
	sameSnap(t, old.keys, old.ksnap, "the Keys() taken earlier of "+what)
}

func c01Maps(t *pbt.T)       { c01MapRun(t, genMU(t, false, false)) }
func c01MapsHashed(t *pbt.T) { c01MapRun(t, hashedMU(t)) }

func c01MapRun(t *pbt.T, u univ.MapU) {
	p := newMPool(t, u)
	snaps := []msnap{takeMSnap(t, p.vs[0])}
	p.check = func(v mv, what string) {
		verifyMap(t, v.m, v.mm, what)
		snaps = append(snaps, takeMSnap(t, v))
	}
	type half struct {
		it   univ.MapIter
		of   int
		seen MM
	}
	var its []half
	t.Loop(1, 10, 35, func(int) {
		switch t.Weighted(7, 1, 1) {
		case 1: // an iterator left half way
			i := p.pick()
			h := half{p.vs[i].m.Range(), i, MM{}}
			for k := t.Intn(len(p.vs[i].mm) + 1); k > 0 && h.it.Next(); k-- {
				h.seen[h.it.Key()] = h.it.Value()
			}
			its = append(its, h)
			return
		case 2: // Go maps handed over and out, then changed
			i := p.pick()
			if !u.GoMaps() {
				return
			}
			n, g := p.vs[i].m.GoMutating()
			if n != len(p.vs[i].mm) || !MM(g).eq(p.vs[i].mm) {
				t.Fatalf("m%d: MapToGoMap gives %v, want %v", i, g, p.vs[i].mm)
			}
			p.add("NewMapFromGoMap", u.FromGo(entries(t, u, p.vs[i].mm)...), p.vs[i].mm, "NewMapFromGoMap(m%d's entries), Go map then changed", i)
			return
		}
		p.step()
	})
	for _, h := range its {
		for h.it.Next() {
			k, v := h.it.Key(), h.it.Value()
			if _, dup := h.seen[k]; dup {
				t.Fatalf("iterator over m%d, resumed after later operations, repeats key %d", h.of, k)
			}
			h.seen[k] = v
		}
		if !h.seen.eq(p.vs[h.of].mm) {
			t.Fatalf("iterator over m%d, resumed after later operations, yields %v in all, want %v", h.of, h.seen, p.vs[h.of].mm)
		}
	}
	for i, v := range p.vs {
		sameMSnap(t, v, snaps[i], fmt.Sprintf("m%d", i))
	}
	if len(p.vs) > 4 && p.maxSize > 2 {
		t.NonTrivial()
	}
}

func c01MapForks(t *pbt.T) {
	u := hashedMU(t)
	mm := genMM(t, u)
	vs := []mv{{buildMap(t, u, mm), mm}}
	verifyMap(t, vs[0].m, mm, "base")
	snaps := []msnap{takeMSnap(t, vs[0])}
	t.Loop(2, 8, 24, func(int) {
		i := 0
		if t.Chance(1, 3) {
			i = t.Intn(len(vs))
		}
		k, x := gen.GenRef(t, u.Keys()), gen.GenRef(t, u.Vals())
		p := vs[i]
		var v mv
		switch t.Weighted(6, 3, 1, 1) {
		case 0:
			t.Logf("m%d := m%d.With(%v, %v)", len(vs), i, k, x)
			v = mv{p.m.With(k, x), p.mm.with(k.I, x.I)}
		case 1:
			t.Logf("m%d := m%d.Without(%v)", len(vs), i, k)
			v = mv{p.m.Without(k), p.mm.without(k.I)}
		case 2:
			j := t.Intn(len(vs))
			t.Logf("m%d := m%d.Update(m%d)", len(vs), i, j)
			v = mv{p.m.Update(vs[j].m), merge(p.mm, vs[j].mm, func(_, _, b int) int { return b })}
		case 3:
			j := t.Intn(len(vs))
			f := oriented(t.Draw(1<<10), u.Vals().N())
			t.Logf("m%d := m%d.Merge(m%d, ...)", len(vs), i, j)
			v = mv{
				p.m.Merge(vs[j].m, func(k, a, b int) univ.Ref { return univ.Ref{I: f(k, a, b)} }),
				merge(p.mm, vs[j].mm, f),
			}
		}
		vs = append(vs, v)
		snaps = append(snaps, takeMSnap(t, v))
	})
	for i, v := range vs {
		verifyMap(t, v.m, v.mm, fmt.Sprintf("m%d, after its siblings were made", i))
		sameMSnap(t, v, snaps[i], fmt.Sprintf("m%d", i))
	}
	if len(mm) >= 2 {
		t.NonTrivial()
	}
}

// c01IntSets: histories of IntSets, everything checked when made and again at
// the end, with iterators resumed late.
func c01IntSets(t *pbt.T) {
	anyInt(t, c01IntRun[int], c01IntRun[int8], c01IntRun[uint8], c01IntRun[int64], c01IntRun[uint64], c01IntRun[int32], c01IntRun[uint16])
}

func c01IntRun[I integer](t *pbt.T) {
	p := newIPool[I](t)
	type snp struct {
		hash [2]uintptr
		elem int
	}
	take := func(v iv[I]) snp {
		return snp{[2]uintptr{v.s.Hash(0), v.s.Hash(77)}, len(v.s.Elements())}
	}
	snaps := []snp{take(p.vs[0])}
	p.check = func(v iv[I], what string) {
		p.verify(v, what)
		snaps = append(snaps, take(v))
	}
	type half struct {
		it   frozen.Iterator[I]
		of   int
		seen []I
	}
	var its []half
	t.Loop(2, 10, 35, func(int) {
		if t.Weighted(6, 1) == 1 {
			i := p.pick()
			h := half{it: p.vs[i].s.Range(), of: i}
			for k := t.Intn(len(p.vs[i].m) + 1); k > 0 && h.it.Next(); k-- {
				h.seen = append(h.seen, h.it.Value())
			}
			its = append(its, h)
			return
		}
		p.step()
	})
	for _, h := range its {
		for h.it.Next() && len(h.seen) <= len(p.vs[h.of].m) {
			h.seen = append(h.seen, h.it.Value())
		}
		sameInts(t, h.seen, p.vs[h.of].m, fmt.Sprintf("iterator over s%d, resumed after later operations", h.of))
	}
	for i, v := range p.vs {
		what := fmt.Sprintf("s%d, at the end", i)
		p.verify(v, what)
		if s := take(v); s != snaps[i] {
			t.Fatalf("%s: changed: hash was %x, is %x", what, snaps[i].hash, s.hash)
		}
		mirror := frozen.NewIntSet(intList(v.m)...)
		if !v.s.EqualSet(mirror) || !mirror.EqualSet(v.s) {
			t.Fatalf("%s: no longer equal to a set of the same integers", what)
		}
	}
	if len(p.vs) > 4 && p.maxSize > 1 {
		t.NonTrivial()
	}
}
