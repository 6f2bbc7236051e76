//go:build all || C25 || C26

package props

import (
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/arr-ai/frozen"

	"vh/gen"
	"vh/inst/intsets"
	"vh/inst/setints"
	"vh/inst/smallmaps"
	"vh/pbt"
	"vh/univ"
)

// canon rewrites a rendering so that the order of ", "-separated items inside
// any brackets does not matter.
func canon(s string) string {
	c, rest := canonItems(s, 0)
	return c + rest
}

const open, closing = "{([", "})]"

func canonItems(s string, closer byte) (out, rest string) {
	var items []string
	var cur strings.Builder
	for len(s) > 0 {
		c := s[0]
		switch {
		case strings.IndexByte(open, c) >= 0:
			cl := closing[strings.IndexByte(open, c)]
			in, r := canonItems(s[1:], cl)
			cur.WriteByte(c)
			cur.WriteString(in)
			s = r
			if len(s) > 0 {
				cur.WriteByte(s[0])
				s = s[1:]
			}
			continue
		case closer != 0 && c == closer:
			items = append(items, cur.String())
			sort.Strings(items)
			return strings.Join(items, ", "), s
		case strings.HasPrefix(s, ", "):
			items = append(items, cur.String())
			cur.Reset()
			s = s[2:]
			continue
		}
		cur.WriteByte(c)
		s = s[1:]
	}
	items = append(items, cur.String())
	sort.Strings(items)
	return strings.Join(items, ", "), ""
}

// splitTop splits at ", " outside brackets.
func splitTop(s string) []string {
	var items []string
	depth, start := 0, 0
	for i := 0; i < len(s); i++ {
		switch {
		case strings.IndexByte(open, s[i]) >= 0:
			depth++
		case strings.IndexByte(closing, s[i]) >= 0:
			depth--
		case depth == 0 && strings.HasPrefix(s[i:], ", "):
			items = append(items, s[start:i])
			i++
			start = i + 1
		}
	}
	return append(items, s[start:])
}

// unwrap strips delimiters and splits what is between them.
func unwrap(t *pbt.T, s, l, r, what string, n int) []string {
	if !strings.HasPrefix(s, l) || !strings.HasSuffix(s, r) || len(s) < len(l)+len(r) {
		t.Fatalf("%s = %q, which is not delimited by %s and %s", what, s, l, r)
	}
	s = s[len(l) : len(s)-len(r)]
	if s == "" && n == 0 {
		return nil
	}
	return splitTop(s)
}

// renderings maps the canonical rendering of every representation to its
// index; ok is false if two values look alike.
func renderings(u univ.SetU) (map[string]int, bool) {
	out := map[string]int{}
	for i := 0; i < u.N(); i++ {
		for r := 0; r < u.Reps(); r++ {
			s := canon(fmt.Sprint(u.RawRef(univ.Ref{I: i, R: r})))
			if j, has := out[s]; has && j != i {
				return out, false
			}
			out[s] = i
		}
	}
	return out, true
}

func noPanic(t *pbt.T, what, s string) string {
	if strings.Contains(s, "PANIC=") {
		t.Fatalf("%s: formatting panicked: %s", what, s)
	}
	return s
}

// renderableSetU draws a universe whose values all look different.
func renderableSetU(t *pbt.T, n int) univ.SetU {
	switch t.Weighted(4, 3, 3, 2, 2, 2, 2, 2, 2) {
	case 0:
		return univ.Sets(univ.ElU(univ.Hashes(t, n)))
	case 1:
		return univ.Sets(univ.StringU(t, n))
	case 2:
		return univ.Sets(univ.IntU(t, n))
	case 3:
		return univ.Sets(setints.U(n))
	case 4:
		return univ.Sets(smallmaps.U(n))
	case 5:
		return univ.Sets(gen.KVU(t, n))
	case 6:
		return univ.Sets(intsets.U(n))
	case 7:
		return univ.Sets(univ.FloatU(t, n))
	default:
		return univ.Sets(univ.ElCU(univ.Hashes(t, n)))
	}
}

func smallN(t *pbt.T) int {
	if t.Chance(1, 6) {
		return t.Range(20, 80)
	}
	return t.Range(2, 20)
}

func c25Set(t *pbt.T) {
	u := renderableSetU(t, smallN(t))
	idx, ok := renderings(u)
	if !ok {
		t.Fatalf("harness: universe %s is ambiguous when rendered", u.Name())
	}
	m := genM(t, u)
	s := build(t, u, m)
	n := m.count()
	t.Logf("%s set of %v", u.Name(), short(m))
	var is func(items []string, what string) M
	is = func(items []string, what string) M {
		got := newM(u.N())
		for _, it := range items {
			i, has := idx[canon(it)]
			if !has {
				t.Fatalf("%s shows %q, which is no element", what, it)
			}
			if got.has(i) {
				t.Fatalf("%s shows element %q more than once", what, it)
			}
			got.put(i)
		}
		return got
	}
	b := u.Builder(0, false)
	for _, r := range freshRefs(t, u, m) {
		b.Add(r)
	}
	for what, str := range map[string]string{
		"String()": s.String(), "%v": s.Sprintf("%v"), "%s": s.Sprintf("%s"), "SetBuilder.String()": b.String(),
	} {
		noPanic(t, what, str)
		if got := is(unwrap(t, str, "{", "}", what, n), what); !got.eq(m) {
			t.Fatalf("%s = %q shows %v, want %v", what, str, got.list(), m.list())
		}
	}
	w := t.Range(1, n+3)
	str := noPanic(t, "%*v", s.Sprintf(fmt.Sprintf("%%%dv", w)))
	what := fmt.Sprintf("%%%dv", w)
	if w >= n {
		if got := is(unwrap(t, str, "{", "}", what, n), what); !got.eq(m) {
			t.Fatalf("%s = %q shows %v, want %v", what, str, got.list(), m.list())
		}
	} else {
		items := unwrap(t, str, "{", "}", what, n)
		last := items[len(items)-1]
		if want := fmt.Sprintf("...(+%d)...", n-w); last != want {
			t.Fatalf("%s of %d elements = %q, want it to end with %q", what, n, str, want)
		}
		if got := is(items[:len(items)-1], what); got.count() != w || !got.subset(m) {
			t.Fatalf("%s = %q shows %v, want %d elements of %v", what, str, got.list(), w, m.list())
		}
		t.Class("truncated")
	}
	for _, f := range []string{"%+v", "%d", "%q", "%x", "%+3v", "%-4v", "%#v", "%5s"} {
		noPanic(t, f, s.Sprintf(f))
	}
	if n > 1 {
		t.NonTrivial()
	}
	t.ClassIf(n == 0, "empty")
	t.Class("set of " + u.Name())
}

func c25Map(t *pbt.T) {
	n, vn := smallN(t), t.Range(2, 20)
	var u univ.MapU
	switch t.Weighted(3, 2, 2, 2, 2, 1) {
	case 0:
		u = univ.Maps(univ.ElU(univ.Hashes(t, n)), univ.ZeroIntU(vn), univ.MapOpts{})
	case 1:
		u = univ.Maps(univ.StringU(t, n), setints.U(vn), univ.MapOpts{})
	case 2:
		u = univ.Maps(univ.IntU(t, n), smallmaps.U(vn), univ.MapOpts{})
	case 3:
		u = univ.Maps(setints.U(n), univ.StringU(t, vn), univ.MapOpts{})
	case 4:
		u = univ.Maps(gen.KVU(t, n), intsets.U(vn), univ.MapOpts{})
	case 5:
		u = univ.Maps(smallmaps.U(n), gen.KVU(t, vn), univ.MapOpts{})
	}
	ki, ok1 := renderings(u.Keys())
	vi, ok2 := renderings(u.Vals())
	if !ok1 || !ok2 {
		t.Fatalf("harness: universe %s is ambiguous when rendered", u.Name())
	}
	mm := genMM(t, u)
	m := buildMap(t, u, mm)
	for what, str := range map[string]string{
		"String()": m.String(), "%v": m.Sprintf("%v"), "%s": m.Sprintf("%s"),
	} {
		noPanic(t, what, str)
		got := MM{}
		for _, it := range unwrap(t, str, "(", ")", what, len(mm)) {
			found := false
			for at := 0; !found; at += 2 { // the ": " that separates key from value
				p := strings.Index(it[at:], ": ")
				if p < 0 {
					t.Fatalf("%s shows %q, which is no entry", what, it)
				}
				at += p
				k, isK := ki[canon(it[:at])]
				v, isV := vi[canon(it[at+2:])]
				if isK && isV {
					if _, dup := got[k]; dup {
						t.Fatalf("%s shows key %q twice", what, it[:at])
					}
					got[k], found = v, true
				}
			}
		}
		if !got.eq(mm) {
			t.Fatalf("%s = %q shows %v, want %v", what, str, got, mm)
		}
	}
	for _, f := range []string{"%+v", "%d", "%q", "%x", "%+3v", "%3v", "%#v", "%5s"} {
		noPanic(t, f, m.Sprintf(f))
	}
	if len(mm) > 1 {
		t.NonTrivial()
	}
	t.ClassIf(len(mm) == 0, "empty")
	t.Class("map " + u.Name())
}

func c25IntRun[I integer](t *pbt.T) {
	p := newIPool[I](t)
	t.Loop(1, 4, 10, func(int) { p.step() })
	for i, v := range p.vs {
		for what, str := range map[string]string{
			"String()": v.s.String(), "%v": fmt.Sprintf("%v", v.s), "%s": fmt.Sprintf("%s", v.s), "Sprint": fmt.Sprint(v.s),
		} {
			what = fmt.Sprintf("%s of s%d", what, i)
			noPanic(t, what, str)
			got := map[string]bool{}
			for _, it := range unwrap(t, str, "[", "]", what, len(v.m)) {
				if got[it] {
					t.Fatalf("%s = %q shows %s twice", what, str, it)
				}
				got[it] = true
			}
			for _, x := range intList(v.m) {
				if !got[fmt.Sprint(x)] {
					t.Fatalf("%s = %q does not show %d", what, str, x)
				}
			}
			if len(got) != len(v.m) {
				t.Fatalf("%s = %q, want %v", what, str, intList(v.m))
			}
		}
		for _, f := range []string{"%+v", "%d", "%x", "%3v", "%#v"} {
			noPanic(t, f, fmt.Sprintf(f, v.s))
		}
	}
	if p.maxSize > 1 {
		t.NonTrivial()
	}
}

func c25Int(t *pbt.T) {
	anyInt(t, c25IntRun[int], c25IntRun[int8], c25IntRun[uint64], c25IntRun[uint8], c25IntRun[myInt])
}

// c25Debug: the %+v form of sets, maps and KeyValues mentions everything.
func c25Debug(t *pbt.T) {
	n := smallN(t)
	hs := univ.Hashes(t, n)
	toks := make([]tok, n)
	var els []tok
	for i := range toks {
		toks[i] = tok{fmt.Sprintf("<e%d>", i), hs[i]}
		if t.Chance(2, 3) {
			els = append(els, toks[i])
		}
	}
	s := frozen.NewSet(els...)
	var mb frozen.MapBuilder[tok, string]
	for i, e := range els {
		mb.Put(e, fmt.Sprintf("<v%d>", i))
	}
	m := mb.Finish()
	forms := []string{"%+v", "%v", "%s", "%+s"}
	for _, f := range forms {
		str := noPanic(t, f, fmt.Sprintf(f, s))
		for _, e := range els {
			if !strings.Contains(str, e.s) {
				t.Fatalf("%s of a set does not mention %s: %s", f, e.s, str)
			}
		}
		for _, e := range toks {
			if strings.Contains(str, e.s) != s.Has(e) {
				t.Fatalf("%s of a set mentions %s, which it does not hold: %s", f, e.s, str)
			}
		}
		str = noPanic(t, f, fmt.Sprintf(f, m))
		for i, e := range els {
			if v := fmt.Sprintf("<v%d>", i); !strings.Contains(str, e.s) || !strings.Contains(str, v) {
				t.Fatalf("%s of a map does not mention %s: %s: %s", f, e.s, v, str)
			}
		}
		// Nested: a set of one set, a map to a map.
		str = noPanic(t, f, fmt.Sprintf(f, frozen.NewSet(s)))
		str2 := noPanic(t, f, fmt.Sprintf(f, frozen.NewMap(frozen.KV("k", m))))
		for i, e := range els {
			if !strings.Contains(str, e.s) {
				t.Fatalf("%s of a set of a set does not mention %s: %s", f, e.s, str)
			}
			if v := fmt.Sprintf("<v%d>", i); !strings.Contains(str2, e.s) || !strings.Contains(str2, v) {
				t.Fatalf("%s of a map of a map does not mention %s: %s: %s", f, e.s, v, str2)
			}
		}
	}
	if len(els) > 1 {
		t.NonTrivial()
	}
	t.ClassIf(len(els) == 0, "empty")
}

type tok struct {
	s string
	h uint64
}

func (k tok) Equal(l tok) bool { return k.s == l.s }
func (k tok) Hash(seed uintptr) uintptr {
	return uintptr(pbt.Mix(pbt.Mix(k.h) ^ uint64(seed)))
}
func (k tok) String() string { return k.s }

func c25KV(t *pbt.T) {
	k, v := t.Intn(100), fmt.Sprint("v", t.Intn(100))
	check := func(got, want string) {
		if got != want {
			t.Fatalf("a KeyValue is rendered as %q, want %q", got, want)
		}
	}
	kv := frozen.KV(k, v)
	want := fmt.Sprintf("%d:%s", k, v)
	for _, s := range []string{kv.String(), fmt.Sprint(kv), fmt.Sprintf("%v", kv), fmt.Sprintf("%s", kv)} {
		check(s, want)
	}
	s := frozen.NewSet(k)
	kv2 := frozen.KV(v, s)
	for _, f := range []string{"%v", "%s"} {
		check(fmt.Sprintf(f, kv2), fmt.Sprintf("%s:{%d}", v, k))
	}
	kv3 := frozen.KV[any, any](kv, frozen.NewMap(frozen.KV(v, k)))
	check(kv3.String(), fmt.Sprintf("%s:(%s: %d)", want, v, k))
	kv4 := frozen.KV[any, any](nil, frozen.NewIntSet(k))
	check(kv4.String(), fmt.Sprintf("<nil>:[%d]", k))
	for _, f := range []string{"%+v", "%d", "%3v"} {
		noPanic(t, f, fmt.Sprintf(f, kv3))
		noPanic(t, f, fmt.Sprintf(f, kv4))
	}
	t.NonTrivial()
}

// ---- C26

func c26Iota(t *pbt.T) {
	// start, stop and step such that the result is of moderate size.
	var start, step int
	switch t.Weighted(4, 2, 2, 1) {
	case 0:
		start = t.Range(-20, 20)
	case 1:
		start = math.MaxInt - t.Intn(20)
	case 2:
		start = math.MinInt + t.Intn(20)
	default:
		start = int(t.U64())
	}
	switch t.Weighted(4, 2, 2, 1, 1) {
	case 0:
		step = t.Range(1, 7)
	case 1:
		step = -t.Range(1, 7)
	case 2:
		step = int(t.U64())
	case 3:
		step = math.MaxInt - t.Intn(5)
		if t.Bool() {
			step = -step
		}
	default:
		step = math.MinInt + t.Intn(3)
	}
	k := t.Intn(40)
	if t.Chance(1, 20) {
		k = t.Range(40, 2000)
	}
	// The model enumerates with explicit range checks.
	var want []int
	cur, over := start, false
	for i := 0; i < k && !over; i++ {
		want = append(want, cur)
		nxt := cur + step
		if step > 0 && nxt < cur || step < 0 && nxt > cur {
			over = true
		}
		cur = nxt
	}
	stop := 0
	switch {
	case step == 0:
	case over: // the next element would not be an int
		last := want[len(want)-1]
		room := uint64(math.MaxInt) - uint64(last)
		if step < 0 {
			room = uint64(last) - 1<<63
		}
		if room == 0 { // stop itself must lie beyond the last element
			want = want[:len(want)-1]
			stop = last
			break
		}
		d := room
		if !t.Chance(2, 3) {
			d = 1 + t.U64()%room
		}
		if step > 0 {
			stop = int(uint64(last) + d)
		} else {
			stop = int(uint64(last) - d)
		}
	case len(want) == 0:
		// stop at or before start
		stop = start
		if t.Bool() {
			d := uint64(t.Intn(50))
			if t.Chance(1, 4) {
				d = t.U64()
			}
			if step > 0 {
				if room := uint64(start) - 1<<63; d <= room {
					stop = int(uint64(start) - d)
				}
			} else if room := uint64(math.MaxInt) - uint64(start); d <= room {
				stop = int(uint64(start) + d)
			}
		}
	default: // cur is the first value not to be included
		last := want[len(want)-1]
		gap := uint64(cur) - uint64(last)
		if step < 0 {
			gap = uint64(last) - uint64(cur)
		}
		d := gap
		if t.Bool() && gap > 0 {
			d = 1 + t.U64()%gap
		}
		if step > 0 {
			stop = int(uint64(last) + d)
		} else {
			stop = int(uint64(last) - d)
		}
	}
	if step == 0 {
		step = 1
		want, stop = nil, start
	}
	what := fmt.Sprintf("Iota3(%d, %d, %d)", start, stop, step)
	t.Logf("%s", what)
	checkInts(t, frozen.Iota3(start, stop, step), want, what)
	type named int
	g := frozen.Iota3(named(start), named(stop), named(step))
	if g.Count() != len(want) {
		t.Fatalf("%s of a named type has %d elements, want %d", what, g.Count(), len(want))
	}
	if step == 1 || len(want) <= 1 && stop > start && uint64(stop)-uint64(start) < 100 {
		var w2 []int
		for i := start; i < stop; i++ {
			w2 = append(w2, i)
		}
		checkInts(t, frozen.Iota2(start, stop), w2, fmt.Sprintf("Iota2(%d, %d)", start, stop))
	}
	n := t.Range(-3, 60)
	var w []int
	for i := 0; i < n; i++ {
		w = append(w, i)
	}
	checkInts(t, frozen.Iota(n), w, fmt.Sprintf("Iota(%d)", n))
	a, b := t.Range(-30, 30), t.Range(-30, 30)
	w = nil
	for i := a; i < b; i++ {
		w = append(w, i)
	}
	checkInts(t, frozen.Iota2(a, b), w, fmt.Sprintf("Iota2(%d, %d)", a, b))
	if z := frozen.Iota3(start, start, 0); !z.IsEmpty() {
		t.Fatalf("Iota3(%d, %d, 0) = %v, want it empty", start, start, z)
	}
	if start != stop {
		t.Panics(fmt.Sprintf("Iota3(%d, %d, 0)", start, stop), func() { frozen.Iota3(start, stop, 0) })
	}
	if len(want) > 1 {
		t.NonTrivial()
	}
	t.ClassIf(over, "next element out of range")
}

func checkInts(t *pbt.T, s frozen.Set[int], want []int, what string) {
	if s.Count() != len(want) {
		t.Fatalf("%s has %d elements, want %d: %v", what, s.Count(), len(want), want)
	}
	m := map[int]bool{}
	for _, v := range want {
		m[v] = true
		if !s.Has(v) {
			t.Fatalf("%s lacks %d, want %v", what, v, want)
		}
	}
	n := 0
	for r := s.Range(); r.Next(); n++ {
		if !m[r.Value()] || n > len(want) {
			t.Fatalf("%s has %d, want %v", what, r.Value(), want)
		}
	}
	if n != len(want) {
		t.Fatalf("%s yields %d elements, want %d", what, n, len(want))
	}
}

func genMask(t *pbt.T) uint64 {
	switch t.Weighted(3, 3, 2, 2) {
	case 0:
		var m uint64
		t.Loop(0, 4, 20, func(int) { m |= 1 << uint(t.Intn(64)) })
		return m
	case 1:
		return t.U64()
	case 2:
		return t.U64() & t.U64() & t.U64()
	default:
		return []uint64{0, 1, 1 << 63, ^uint64(0), 1<<63 | 1, 1<<32 - 1, 1 << 31, 1 << 32}[t.Intn(8)]
	}
}

func c26Mask(t *pbt.T) {
	mask := genMask(t)
	t.Logf("mask %x", mask)
	var want []int
	for i := 0; i < 64; i++ {
		if mask>>uint(i)&1 != 0 {
			want = append(want, i)
		}
	}
	checkInts(t, frozen.NewSetFromMask64(mask), want, fmt.Sprintf("NewSetFromMask64(%#x)", mask))
	b := frozen.BitIterator(mask)
	check := func(b frozen.BitIterator, m uint64, what string) {
		n := 0
		for i := 0; i < 64; i++ {
			in := m>>uint(i)&1 != 0
			if in {
				n++
			}
			if b.Has(i) != in {
				t.Fatalf("%s: Has(%d) = %v, want %v for mask %#x", what, i, !in, in, m)
			}
		}
		// There are no bits beyond those of the word.
		for _, i := range []int{64, 65, 127, 128, 64 + t.Intn(200), 1 << 31, 1 << 32, 1<<63 - 1} {
			if b.Has(i) {
				t.Fatalf("%s: Has(%d) = true for mask %#x", what, i, m)
			}
			if c := b.Without(i); c != b {
				t.Fatalf("%s: Without(%d) makes %#x of mask %#x", what, i, uint64(c), m)
			}
		}
		if b.Count() != n {
			t.Fatalf("%s: Count() = %d, want %d for mask %#x", what, b.Count(), n, m)
		}
		rest := m
		for c := b; c != 0; c = c.Next() {
			if rest == 0 {
				t.Fatalf("%s: enumeration of mask %#x does not end after its one-bits", what, m)
			}
			low := 0
			for rest>>uint(low)&1 == 0 {
				low++
			}
			if c.Index() != low {
				t.Fatalf("%s: Index() = %d, want %d", what, c.Index(), low)
			}
			rest &^= 1 << uint(low)
		}
		if rest != 0 {
			t.Fatalf("%s: enumeration of mask %#x ends early, leaving %#x", what, m, rest)
		}
	}
	check(b, mask, "BitIterator")
	t.Loop(1, 5, 12, func(int) {
		i := t.Intn(64)
		if t.Bool() {
			b, mask = b.With(i), mask|1<<uint(i)
			check(b, mask, fmt.Sprintf("after With(%d)", i))
		} else {
			b, mask = b.Without(i), mask&^(1<<uint(i))
			check(b, mask, fmt.Sprintf("after Without(%d)", i))
		}
	})
	t.NonTrivial()
}

func init() {
	register(&pbt.Prop{
		ID: "C25",
		Rule: "a case renders one generated Set (or builder), Map, IntSet or KeyValue in every documented form, parses the text back and compares it " +
			"with the model; non-trivial: at least 2 elements",
		Scenarios: []*pbt.Scenario{
			{Name: "set", Quick: 6000, Fn: c25Set},
			{Name: "map", Quick: 6000, Fn: c25Map},
			{Name: "big-set", Quick: 100, Fn: big(c25Set)},
			{Name: "big-map", Quick: 100, Fn: big(c25Map)},
			{Name: "intset", Quick: 4000, Fn: c25Int},
			{Name: "debug", Quick: 4000, Fn: c25Debug},
			{Name: "keyvalue", Quick: 500, Fn: c25KV},
		},
	})
	register(&pbt.Prop{
		ID: "C26",
		Rule: "a case draws start, stop and step (small, huge, at the limits of int) or a 64-bit mask with a history of bit updates, and compares with an " +
			"overflow-checked enumeration; non-trivial: a range of at least 2 elements, or any mask history",
		Scenarios: []*pbt.Scenario{
			{Name: "iota", Quick: 20000, Fn: c26Iota},
			{Name: "mask", Quick: 20000, Fn: c26Mask},
		},
	})
}
