//go:build all || C20 || C21 || C22 || C29 || C32

package props

import (
	"fmt"
	"io"
	"log"
	"sort"

	"github.com/arr-ai/frozen"
	"github.com/arr-ai/frozen/pkg/rel"

	"vh/pbt"
	"vh/univ"
)

func init() { log.SetOutput(io.Discard) } // Nest logs

// rrow is the model of a tuple, rrel that of a relation: rows by key.
type (
	rrow map[string]nv[any]
	rrel map[string]rrow
)

func (r rrow) key() string {
	var ks []string
	for a, v := range r {
		ks = append(ks, fmt.Sprintf("%q:%s", a, v.k))
	}
	return join("T", ks)
}

func (r rrow) restrict(f func(a string) bool) rrow {
	s := rrow{}
	for a, v := range r {
		if f(a) {
			s[a] = v
		}
	}
	return s
}

func (r rrow) plus(o rrow) rrow {
	s := r.restrict(func(string) bool { return true })
	for a, v := range o {
		s[a] = v
	}
	return s
}

func (r rrow) tuple(salt uint64) rel.Tuple {
	var kvs []nkv[string, any]
	for a, v := range r {
		kvs = append(kvs, nkv[string, any]{nvStr(a), v})
	}
	sort.Slice(kvs, func(i, j int) bool { return kvs[i].k.k < kvs[j].k.k })
	return nvMap("T", kvs, nvStr("extra")).make(salt)
}

func rrelOf(rows ...rrow) rrel {
	r := rrel{}
	for _, row := range rows {
		r[row.key()] = row
	}
	return r
}

func (r rrel) list() []rrow {
	var ks []string
	for k := range r {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	rows := make([]rrow, len(ks))
	for i, k := range ks {
		rows[i] = r[k]
	}
	return rows
}

func (r rrel) key() string {
	var ks []string
	for k := range r {
		ks = append(ks, k)
	}
	return join("R", ks)
}

// hashJoin is join for large relations whose rows have one header each.
func (r rrel) hashJoin(o rrel) rrel {
	var ra, ob rrow
	for _, ra = range r {
		break
	}
	for _, ob = range o {
		break
	}
	common := func(a string) bool {
		_, x := ra[a]
		_, y := ob[a]
		return x && y
	}
	index := map[string][]rrow{}
	for _, b := range o {
		k := b.restrict(common).key()
		index[k] = append(index[k], b)
	}
	out := rrel{}
	for _, a := range r {
		for _, b := range index[a.restrict(common).key()] {
			c := a.plus(b)
			out[c.key()] = c
		}
	}
	return out
}

func (r rrel) join(o rrel) rrel {
	out := rrel{}
	for _, a := range r {
		for _, b := range o {
			agree := true
			for x, v := range a {
				if w, common := b[x]; common && v.k != w.k {
					agree = false
				}
			}
			if agree {
				c := a.plus(b)
				out[c.key()] = c
			}
		}
	}
	return out
}

// real builds the relation along a path chosen by salt.
func (r rrel) real(salt uint64) rel.Relation {
	var rows []nv[rel.Tuple]
	for _, row := range r.list() {
		row := row
		rows = append(rows, nv[rel.Tuple]{row.key(), row.tuple})
	}
	return nvSet("R", rows, nvMap("T", []nkv[string, any]{{nvStr("extra"), nvExtra}}, nvStr("extra"))).make(salt)
}

// as wraps the relation as a value.
func (r rrel) as() nv[any] {
	return nv[any]{r.key(), func(salt uint64) any { return r.real(salt) }}
}

func verifyRel(t *pbt.T, got rel.Relation, want rrel, what string) {
	if c := got.Count(); c != len(want) {
		t.Fatalf("%s: %d tuples, want %d: got %s, want %s", what, c, len(want), clip(canonV(got)), clip(want.key()))
	}
	if k := canonV(got); k != want.key() {
		t.Fatalf("%s: got %s, want %s", what, clip(k), clip(want.key()))
	}
	mirror := want.real(uint64(len(want)))
	if !got.Equal(mirror) || !mirror.Equal(got) || got.Hash(3) != mirror.Hash(3) {
		t.Fatalf("%s: not Equal to the same relation built directly: %s", what, clip(want.key()))
	}
	n := 0
	for _, row := range want {
		if n++; n > 20 {
			break
		}
		if !got.Has(row.tuple(uint64(n))) {
			t.Fatalf("%s: Has(%s) = false", what, row.key())
		}
	}
}

// relGen draws relations whose attributes share small domains.
type relGen struct {
	t    *pbt.T
	vals map[string][]nv[any]
}

func newRelGen(t *pbt.T, attrs []string) *relGen {
	g := &relGen{t: t, vals: map[string][]nv[any]{}}
	d := t.Weighted(5, 1)
	n := t.Range(1, 4)
	if t.Chance(1, 6) {
		n = 12
	}
	for _, a := range attrs {
		for i := 0; i < n; i++ {
			v := nvAny(nvInt(i))
			if t.Chance(1, 3) {
				v = nested(t, d)
			}
			g.vals[a] = append(g.vals[a], v)
		}
	}
	return g
}

func (g *relGen) header(attrs []string) []string {
	var h []string
	for _, a := range attrs {
		if g.t.Chance(1, 2) {
			h = append(h, a)
		}
	}
	return h
}

func (g *relGen) row(h []string) rrow {
	r := rrow{}
	for _, a := range h {
		r[a] = g.vals[a][g.t.Intn(len(g.vals[a]))]
	}
	return r
}

func (g *relGen) rel(h []string, avg, max int) rrel {
	r := rrel{}
	g.t.Loop(0, avg, max, func(int) {
		row := g.row(h)
		r[row.key()] = row
	})
	return r
}

// newBigRelGen gives each attribute a domain of its own size, up to thousands.
func newBigRelGen(t *pbt.T, attrs []string) *relGen {
	g := &relGen{t: t, vals: map[string][]nv[any]{}}
	for _, a := range attrs {
		n := []int{1, 2, 5, 20, 100, 500, 3000}[t.Intn(7)]
		coll := t.Chance(1, 4) // of few hashes
		for i := 0; i < n; i++ {
			switch {
			case coll:
				i := i
				g.vals[a] = append(g.vals[a], nv[any]{fmt.Sprint("ElS", i), func(salt uint64) any {
					return univ.ElS{ID: i, H: uint64(i % 7), Tag: int(salt % 3)}
				}})
			case i%7 == 3:
				g.vals[a] = append(g.vals[a], nvAny(nvStr(fmt.Sprint("s", i))))
			default:
				g.vals[a] = append(g.vals[a], nvAny(nvInt(i)))
			}
		}
	}
	return g
}

// bigRel draws up to n rows from a seed of its own.
func (g *relGen) bigRel(h []string, n int) rrel {
	r := rrel{}
	seed := g.t.Draw(1<<30) << 20
	for i := 0; i < n; i++ {
		row := rrow{}
		for _, a := range h {
			seed++
			row[a] = g.vals[a][pbt.Mix(seed)%uint64(len(g.vals[a]))]
		}
		r[row.key()] = row
	}
	return r
}

var relAttrs = []string{"a", "b", "c", "d", "e"}

func c20New(t *pbt.T) {
	g := newRelGen(t, relAttrs)
	h := g.header(relAttrs)
	salt := t.Draw(64)
	shuffle(salt, h)
	var rows []rrow
	t.Loop(0, 4, 20, func(int) { rows = append(rows, g.row(h)) })
	var in [][]any
	for i, r := range rows {
		var row []any
		for _, a := range h {
			row = append(row, r[a].make(salt+uint64(i)))
		}
		in = append(in, row)
	}
	want := rrelOf(rows...)
	got := rel.New(h, in...)
	t.Logf("New(%q, %d rows) = %s", h, len(rows), clip(want.key()))
	for _, row := range in {
		for i := range row {
			row[i] = -5
		}
	}
	hh := append([]string(nil), h...)
	for i := range h {
		h[i] = "overwritten"
	}
	verifyRel(t, got, want, "New")
	// Rows of the wrong width.
	if len(rows) > 0 {
		bad := make([][]any, len(rows))
		for i, r := range rows {
			for _, a := range hh {
				bad[i] = append(bad[i], r[a].make(salt))
			}
		}
		i := t.Intn(len(bad))
		if t.Bool() || len(hh) == 0 {
			bad[i] = append(bad[i], 1)
		} else {
			bad[i] = bad[i][:t.Intn(len(bad[i]))]
		}
		t.Panics(fmt.Sprintf("New with a row of %d values under %d attributes", len(bad[i]), len(hh)), func() { rel.New(hh, bad...) })
	}
	// Tuples.
	r := g.row(hh)
	var kvs []frozen.KeyValue[string, any]
	for _, a := range hh {
		kvs = append(kvs, frozen.KV(a, r[a].make(salt)))
	}
	if tp := rel.NewTuple(kvs...); canonV(tp) != r.key() {
		t.Fatalf("NewTuple gives %s, want %s", canonV(tp), r.key())
	}
	if len(want) > 1 && len(hh) > 1 {
		t.NonTrivial()
	}
}

func c20Join(t *pbt.T) { c20JoinRun(t, 5, 24) }

func c20JoinLarge(t *pbt.T) { c20JoinRun(t, 40, 160) }

func c20JoinRun(t *pbt.T, avg, max int) {
	g := newRelGen(t, relAttrs)
	var rs []rrel
	var in []rel.Relation
	n := t.Weighted(1, 6, 3, 1) + 1
	size, big := 1, false
	for i := 0; i < n; i++ {
		h := g.header(relAttrs[:t.Range(1, 5)])
		r := g.rel(h, avg, max)
		if size*len(r) > 4000 {
			r = rrelOf(g.row(h))
		}
		size *= len(r) + 1
		rs = append(rs, r)
		in = append(in, r.real(t.Draw(64)))
		t.Logf("r%d := %q, %s", i, h, clip(r.key()))
		big = big || len(r) > 2
	}
	want := rs[0]
	for _, r := range rs[1:] {
		want = want.join(r)
	}
	if len(want) > 3000 {
		return
	}
	got := rel.Join(in...)
	verifyRel(t, got, want, "Join")
	for i, r := range rs {
		verifyRel(t, in[i], r, fmt.Sprintf("r%d after Join", i))
	}
	if n > 1 { // the order of the operands does not matter
		j := t.Intn(n)
		sw := append([]rel.Relation(nil), in...)
		sw[0], sw[j] = sw[j], sw[0]
		verifyRel(t, rel.Join(sw...), want, "Join in another order")
		verifyRel(t, rel.Join(append(sw, rel.New(nil, []any{}))...), want, "Join with the one-row relation without attributes")
		if e := rel.Join(append(sw, rel.Relation{})...); e.Count() != 0 {
			t.Fatalf("Join with an empty relation: %s", clip(canonV(e)))
		}
	}
	if big && len(want) > 0 && n > 1 {
		t.NonTrivial()
	}
	t.ClassIf(len(want) == 0, "join:empty")
}

func c20Product(t *pbt.T) {
	g := newRelGen(t, relAttrs)
	var rs []rrel
	var in []rel.Relation
	rest := append([]string(nil), relAttrs...)
	n := t.Range(0, 4)
	want := rrelOf(rrow{})
	for i := 0; i < n; i++ {
		k := t.Range(0, len(rest))
		if k > 2 {
			k = 2
		}
		r := g.rel(rest[:k], 3, 9)
		rest = rest[k:]
		rs = append(rs, r)
		in = append(in, r.real(t.Draw(64)))
		want = want.join(r)
		t.Logf("r%d := %s", i, clip(r.key()))
	}
	verifyRel(t, rel.CartesianProduct(in...), want, "CartesianProduct")
	if len(want) > 1 && n > 1 {
		t.NonTrivial()
	}
}

func c20JoinBig(t *pbt.T) {
	g := newBigRelGen(t, relAttrs)
	a, b := g.header(relAttrs[:4]), g.header(relAttrs[1:])
	n := t.Range(10, 2000)
	r := g.bigRel(a, n)
	m := t.Range(1, 2000)
	if t.Chance(1, 3) {
		m = t.Range(1, 8)
	}
	s := g.bigRel(b, m)
	t.Logf("r0 := %d rows %q, r1 := %d rows %q, domains %s", len(r), a, len(s), b, g.domains())
	// How much would come of it?
	common := func(x string) bool {
		i := sort.SearchStrings(a, x)
		return i < len(a) && a[i] == x
	}
	sizes := map[string]int{}
	for _, row := range s {
		sizes[row.restrict(common).key()]++
	}
	inB := func(x string) bool {
		i := sort.SearchStrings(b, x)
		return i < len(b) && b[i] == x
	}
	total := 0
	for _, row := range r {
		total += sizes[row.restrict(inB).key()]
	}
	if total > 6000 {
		t.Class("join-big:skipped")
		return
	}
	want := r.hashJoin(s)
	x, y := r.real(t.Draw(64)), s.real(t.Draw(64))
	verifyRel(t, rel.Join(x, y), want, "Join")
	verifyRel(t, rel.Join(y, x), want, "Join the other way round")
	verifyRel(t, x, r, "r0 after Join")
	verifyRel(t, y, s, "r1 after Join")
	if len(want) > 100 {
		t.NonTrivial()
	}
}

func (g *relGen) domains() string {
	s := ""
	for _, a := range relAttrs {
		s += fmt.Sprintf(" %s:%d", a, len(g.vals[a]))
	}
	return s
}

func c20ProjectBig(t *pbt.T) {
	g := newBigRelGen(t, relAttrs)
	h := g.header(relAttrs)
	r := g.bigRel(h, t.Range(10, 3000))
	if t.Chance(1, 2) { // rows may have other attributes
		h2 := g.header(relAttrs)
		t.Logf("rows %q, and", h2)
		for k, row := range g.bigRel(h2, []int{1, 30, 1000}[t.Intn(3)]) {
			r[k] = row
		}
	}
	t.Logf("%d rows %q, domains %s", len(r), h, g.domains())
	c20ProjectRun(t, r)
}

func c20NewBig(t *pbt.T) {
	g := newBigRelGen(t, relAttrs)
	h := g.header(relAttrs)
	r := g.bigRel(h, t.Range(10, 3000))
	t.Logf("%d rows %q, domains %s", len(r), h, g.domains())
	salt := t.Draw(64)
	var in [][]any
	for i, row := range r.list() {
		for j := 0; j < 1+i%2; j++ { // every other row twice
			var vs []any
			for _, a := range h {
				vs = append(vs, row[a].make(salt+uint64(i+j)))
			}
			in = append(in, vs)
		}
	}
	shuffle(salt, in)
	verifyRel(t, rel.New(h, in...), r, "New")
	if len(r) > 100 {
		t.NonTrivial()
	}
}

func c20Project(t *pbt.T) {
	g := newRelGen(t, relAttrs)
	r := rrel{}
	h := g.header(relAttrs)
	t.Loop(0, 6, 60, func(int) {
		if t.Chance(1, 8) { // rows may have other attributes
			h = g.header(relAttrs)
		}
		row := g.row(h)
		r[row.key()] = row
	})
	c20ProjectRun(t, r)
}

func c20ProjectRun(t *pbt.T, r rrel) {
	onto := map[string]bool{}
	var as []string
	t.Loop(0, 2, 5, func(int) {
		a := append(relAttrs, "none")[t.Intn(6)]
		onto[a] = true
		as = append(as, a)
	})
	want := rrel{}
	for _, row := range r {
		p := row.restrict(func(a string) bool { return onto[a] })
		want[p.key()] = p
	}
	t.Logf("Project(%s, %q)", clip(r.key()), as)
	in := r.real(t.Draw(64))
	got := rel.Project(in, as...)
	for i := range as {
		as[i] = "overwritten"
	}
	verifyRel(t, got, want, "Project")
	verifyRel(t, in, r, "the operand of Project")
	t.ClassIf(len(want) < len(r), "project:merges")
	if len(r) > 2 && len(want) > 1 {
		t.NonTrivial()
	}
}

func strSet(as []string, salt uint64) frozen.Set[string] {
	bs := append([]string(nil), as...)
	shuffle(salt, bs)
	return frozen.NewSet(bs...)
}

func c21Nest(t *pbt.T) {
	g := newRelGen(t, relAttrs)
	h := g.header(relAttrs)
	if len(h) == 0 {
		h = []string{"a"}
	}
	c21NestRun(t, h, g.rel(h, 8, 80))
}

func c21NestBig(t *pbt.T) {
	g := newBigRelGen(t, relAttrs)
	h := g.header(relAttrs)
	if len(h) == 0 {
		h = []string{"a"}
	}
	r := g.bigRel(h, t.Range(10, 2000))
	t.Logf("%d rows %q, domains %s", len(r), h, g.domains())
	c21NestRun(t, h, r)
}

// c21NestWeak: groups of one size over values of very few hashes, so that
// distinct groups have equal hashes.
func c21NestWeak(t *pbt.T) {
	g := &relGen{t: t, vals: map[string][]nv[any]{}}
	mod := t.Range(1, 2)
	k := []int{1, 2, 3, 9, 17, 40}[t.Intn(6)]
	for _, a := range relAttrs {
		n := 2 * k
		if a < "c" {
			n = 4
		}
		for i := 0; i < n; i++ {
			i := i
			g.vals[a] = append(g.vals[a], nv[any]{fmt.Sprint("ElS", i), func(salt uint64) any {
				return univ.ElS{ID: i, H: uint64(i % mod), Tag: int(salt % 3)}
			}})
		}
	}
	r := rrel{}
	h := []string{"a", "b", "c"}[t.Intn(3):]
	for i := t.Range(1, 5); i > 0; i-- {
		o := g.row(h[:len(h)-1])
		vs := append([]nv[any](nil), g.vals["c"]...)
		shuffle(1+t.Draw(1<<30), vs)
		for _, v := range vs[:k] {
			row := o.plus(rrow{"c": v})
			r[row.key()] = row
		}
	}
	c21NestRun(t, h, r)
}

func c21UnnestBig(t *pbt.T) {
	g := newBigRelGen(t, relAttrs)
	outer := g.bigRel(g.header(relAttrs[:2]), t.Range(1, 300))
	h := g.header(relAttrs[2:])
	r, want := rrel{}, rrel{}
	left := 4000
	for _, o := range outer.list() {
		n := []int{1, 3, 20, 300}[t.Intn(4)]
		if n > left {
			n = 1
		}
		sub := g.bigRel(h, n)
		left -= len(sub)
		row := o.plus(rrow{"n": sub.as()})
		r[row.key()] = row
		for _, i := range sub {
			x := o.plus(i)
			want[x.key()] = x
		}
	}
	t.Logf("Unnest of %d tuples with %d inside, inner %q, domains %s", len(r), len(want), h, g.domains())
	in := r.real(t.Draw(64))
	verifyRel(t, rel.Unnest(in, "n"), want, "Unnest")
	verifyRel(t, in, r, "the operand of Unnest")
	if len(want) > 100 {
		t.NonTrivial()
	}
}

func c21NestRun(t *pbt.T, h []string, r rrel) {
	in := r.real(t.Draw(64))
	var inner []string
	for _, a := range h {
		if t.Chance(1, 2) {
			inner = append(inner, a)
		}
	}
	isInner := map[string]bool{}
	for _, a := range inner {
		isInner[a] = true
	}
	name := "aa"
	if len(inner) > 0 && t.Chance(1, 4) {
		name = inner[t.Intn(len(inner))]
	}
	want, groups := rrel{}, map[string]rrel{}
	outer := map[string]rrow{}
	for _, row := range r.list() {
		o := row.restrict(func(a string) bool { return !isInner[a] })
		i := row.restrict(func(a string) bool { return isInner[a] })
		if groups[o.key()] == nil {
			groups[o.key()] = rrel{}
		}
		groups[o.key()][i.key()] = i
		outer[o.key()] = o
	}
	merged := false
	for k, o := range outer {
		row := o.plus(rrow{name: groups[k].as()})
		want[row.key()] = row
		merged = merged || len(groups[k]) > 1
	}
	t.Logf("Nest(%s, {%s: %q})", clip(r.key()), name, inner)
	got := rel.Nest(in, frozen.NewMap(frozen.KV(name, strSet(inner, t.Draw(16)))))
	verifyRel(t, got, want, "Nest")
	verifyRel(t, rel.Unnest(got, name), r, "Unnest of Nest")
	verifyRel(t, rel.Unnest(want.real(t.Draw(64)), name), r, "Unnest of the same nested relation built directly")
	verifyRel(t, in, r, "the operand of Nest")
	t.ClassIf(len(inner) == len(h), "nest:everything")
	t.ClassIf(len(inner) == 0, "nest:nothing")
	if merged && len(want) > 1 {
		t.NonTrivial()
	}
}

func c21Unnest(t *pbt.T) {
	g := newRelGen(t, relAttrs)
	k := t.Range(0, 3)
	outerH, innerAll := g.header(relAttrs[:k]), relAttrs[k:]
	name := "n"
	if t.Chance(1, 4) {
		name = innerAll[0]
	}
	r, want := rrel{}, rrel{}
	empties := 0
	t.Loop(0, 4, 16, func(int) {
		o := g.row(outerH)
		sub := g.rel(g.header(innerAll), 3, 12)
		if t.Chance(1, 6) {
			sub = rrel{}
		}
		if len(sub) == 0 {
			empties++
		}
		row := o.plus(rrow{name: sub.as()})
		r[row.key()] = row
		for _, i := range sub {
			x := o.plus(i)
			want[x.key()] = x
		}
	})
	t.Logf("Unnest(%s, %s)", clip(r.key()), name)
	in := r.real(t.Draw(64))
	verifyRel(t, rel.Unnest(in, name), want, "Unnest")
	verifyRel(t, in, r, "the operand of Unnest")
	t.ClassIf(empties > 0, "unnest:empty subrelation")
	if len(r) > 1 && len(want) > 1 {
		t.NonTrivial()
	}
}

func init() {
	register(&pbt.Prop{
		ID: "C20",
		Rule: "a case draws relations over up to 5 attributes with small domains of mixed, partly nested and colliding values and compares the operation's result with a nested-loop model; " +
			"non-trivial: a result of at least one tuple from an operand of several rows",
		Scenarios: []*pbt.Scenario{
			{Name: "new", Quick: 4000, Fn: c20New},
			{Name: "join", Quick: 8000, Fn: c20Join},
			{Name: "join-large", Quick: 400, Fn: c20JoinLarge},
			{Name: "product", Quick: 3000, Fn: c20Product},
			{Name: "project", Quick: 4000, Fn: c20Project},
			{Name: "big-new", Quick: 24, Fn: c20NewBig},
			{Name: "big-join", Quick: 48, Fn: c20JoinBig},
			{Name: "big-project", Quick: 24, Fn: c20ProjectBig},
		},
		Configs: []*pbt.Config{cfgDefault, withShare(cfgDeep, 0.1)},
	})
	register(&pbt.Prop{
		ID: "C21",
		Rule: "a case draws a relation, or a nested relation, and compares Nest or Unnest with a grouping model and with each other; " +
			"non-trivial: some group has several rows, and there are several groups",
		Scenarios: []*pbt.Scenario{
			{Name: "nest", Quick: 6000, Fn: c21Nest},
			{Name: "unnest", Quick: 6000, Fn: c21Unnest},
			{Name: "nest-weak", Quick: 400, Fn: c21NestWeak},
			{Name: "big-nest", Quick: 40, Fn: c21NestBig},
			{Name: "big-unnest", Quick: 40, Fn: c21UnnestBig},
		},
		Configs: []*pbt.Config{cfgDefault, withShare(cfgDeep, 0.1)},
	})
}
