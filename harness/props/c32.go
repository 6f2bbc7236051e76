//go:build all || C32

package props

import (
	"fmt"
	"sync/atomic"

	"vh/pbt"
	"vh/univ"
)

// nest does other actions in the middle of an action, from the user-supplied
// functions that it calls.
type nest struct {
	t      *pbt.T
	ticks  int64
	at     map[int64]uint64 // the action to do at a call
	inner  int64            // the call of an inner action at which to go one level deeper; 0: never
	deep   uint64
	level  int32
	within int64
	other  func(uint64) string
	want   map[uint64]string
	done   int64
	bad    atomic.Value
}

func (n *nest) do(x uint64) {
	atomic.AddInt32(&n.level, 1)
	defer atomic.AddInt32(&n.level, -1)
	atomic.AddInt64(&n.done, 1)
	if got := n.other(x); got != n.want[x] {
		n.bad.CompareAndSwap(nil, fmt.Sprintf("gives %s, by itself %s", clip(got), clip(n.want[x])))
	}
}

func (n *nest) tick() {
	switch atomic.LoadInt32(&n.level) {
	case 0:
		if x, is := n.at[atomic.AddInt64(&n.ticks, 1)]; is {
			n.do(x)
		}
	case 1:
		if n.inner > 0 && atomic.AddInt64(&n.within, 1) == n.inner {
			n.do(n.deep)
		}
	}
}

// reenter runs act with other actions nested in it.
func reenter(t *pbt.T, what string, act func() string, other func(x uint64) string) bool {
	// By themselves:
	var calls int64
	univ.Hook = func() { atomic.AddInt64(&calls, 1) }
	defer func() { univ.Hook = nil }()
	want := act()
	if calls == 0 {
		return false
	}
	n := &nest{t: t, at: map[int64]uint64{}, other: other, want: map[uint64]string{}}
	univ.Hook = nil
	for k := t.Range(1, 3); k > 0; k-- {
		x := t.U64()
		n.at[1+int64(t.Draw(1<<20))%calls] = x
		n.want[x] = other(x)
	}
	if t.Bool() {
		n.inner, n.deep = 1+int64(t.Intn(20)), t.U64()
		n.want[n.deep] = other(n.deep)
	}
	univ.Hook = n.tick
	got := act()
	univ.Hook = nil
	t.Logf("%s: %d calls, %d actions nested", what, calls, n.done)
	if bad := n.bad.Load(); bad != nil {
		t.Fatalf("within %s, an action %s", what, bad)
	}
	if got != want {
		t.Fatalf("%s: gives %s with other actions nested in its callbacks, by itself %s", what, clip(got), clip(want))
	}
	return n.done > 0
}

// flood runs act with another action started in every call of a user-supplied
// function, in those of the other actions too, until there have been many.
func flood(t *pbt.T, what string, act func() string, other func(x uint64) string) bool {
	var calls int64
	univ.Hook = func() { atomic.AddInt64(&calls, 1) }
	defer func() { univ.Hook = nil }()
	want := act()
	if calls == 0 {
		return false
	}
	univ.Hook = nil
	xs := make([]uint64, t.Range(1, 4))
	wants := make([]string, len(xs))
	for i := range xs {
		xs[i] = t.U64()
		wants[i] = other(xs[i])
	}
	most := int64(t.Range(1, []int{10, 60, 200}[t.Intn(3)]))
	var done int64
	var bad atomic.Value
	univ.Hook = func() {
		if k := atomic.AddInt64(&done, 1); k <= most {
			i := int(k) % len(xs)
			if got := other(xs[i]); got != wants[i] {
				bad.CompareAndSwap(nil, fmt.Sprintf("gives %s, by itself %s", clip(got), clip(wants[i])))
			}
		}
	}
	got := act()
	univ.Hook = nil
	t.Logf("%s: %d calls, up to %d actions nested", what, calls, most)
	if bad := bad.Load(); bad != nil {
		t.Fatalf("within %s, an action %s", what, bad)
	}
	if got != want {
		t.Fatalf("%s: gives %s with other actions nested in its callbacks, by itself %s", what, clip(got), clip(want))
	}
	return true
}

func init() {
	register(&pbt.Prop{
		ID: "C32",
		Rule: "a case draws a history of sets, maps, IntSets, lazy sets or relations, runs drawn operations on them once alone and once with other operations on the same values started from within drawn calls of the elements' " +
			"Equal and Hash and of predicates, mappers, resolvers and orders, up to two levels deep, or from all of them until there are up to 200 (flood), and compares the results of all of them with those alone and all values with their models; " +
			"non-trivial: at least one nested operation ran and a collection has more than two elements",
		Assumptions: []string{"an operation that does not end is detected by the processor time it uses, or by all goroutines being blocked"},
		Scenarios: []*pbt.Scenario{
			{Name: "sets", Quick: 25000, Fn: func(t *pbt.T) { disturbSets(t, c29U(t), reenter) }},
			{Name: "maps", Quick: 20000, Fn: func(t *pbt.T) { disturbMaps(t, reenter) }},
			{Name: "big-sets", Quick: 200, Fn: big(func(t *pbt.T) { disturbSets(t, c29U(t), reenter) })},
			{Name: "intsets", Quick: 6000, Fn: func(t *pbt.T) { disturbInts(t, reenter) }},
			{Name: "lazy", Quick: 20000, Fn: func(t *pbt.T) { disturbLazy(t, reenter) }},
			{Name: "relations", Quick: 5000, Fn: func(t *pbt.T) { disturbRel(t, reenter) }},
			{Name: "flood-sets", Quick: 3000, Fn: func(t *pbt.T) { disturbSets(t, c29U(t), flood) }},
			{Name: "flood-maps", Quick: 2500, Fn: func(t *pbt.T) { disturbMaps(t, flood) }},
			{Name: "flood-lazy", Quick: 2000, Fn: func(t *pbt.T) { disturbLazy(t, flood) }},
			{Name: "flood-relations", Quick: 500, Fn: func(t *pbt.T) { disturbRel(t, flood) }},
		},
		Configs: []*pbt.Config{withShare(cfgOff, 1), cfgDeep, withShare(cfgMid, 0.3)},
	})
}
