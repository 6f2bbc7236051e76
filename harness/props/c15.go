//go:build all || C15 || C22

package props

import (
	"strings"
	"vh/pbt"
	"vh/univ"

	"github.com/arr-ai/frozen"
	"github.com/arr-ai/frozen/pkg/rel"
)

func nestedSetU(t *pbt.T) univ.SetU {
	n := t.Range(3, 12)
	d := t.Range(1, 3)
	switch t.Weighted(8, 2, 2, 2, 1, 1, 1, 2, 1, 1) {
	case 0:
		return univ.Sets(anyU(t, n))
	case 1:
		return univ.Sets(nestedU(t, "Set[any]", n, func() nv[frozen.Set[any]] { return nestedSet(t, d) }))
	case 2:
		return univ.Sets(nestedU(t, "Map[any,any]", n, func() nv[frozen.Map[any, any]] { return nestedMap(t, d) }))
	case 3:
		return univ.Sets(nestedU(t, "KeyValue[any,any]", n, func() nv[frozen.KeyValue[any, any]] { return nestedKV(t, d) }))
	case 4:
		return univ.Sets(nestedU(t, "IntSet", n, func() nv[frozen.IntSet[int]] { return nestedInts(t) }))
	case 5:
		return univ.Sets(nestedU(t, "Set[int]", n, func() nv[frozen.Set[int]] { return intSet(t) }))
	case 6:
		return univ.Sets(nestedU(t, "Set[Set[int]]", n, func() nv[frozen.Set[frozen.Set[int]]] { return setOfSets(t) }))
	case 7:
		return univ.Sets(nestedU(t, "Relation", n, func() nv[rel.Relation] { return nestedRel(t, d) }))
	case 8:
		return univ.Sets(nestedU(t, "Set[Set[any]]", n, func() nv[frozen.Set[frozen.Set[any]]] { return setOfAnySets(t, d) }))
	default:
		return univ.Sets(nestedU(t, "Map[Map,Set]", n, func() nv[frozen.Map[frozen.Map[any, any], frozen.Set[any]]] { return mapOfMaps(t, d) }))
	}
}

func nestedMapU(t *pbt.T) univ.MapU {
	n, d := t.Range(3, 10), t.Range(1, 3)
	switch t.Weighted(5, 2, 2, 1, 1) {
	case 0:
		return univ.Maps(anyU(t, n), anyU(t, 4), univ.MapOpts{})
	case 1:
		return univ.Maps(nestedU(t, "Set[any]", n, func() nv[frozen.Set[any]] { return nestedSet(t, d) }), anyU(t, 4), univ.MapOpts{})
	case 2:
		return univ.Maps(nestedU(t, "Map[any,any]", n, func() nv[frozen.Map[any, any]] { return nestedMap(t, d) }),
			nestedU(t, "Relation", 4, func() nv[rel.Relation] { return nestedRel(t, d) }), univ.MapOpts{})
	case 3:
		return univ.Maps(nestedU(t, "KeyValue[any,any]", n, func() nv[frozen.KeyValue[any, any]] { return nestedKV(t, d) }),
			nestedU(t, "IntSet", 4, func() nv[frozen.IntSet[int]] { return nestedInts(t) }), univ.MapOpts{})
	default:
		return univ.Maps(nestedU(t, "Relation", n, func() nv[rel.Relation] { return nestedRel(t, d) }),
			nestedU(t, "Set[Set[any]]", 4, func() nv[frozen.Set[frozen.Set[any]]] { return setOfAnySets(t, d) }), univ.MapOpts{})
	}
}

func c15Sets(t *pbt.T)  { c02Run(t, nestedSetU(t)) }
func c15Pairs(t *pbt.T) { c04Run(t, nestedSetU(t)) }
func c15Maps(t *pbt.T)  { c11Run(t, nestedMapU(t)) }
func c15Dict(t *pbt.T)  { c09Run(t, nestedMapU(t)) }

// c15Values: single elements, keys and values.
func c15Values(t *pbt.T) {
	d := t.Range(1, 4)
	var vs []nv[any]
	t.Loop(2, 4, 7, func(int) { vs = append(vs, nested(t, d)) })
	s1, s2, seed := t.Draw(1<<16), t.Draw(1<<16), uintptr(t.Draw(1<<20))
	for i, v := range vs {
		if c := canonV(v.make(s1)); c != v.k {
			t.Fatalf("value %d reads as %s, want %s", i, c, v.k)
		}
		for j, w := range vs {
			a, b, same := v.make(s1), w.make(s2), v.k == w.k
			if same {
				t.ClassIf(i != j || strings.ContainsAny(v.k, "{(["), "same")
			}
			sa, sb := frozen.NewSet(a), frozen.NewSet(b)
			if sa.Equal(sb) != same || sb.Equal(sa) != same {
				t.Fatalf("{%s} and {%s}: equal = %v, %v; want %v", v.k, w.k, sa.Equal(sb), sb.Equal(sa), same)
			}
			if sa.Has(b) != same {
				t.Fatalf("{%s}.Has(%s) = %v", v.k, w.k, !same)
			}
			two := frozen.NewSet(a, b)
			if n := two.Count(); (n == 1) != same {
				t.Fatalf("NewSet(%s, %s).Count() = %d", v.k, w.k, n)
			}
			ma, mb := frozen.NewMap(frozen.KV[any, any](1, a)), frozen.NewMap(frozen.KV[any, any](1, b))
			if ma.Equal(mb) != same {
				t.Fatalf("(1: %s).Equal((1: %s)) = %v", v.k, w.k, !same)
			}
			ka, kb := frozen.KV[any, any](a, 1), frozen.KV[any, any](b, 1)
			if ka.Equal(kb) != same || ka.Same(kb) != same {
				t.Fatalf("%s:1 equal to %s:1: %v, %v", v.k, w.k, ka.Equal(kb), ka.Same(kb))
			}
			if _, has := frozen.NewMap(ka).Get(b); has != same {
				t.Fatalf("(%s: 1).Get(%s) finds %v", v.k, w.k, has)
			}
			if same && (sa.Hash(seed) != sb.Hash(seed) || ma.Hash(seed) != mb.Hash(seed) || ka.Hash(seed) != kb.Hash(seed)) {
				t.Fatalf("equal values %s hash differently", v.k)
			}
		}
	}
	if d > 1 {
		t.NonTrivial()
	}
}

func init() {
	register(&pbt.Prop{
		ID: "C15",
		Rule: "a case draws a universe of values nested up to four levels (sets, maps, pairs, int sets, relations, lazy sets and basic values of different types, each built along several paths; " +
			"canonical text forms, computed without the library, define equality) and checks histories of sets and maps over it, or all pairs of values; " +
			"non-trivial: values at least two levels deep, or a history of several collections with at least 3 elements",
		Scenarios: []*pbt.Scenario{
			{Name: "sets", Quick: 3000, Fn: c15Sets},
			{Name: "set-pairs", Quick: 2000, Fn: c15Pairs},
			{Name: "map-pairs", Quick: 2000, Fn: c15Maps},
			{Name: "maps", Quick: 2000, Fn: c15Dict},
			{Name: "values", Quick: 12000, Fn: c15Values},
		},
		Configs: []*pbt.Config{cfgDefault, withShare(cfgDeep, 0.1)},
	})
}
