package smallmaps

import (
	"fmt"

	"github.com/arr-ai/frozen"

	"vh/univ"
)

func init() {
	univ.RegSets[frozen.Map[string, int]]()
}

// U has small maps as values.
func U(n int) univ.Erased {
	return &univ.U[frozen.Map[string, int]]{
		Name: "Map[string,int]", N: n, Reps: 2,
		Rep: func(i, r int) frozen.Map[string, int] {
			var m frozen.Map[string, int]
			j, k := i, 0
			if r == 1 {
				m = m.With("zz", 1).With("k0", 7)
			}
			for ; j > 0; j, k = j/3, k+1 {
				if d := j % 3; d != 0 {
					m = m.With(fmt.Sprint("k", k), d)
				}
			}
			if r == 1 {
				m = m.Without("zz")
				if i%3 == 0 {
					m = m.Without("k0")
				}
			}
			return m
		},
		Idx: func(m frozen.Map[string, int]) int {
			i := 0
			seen := map[string]bool{}
			for r := m.Range(); r.Next(); {
				var k int
				if c, _ := fmt.Sscanf(r.Key(), "k%d", &k); c != 1 || seen[r.Key()] || r.Value() < 1 || r.Value() > 2 {
					return -1
				}
				seen[r.Key()] = true
				p := r.Value()
				for ; k > 0; k-- {
					p *= 3
				}
				i += p
			}
			if i < n {
				return i
			}
			return -1
		},
	}
}
