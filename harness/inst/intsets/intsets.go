package intsets

import (
	"github.com/arr-ai/frozen"

	"vh/univ"
)

func init() {
	univ.RegSets[frozen.IntSet[int]]()
}

// U has IntSets as values.
func U(n int) univ.Erased {
	return &univ.U[frozen.IntSet[int]]{
		Name: "IntSet", N: n, Reps: 2,
		Rep: func(i, r int) frozen.IntSet[int] {
			var is []int
			for b := 0; i>>b != 0; b++ {
				if i>>b&1 != 0 {
					is = append(is, b*40)
				}
			}
			if r == 0 {
				return frozen.NewIntSet(is...)
			}
			var s frozen.IntSet[int]
			s = s.With(1000)
			for k := len(is) - 1; k >= 0; k-- {
				s = s.With(is[k])
			}
			return s.Without(1000)
		},
		Idx: func(s frozen.IntSet[int]) int {
			m := 0
			for r := s.Range(); r.Next(); {
				v := r.Value()
				if v < 0 || v%40 != 0 || v/40 > 30 || m>>(v/40)&1 != 0 {
					return -1
				}
				m |= 1 << (v / 40)
			}
			if m < n {
				return m
			}
			return -1
		},
	}
}
