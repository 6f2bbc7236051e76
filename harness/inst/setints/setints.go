package setints

import (
	"github.com/arr-ai/frozen"

	"vh/univ"
)

func init() {
	univ.RegSets[frozen.Set[int]]()
}

// U has sets of small ints as values: value i is the set of one-bits
// of i. Representations are built along different paths.
func U(n int) univ.Erased {
	return &univ.U[frozen.Set[int]]{
		Name: "Set[int]", N: n, Reps: 4,
		Rep: func(i, r int) frozen.Set[int] {
			var s frozen.Set[int]
			switch r {
			case 0:
				for b := 0; i>>b != 0; b++ {
					if i>>b&1 != 0 {
						s = s.With(b)
					}
				}
			case 1:
				for b := 30; b >= 0; b-- {
					if i>>b&1 != 0 {
						s = s.With(b)
					}
				}
			case 2:
				var b frozen.SetBuilder[int]
				for k := 20; k >= 0; k-- {
					b.Add(k)
				}
				for k := 0; k <= 20; k++ {
					if i>>k&1 == 0 {
						b.Remove(k)
					}
				}
				s = b.Finish()
			case 3:
				for k := 0; k <= 20; k++ {
					s = s.With(k)
				}
				for k := 0; k <= 20; k++ {
					if i>>k&1 == 0 {
						s = s.Without(k)
					}
				}
			}
			return s
		},
		Idx: func(s frozen.Set[int]) int {
			m := 0
			for r := s.Range(); r.Next(); {
				if v := r.Value(); v < 0 || v > 30 || m>>v&1 != 0 {
					return -1
				} else {
					m |= 1 << v
				}
			}
			if m < n {
				return m
			}
			return -1
		},
	}
}
