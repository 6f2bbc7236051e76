package el

import (
	"vh/univ"
)

func init() {
	univ.RegSetsX[univ.El, univ.ElS]()
	univ.ElReducers = func(set univ.Set) (es [2]univ.El, oks [2]bool) {
		s := univ.RawAs[univ.El](set)
		add := func(a, b univ.El) univ.El { return univ.El{W: a.W + b.W, C: a.C + b.C} }
		es[0], oks[0] = s.Reduce2(add)
		es[1], oks[1] = s.Reduce(func(es ...univ.El) univ.El {
			var acc univ.El
			for _, x := range es {
				acc = add(acc, x)
			}
			return acc
		})
		return
	}
}
