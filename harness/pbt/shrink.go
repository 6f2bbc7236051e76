package pbt

import "sort"

// Shrink minimises a failing choice sequence. run executes a candidate and
// returns the choices it actually consumed, its spans, and whether it fails.
// more is consulted before each execution.
func Shrink(best []uint64, spans []Span, run func([]uint64) ([]uint64, []Span, bool), more func() bool) []uint64 {
	seen := map[uint64]bool{}
	try := func(c []uint64) bool {
		if !more() {
			return false
		}
		fp := Fingerprint(c)
		if seen[fp] {
			return false
		}
		seen[fp] = true
		got, sp, fail := run(c)
		if !fail || !simpler(got, best) {
			return false
		}
		best, spans = append([]uint64(nil), got...), append([]Span(nil), sp...)
		return true
	}
	cut := func(a, b int) []uint64 {
		c := append([]uint64(nil), best[:a]...)
		return append(c, best[b:]...)
	}
	for {
		before := append([]uint64(nil), best...)

		// Delete spans, largest first.
		for again := true; again && more(); {
			again = false
			ss := append([]Span(nil), spans...)
			sort.Slice(ss, func(i, j int) bool { return ss[i].B-ss[i].A > ss[j].B-ss[j].A })
			for _, s := range ss {
				if s.B > len(best) || s.A >= s.B {
					continue
				}
				if try(cut(s.A, s.B)) {
					again = true
					break
				}
			}
		}
		// Delete chunks.
		for _, k := range []int{64, 16, 8, 4, 3, 2, 1} {
			for i := len(best) - k; i >= 0 && more(); i-- {
				if i+k <= len(best) {
					try(cut(i, i+k))
				}
			}
		}
		// Zero chunks.
		for _, k := range []int{16, 4, 1} {
			for i := 0; i+k <= len(best) && more(); i += k {
				c := append([]uint64(nil), best...)
				changed := false
				for j := i; j < i+k; j++ {
					changed = changed || c[j] != 0
					c[j] = 0
				}
				if changed {
					try(c)
				}
			}
		}
		// Minimise single values.
		for i := 0; i < len(best) && more(); i++ {
			lo, hi := uint64(0), best[i]
			for lo < hi && more() && i < len(best) {
				mid := lo + (hi-lo)/2
				c := append([]uint64(nil), best...)
				c[i] = mid
				if try(c) {
					if i >= len(best) {
						break
					}
					hi = best[i]
				} else {
					lo = mid + 1
				}
			}
		}
		if !more() || Fingerprint(before) == Fingerprint(best) {
			return best
		}
	}
}

func simpler(a, b []uint64) bool {
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}
