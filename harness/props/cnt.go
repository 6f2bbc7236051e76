//go:build all || C27 || C30 || C33

package props

import "vh/pbt"

// cnt counts the calls of its methods. Each case runs alone in its process,
// and below the size from which the library uses several goroutines, so plain
// counters do.
type cnt struct{ id, h uint64 }

var cntHash, cntEqual int

func (c cnt) Hash(seed uintptr) uintptr {
	cntHash++
	if seed == 0 {
		return uintptr(c.h)
	}
	return uintptr(pbt.Mix(c.h ^ uint64(seed)))
}

func (c cnt) Equal(d cnt) bool {
	cntEqual++
	return c.id == d.id
}

// cost runs f and gives the calls it made.
func cost(f func()) (hashes, equals int) {
	h, e := cntHash, cntEqual
	f()
	return cntHash - h, cntEqual - e
}
