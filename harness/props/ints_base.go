package props

import (
	"sort"
	"unsafe"
)

type integer interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}

func limits[I integer]() (lo, hi I) {
	var zero I
	bits := uint(unsafe.Sizeof(zero) * 8)
	if ^zero < 0 { // signed
		hi = I(uint64(1)<<(bits-1) - 1)
		return -hi - 1, hi
	}
	return 0, ^zero
}

func intList[I integer](m map[I]bool) []I {
	var is []I
	for i, in := range m {
		if in {
			is = append(is, i)
		}
	}
	sort.Slice(is, func(a, b int) bool { return is[a] < is[b] })
	return is
}
