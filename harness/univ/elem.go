// Package univ provides element universes: families of pairwise distinct
// values with several representations each, whose identity (index) is known
// independently of the library's own equality and hashing, and type-erased
// views of frozen collections over them.
package univ

import "vh/pbt"

func mixSeed(h uint64, seed uintptr) uintptr {
	if seed == 0 {
		return uintptr(h)
	}
	return uintptr(pbt.Mix(h ^ pbt.Mix(uint64(seed))))
}

// Hook, if set, is called by the equality and hash functions below.
var Hook func()

// Tick calls Hook.
func Tick() {
	if Hook != nil {
		Hook()
	}
}

// El has typed equality by ID and a controlled hash. Tag does not take part.
type El struct {
	ID  int
	H   uint64
	Tag int
	W   uint64
	C   int
}

func (e El) Equal(f El) bool             { Tick(); return e.ID == f.ID }
func (e El) Hash(seed uintptr) uintptr   { Tick(); return mixSeed(e.H, seed) }
func (e ElS) Hash(seed uintptr) uintptr  { Tick(); return mixSeed(e.H, seed) }
func (e ElC) Hash(seed uintptr) uintptr  { Tick(); return mixSeed(e.H, seed) }
func (e ElA) Hash(seed uintptr) uintptr  { Tick(); return mixSeed(e.H, seed) }
func (e *ElP) Hash(seed uintptr) uintptr { Tick(); return mixSeed(e.H, seed) }

// ElS has dynamic equality by ID.
type ElS struct {
	ID  int
	H   uint64
	Tag int
}

func (e ElS) Same(a any) bool {
	Tick()
	f, is := a.(ElS)
	return is && e.ID == f.ID
}

// ElC is comparable with ==.
type ElC struct {
	ID int
	H  uint64
}

// ElA has Equal(any).
type ElA struct {
	ID  int
	H   uint64
	Tag int
}

func (e ElA) Equal(a any) bool {
	Tick()
	f, is := a.(ElA)
	return is && e.ID == f.ID
}

// ElP is used through pointers, with typed equality; two pointers to equal
// contents are equal.
type ElP struct {
	ID int
	H  uint64
}

func (e *ElP) Equal(f *ElP) bool { Tick(); return e.ID == f.ID }

// Hashes draws n hashes in one of several styles, from well distributed to
// fully colliding.
func Hashes(t *pbt.T, n int) []uint64 {
	hs := make([]uint64, n)
	salt := pbt.Mix(t.Draw(1 << 16))
	rnd := func(i int) uint64 { return pbt.Mix(salt ^ uint64(i)*0x9e37) }
	style := t.Weighted(3, 3, 2, 2, 4, 1, 1, 1)
	switch style {
	case 0: // well distributed
		for i := range hs {
			hs[i] = rnd(i)
		}
	case 1: // one value
		h := []uint64{0, ^uint64(0), rnd(0), 1, 1 << 63}[t.Intn(5)]
		for i := range hs {
			if hs[i] = h; i > 300 { // large buckets take quadratic time
				hs[i] = rnd(i / 100)
			}
		}
	case 2: // few values
		k := t.Range(1, 4)
		if n > 400 {
			k *= n / 100
		}
		for i := range hs {
			hs[i] = rnd(int(rnd(i+1000) % uint64(k)))
		}
	case 3: // shared prefix
		bits := uint(t.Range(1, 63))
		if n > 400 && bits > 56 {
			bits -= 7
		}
		p := rnd(-1)
		for i := range hs {
			hs[i] = p&^(1<<(64-bits)-1) | rnd(i)>>bits
		}
	case 4: // prefix tree: each copies some octal digits of an earlier one
		drawn := n <= 40
		for i := range hs {
			if i == 0 {
				hs[i] = rnd(0)
				continue
			}
			var j, d int
			if drawn {
				j = i - 1 - t.Intn(min(i, 4))
				d = t.Weighted(2, 2, 1, 1, 3, 3, 4)
			} else {
				x := rnd(i + 5000)
				j = i - 1 - int(x%uint64(min(i, 8)))
				d = int(x >> 32 % 7)
			}
			digits := []int{0, 1, 2, 10, 20, 21, 22}[d]
			keep := uint(digits * 3)
			if keep >= 64 {
				hs[i] = hs[j]
			} else {
				low := uint64(1)<<(64-keep) - 1
				if keep == 0 {
					low = ^uint64(0)
				}
				hs[i] = hs[j]&^low | rnd(i)&low
			}
		}
	case 5: // only the low bits differ
		sh := uint(t.Range(0, 4))
		for i := range hs {
			hs[i] = uint64(i) << sh
		}
	case 6: // only the first digit differs
		for i := range hs {
			if hs[i] = uint64(i%8) << 61; i > 1000 {
				hs[i] |= rnd(i/400) >> 3
			}
		}
	case 7: // sequential digits from the top
		for i := range hs {
			hs[i] = uint64(i%8)<<61 | uint64(i/8%8)<<58 | uint64(i/64)<<50
		}
	}
	if t.Tracing() {
		if n <= 40 {
			t.Logf("hash style %d: %x", style, hs)
		} else {
			t.Logf("hash style %d", style)
		}
	}
	switch style {
	case 1, 2, 4:
		t.Class("hash:collisions")
	case 0:
		t.Class("hash:good")
	default:
		t.Class("hash:clustered")
	}
	return hs
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}
