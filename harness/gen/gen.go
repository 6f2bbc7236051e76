// Package gen draws universes.
package gen

import (
	"vh/inst/intsets"
	"vh/inst/setints"
	"vh/inst/smallmaps"
	"vh/pbt"
	"vh/univ"
)

// GenN draws a universe size: mostly small, sometimes hundreds.
func GenN(t *pbt.T) int {
	if t.Big {
		n := 1 << uint(t.Range(7, 12))
		return n + t.Intn(n/2)
	}
	switch t.Weighted(6, 5, 3, 1) {
	case 0:
		return t.Range(3, 8)
	case 1:
		return t.Range(6, 24)
	case 2:
		return t.Range(20, 70)
	default:
		return t.Range(60, 400)
	}
}

// GenSetU draws a set universe of about n values.
func GenSetU(t *pbt.T, n int) univ.SetU {
	// Custom hashes dominate: they reach every tree shape.
	k := t.Weighted(10, 4, 3, 2, 5, 3, 2, 2, 1, 1, 1, 3, 2, 1, 1, 3)
	var u univ.SetU
	switch k {
	case 0:
		u = univ.Sets(univ.ElU(univ.Hashes(t, n)))
	case 1:
		u = univ.Sets(univ.ElSU(univ.Hashes(t, n)))
	case 2:
		u = univ.Sets(univ.ElCU(univ.Hashes(t, n)))
	case 3:
		u = univ.Sets(univ.ElPU(univ.Hashes(t, n)))
	case 4:
		u = univ.Sets(univ.AnyElU(univ.Hashes(t, n)))
	case 5:
		u = univ.Sets(univ.IntU(t, n))
	case 6:
		u = univ.Sets(univ.StringU(t, n))
	case 7:
		u = univ.Sets(univ.FloatU(t, n))
	case 8:
		u = univ.Sets(univ.PtU(n))
	case 9:
		u = univ.Sets(univ.ArrU(n))
	case 10:
		u = univ.Sets(univ.Int8U(n))
	case 11:
		u = univ.Sets(KVU(t, n))
	case 12:
		u = univ.Sets(setints.U(n))
	case 13:
		u = univ.Sets(smallmaps.U(n))
	case 14:
		u = univ.Sets(intsets.U(n))
	case 15:
		u = univ.Sets(MixU(n))
	}
	t.Class("elem:" + u.Name())
	t.Logf("universe %s of %d values", u.Name(), u.N())
	return u
}

// GenHashedSetU draws a universe with controlled hashes.
func GenHashedSetU(t *pbt.T, n int) univ.SetU {
	var u univ.SetU
	switch t.Weighted(5, 2, 1, 2) {
	case 0:
		u = univ.Sets(univ.ElU(univ.Hashes(t, n)))
	case 1:
		u = univ.Sets(univ.ElSU(univ.Hashes(t, n)))
	case 2:
		u = univ.Sets(univ.ElCU(univ.Hashes(t, n)))
	default:
		u = univ.Sets(univ.AnyElU(univ.Hashes(t, n)))
	}
	t.Logf("universe %s of %d values", u.Name(), u.N())
	return u
}

// GenRef draws a value of the universe.
func GenRef(t *pbt.T, u univ.SetU) univ.Ref {
	r := univ.Ref{I: t.Intn(u.N())}
	if u.Reps() > 1 {
		r.R = t.Intn(u.Reps())
	}
	return r
}

// GenMapU draws a map universe of about n keys and vn values. With values that
// support equality only if eq, and hashing only if hash.
func GenMapU(t *pbt.T, n, vn int, eq, hash bool) univ.MapU {
	var u univ.MapU
	for u == nil || eq && !u.Comparable() || hash && !u.Hashable() {
		switch t.Weighted(8, 4, 3, 4, 3, 3, 2, 2, 2, 3, 2, 2, 2) {
		case 0:
			u = univ.Maps(univ.ElU(univ.Hashes(t, n)), univ.ZeroIntU(vn), univ.MapOpts{})
		case 1:
			u = univ.Maps(univ.ElSU(univ.Hashes(t, n)), univ.ElU(univ.Hashes(t, vn)), univ.MapOpts{})
		case 2:
			u = univ.Maps(univ.ElCU(univ.Hashes(t, n)), univ.StringU(t, vn), univ.MapOpts{})
		case 3:
			u = univ.Maps(univ.AnyElU(univ.Hashes(t, n)), MixU(vn), univ.MapOpts{})
		case 4:
			u = univ.Maps(univ.IntU(t, n), univ.ZeroIntU(vn), univ.MapOpts{})
		case 5:
			u = univ.Maps(univ.StringU(t, n), MixU(vn), univ.MapOpts{})
		case 6:
			u = univ.Maps(univ.ElU(univ.Hashes(t, n)), univ.SliceU(vn), univ.MapOpts{NoEqual: true})
		case 7:
			u = univ.Maps(MixU(n), NilU(vn), univ.MapOpts{NoHash: true})
		case 8:
			u = univ.Maps(setints.U(n), univ.ElSU(univ.Hashes(t, vn)), univ.MapOpts{})
		case 9:
			u = univ.Maps(KVU(t, n), univ.ElCU(univ.Hashes(t, vn)), univ.MapOpts{})
		case 10:
			u = univ.Maps(univ.FloatU(t, n), univ.PtU(vn), univ.MapOpts{})
		case 11:
			u = univ.Maps(univ.PtU(n), setints.U(vn), univ.MapOpts{})
		case 12:
			u = univ.Maps(univ.Int8U(n), univ.FloatU(t, vn), univ.MapOpts{})
		}
	}
	t.Class("map:" + u.Name())
	t.Logf("map universe %s of %d keys, %d values", u.Name(), u.Keys().N(), u.Vals().N())
	return u
}

// GenExtSetU is GenSetU, restricted to universes with the extended operations.
func GenExtSetU(t *pbt.T, n int) univ.SetU {
	var u univ.SetU
	switch t.Weighted(6, 2, 2, 1, 3) {
	case 0:
		u = univ.Sets(univ.ElU(univ.Hashes(t, n)))
	case 1:
		u = univ.Sets(univ.AnyElU(univ.Hashes(t, n)))
	case 2:
		u = univ.Sets(univ.IntU(t, n))
	case 3:
		u = univ.Sets(univ.StringU(t, n))
	default:
		u = univ.Sets(MixU(n))
	}
	t.Class("elem:" + u.Name())
	t.Logf("universe %s of %d values", u.Name(), u.N())
	return u
}
