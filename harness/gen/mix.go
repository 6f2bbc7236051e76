package gen

import (
	"fmt"

	"github.com/arr-ai/frozen"

	"vh/inst/intsets"
	"vh/inst/setints"
	"vh/inst/smallmaps"
	"vh/pbt"
	"vh/univ"
)

// KVU has KeyValues; those with equal keys collide completely, because a
// KeyValue hashes by its key.
func KVU(t *pbt.T, n int) *univ.U[frozen.KeyValue[int, string]] {
	keys := t.Range(1, 4)
	if t.Big {
		keys = n/t.Range(1, 16) + 1
	}
	return &univ.U[frozen.KeyValue[int, string]]{
		Name: "KeyValue", N: n, Reps: 1,
		Rep: func(i, _ int) frozen.KeyValue[int, string] {
			return frozen.KV(i%keys, fmt.Sprint("v", i/keys))
		},
		Idx: func(kv frozen.KeyValue[int, string]) int {
			var j int
			if m, _ := fmt.Sscanf(kv.Value, "v%d", &j); m != 1 {
				return -1
			}
			if i := j*keys + kv.Key; kv.Key >= 0 && kv.Key < keys && i < n {
				return i
			}
			return -1
		},
	}
}

// MixU mixes basic and collection types under any; equal-looking values of
// different types are different values.
func MixU(n int) *univ.U[any] {
	si, mi, ii := setints.U(1<<20), smallmaps.U(1<<20), intsets.U(1<<20)
	const kinds = 14
	rep := func(i, r int) any {
		j := i / kinds
		switch i % kinds {
		case 0:
			return j
		case 1:
			return int64(j)
		case 2:
			return fmt.Sprint(j)
		case 3:
			return float64(j)
		case 4:
			return univ.RepOf(si, j, r%univ.RepsOf(si))
		case 5:
			return univ.RepOf(mi, j, r%univ.RepsOf(mi))
		case 6:
			return univ.ElS{ID: j, H: uint64(j % 2), Tag: r}
		case 7:
			if j < 256 {
				return uint8(j)
			}
			return uint32(j)
		case 8:
			return univ.Pt{X: j}
		case 9:
			return frozen.KV[any, any](j/2, j%2)
		case 10:
			return univ.ElA{ID: j, H: uint64(j % 2), Tag: r}
		case 11:
			return univ.RepOf(ii, j, r%univ.RepsOf(ii))
		case 12:
			return [1]int{j}
		default:
			return uint64(j)
		}
	}
	idx := func(v any) int {
		j, k := -1, 0
		switch v := v.(type) {
		case int:
			j, k = v, 0
		case int64:
			j, k = int(v), 1
		case string:
			if c, _ := fmt.Sscanf(v, "%d", &j); c != 1 {
				return -1
			}
			k = 2
		case float64:
			j, k = int(v), 3
		case univ.ElS:
			j, k = v.ID, 6
		case uint8:
			j, k = int(v), 7
		case uint32:
			j, k = int(v), 7
			if j < 256 {
				return -1
			}
		case univ.Pt:
			j, k = v.X, 8
		case frozen.KeyValue[any, any]:
			a, ok1 := v.Key.(int)
			b, ok2 := v.Value.(int)
			if !ok1 || !ok2 {
				return -1
			}
			j, k = a*2+b, 9
		case univ.ElA:
			j, k = v.ID, 10
		case [1]int:
			j, k = v[0], 12
		case uint64:
			j, k = int(v), 13
		default:
			for c, u := range map[int]univ.Erased{4: si, 5: mi, 11: ii} {
				if i, is := univ.IdxOf(u, v); is {
					j, k = i, c
				}
			}
		}
		if j < 0 {
			return -1
		}
		if i := j*kinds + k; i < n {
			return i
		}
		return -1
	}
	return &univ.U[any]{Name: "any(mixed)", N: n, Reps: 4, Rep: rep, Idx: idx}
}

// NilU has nil as value 0 besides other dynamic values.
func NilU(n int) *univ.U[any] {
	m := MixU(1 << 20)
	return &univ.U[any]{
		Name: "any(nil)", N: n, Reps: m.Reps,
		Rep: func(i, r int) any {
			if i == 0 {
				return nil
			}
			return m.Rep(i-1, r)
		},
		Idx: func(v any) int {
			if v == nil {
				return 0
			}
			if i := m.Idx(v); i >= 0 && i+1 < n {
				return i + 1
			}
			return -1
		},
	}
}
