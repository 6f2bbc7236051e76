package univ

import (
	"fmt"
	"math"
	"strings"

	"vh/pbt"
)

// U is a universe of N pairwise distinct values of type T.
type U[T any] struct {
	Name string
	N    int
	Reps int              // representations per value
	Rep  func(i, r int) T // representation r of value i
	Idx  func(v T) int    // index of a value, -1 if not of the universe
	H    []uint64         // controlled hashes, if any
}

// Ref names one representation of one value.
type Ref struct{ I, R int }

// At returns the value for a reference.
func (u *U[T]) At(r Ref) T { return u.Rep(r.I, r.R%u.Reps) }

// Erased is any *U[T].
type Erased interface {
	name() string
	rep(i, r int) any
	idx(v any) (int, bool)
	reps() int
}

func (u *U[T]) name() string     { return u.Name }
func (u *U[T]) rep(i, r int) any { return u.Rep(i, r) }
func (u *U[T]) reps() int        { return u.Reps }
func (u *U[T]) idx(v any) (int, bool) {
	x, is := v.(T)
	if !is {
		return -1, false
	}
	return u.Idx(x), true
}

// RepOf, IdxOf and RepsOf look into an erased universe.
func RepOf(u Erased, i, r int) any      { return u.rep(i, r) }
func IdxOf(u Erased, v any) (int, bool) { return u.idx(v) }
func RepsOf(u Erased) int               { return u.reps() }

func checkUniv[T any](u *U[T]) *U[T] {
	if u.Reps == 0 {
		u.Reps = 1
	}
	return u
}

func ElU(hs []uint64) *U[El] {
	return &U[El]{
		Name: "El", N: len(hs), Reps: 3, H: hs,
		Rep: func(i, r int) El { return El{ID: i, H: hs[i], Tag: r, W: pbt.Mix(uint64(i) + 77), C: 1} },
		Idx: func(e El) int {
			if e.ID >= 0 && e.ID < len(hs) && e.H == hs[e.ID] {
				return e.ID
			}
			return -1
		},
	}
}

func ElSU(hs []uint64) *U[ElS] {
	return &U[ElS]{
		Name: "ElS", N: len(hs), Reps: 3, H: hs,
		Rep: func(i, r int) ElS { return ElS{ID: i, H: hs[i], Tag: r} },
		Idx: func(e ElS) int {
			if e.ID >= 0 && e.ID < len(hs) && e.H == hs[e.ID] {
				return e.ID
			}
			return -1
		},
	}
}

func ElCU(hs []uint64) *U[ElC] {
	return &U[ElC]{
		Name: "ElC", N: len(hs), Reps: 1, H: hs,
		Rep: func(i, r int) ElC { return ElC{ID: i, H: hs[i]} },
		Idx: func(e ElC) int {
			if e.ID >= 0 && e.ID < len(hs) && e.H == hs[e.ID] {
				return e.ID
			}
			return -1
		},
	}
}

func ElPU(hs []uint64) *U[*ElP] {
	return &U[*ElP]{
		Name: "*ElP", N: len(hs), Reps: 2, H: hs,
		Rep: func(i, r int) *ElP { return &ElP{ID: i, H: hs[i]} },
		Idx: func(e *ElP) int {
			if e != nil && e.ID >= 0 && e.ID < len(hs) && e.H == hs[e.ID] {
				return e.ID
			}
			return -1
		},
	}
}

// AnyElU mixes the custom types, with controlled hashes, under any. Values of
// different types with the same ID are different values.
func AnyElU(hs []uint64) *U[any] {
	u := &U[any]{Name: "any(El*)", N: len(hs), Reps: 3, H: hs}
	u.Rep = func(i, r int) any {
		switch i % 3 {
		case 0:
			return ElS{ID: i / 3, H: hs[i], Tag: r}
		case 1:
			return ElA{ID: i / 3, H: hs[i], Tag: r}
		default:
			return ElC{ID: i / 3, H: hs[i]}
		}
	}
	u.Idx = func(v any) int {
		i := -1
		switch v := v.(type) {
		case ElS:
			i = v.ID * 3
		case ElA:
			i = v.ID*3 + 1
		case ElC:
			i = v.ID*3 + 2
		}
		if i < len(hs) {
			return i
		}
		return -1
	}
	return u
}

// IntU has distinct ints in one of several layouts.
func IntU(t *pbt.T, n int) *U[int] {
	vals := make([]int, n)
	style := t.Intn(5)
	salt := pbt.Mix(t.Draw(1 << 16))
	for i := range vals {
		switch style {
		case 0:
			vals[i] = i
		case 1:
			vals[i] = i - n/2
		case 2:
			vals[i] = i * 64
		case 3:
			vals[i] = int(pbt.Mix(salt^uint64(i))&^0xffff) + i
		case 4:
			if vals[i] = math.MaxInt - i/2; i%2 == 1 {
				vals[i] = math.MinInt + i/2
			}
		}
	}
	idx := make(map[int]int, n)
	for i, v := range vals {
		idx[v] = i
	}
	return &U[int]{
		Name: "int", N: n, Reps: 1,
		Rep: func(i, _ int) int { return vals[i] },
		Idx: lookup(idx),
	}
}

func lookup[T comparable](idx map[T]int) func(T) int {
	return func(v T) int {
		if i, has := idx[v]; has {
			return i
		}
		return -1
	}
}

// StringU has distinct strings: empty, short, long, unicode, with common
// prefixes.
func StringU(t *pbt.T, n int) *U[string] {
	style := t.Intn(3)
	vals := make([]string, n)
	idx := make(map[string]int, n)
	for i := range vals {
		switch style {
		case 0:
			vals[i] = strings.Repeat("a", i%50) + strings.Repeat("b", i/50)
		case 1:
			vals[i] = fmt.Sprintf("k%d", i)
		case 2:
			vals[i] = strings.Repeat("pre\x00\u00e9", 6) + fmt.Sprint(i)
		}
		idx[vals[i]] = i
	}
	if len(idx) != n {
		panic("StringU: not distinct")
	}
	return &U[string]{
		Name: "string", N: n, Reps: 1,
		Rep: func(i, _ int) string {
			s := vals[i]
			return string(append([]byte(nil), s...)) // a different backing array
		},
		Idx: lookup(idx),
	}
}

// FloatU has distinct float64s; zero has both signs as representations.
func FloatU(t *pbt.T, n int) *U[float64] {
	special := []float64{0, math.Inf(1), math.Inf(-1), math.MaxFloat64, math.SmallestNonzeroFloat64, 1, -1, 0.1, 1 << 53}
	vals := make([]float64, n)
	idx := make(map[float64]int, n)
	for i := range vals {
		if i < len(special) {
			vals[i] = special[i]
		} else {
			vals[i] = float64(i) + 0.25
		}
		idx[vals[i]] = i
	}
	return &U[float64]{
		Name: "float64", N: n, Reps: 2,
		Rep: func(i, r int) float64 {
			if i == 0 && r == 1 {
				return math.Copysign(0, -1)
			}
			return vals[i]
		},
		Idx: lookup(idx),
	}
}

// Pt is a plain comparable struct without methods.
type Pt struct {
	X int
	Y string
}

func PtU(n int) *U[Pt] {
	val := func(i, _ int) Pt { return Pt{X: i / 3, Y: strings.Repeat("y", i%3)} }
	idx := map[Pt]int{}
	for i := 0; i < n; i++ {
		idx[val(i, 0)] = i
	}
	return &U[Pt]{Name: "struct", N: n, Reps: 1, Rep: val, Idx: lookup(idx)}
}

func ArrU(n int) *U[[2]int16] {
	val := func(i, _ int) [2]int16 { return [2]int16{int16(i % 5), int16(i / 5)} }
	idx := map[[2]int16]int{}
	for i := 0; i < n; i++ {
		idx[val(i, 0)] = i
	}
	return &U[[2]int16]{Name: "array", N: n, Reps: 1, Rep: val, Idx: lookup(idx)}
}

func Int8U(n int) *U[int8] {
	if n > 256 {
		n = 256
	}
	return &U[int8]{
		Name: "int8", N: n, Reps: 1,
		Rep: func(i, _ int) int8 { return int8(i - 128) },
		Idx: func(v int8) int {
			if i := int(v) + 128; i < n {
				return i
			}
			return -1
		},
	}
}
