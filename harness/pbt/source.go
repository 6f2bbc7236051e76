// Package pbt is a small property-based testing engine: cases are functions of
// a recorded sequence of bounded choices, so every case can be replayed from,
// and shrunk through, that sequence alone.
package pbt

import (
	"fmt"
	"os"
)

// Span is a range of choices that forms one unit (a loop iteration, say).
type Span struct{ A, B int }

// Source supplies bounded choices, either pseudo-random or replayed.
type Source struct {
	state    uint64
	replay   []uint64
	isReplay bool
	rec      []uint64
	spans    []Span
	log      *os.File
}

func (s *Source) addSpan(a, b int) {
	s.spans = append(s.spans, Span{a, b})
	if s.log != nil {
		fmt.Fprintf(s.log, "s %d %d\n", a, b)
	}
}

// NewSource returns a pseudo-random source.
func NewSource(seed uint64) *Source { return &Source{state: seed} }

// NewReplay returns a source that replays choices and then yields zeros.
func NewReplay(choices []uint64) *Source { return &Source{replay: choices, isReplay: true} }

// Mix is the splitmix64 finaliser.
func Mix(z uint64) uint64 {
	z += 0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (s *Source) next() uint64 {
	s.state += 0x9e3779b97f4a7c15
	z := s.state
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Draw returns a choice in [0, n); n == 0 means the full 64-bit range.
func (s *Source) Draw(n uint64) uint64 {
	if n == 1 {
		return 0
	}
	var v uint64
	if s.isReplay {
		if p := len(s.rec); p < len(s.replay) {
			v = s.replay[p]
		}
	} else {
		v = s.next()
	}
	if n != 0 {
		v %= n
	}
	s.rec = append(s.rec, v)
	if s.log != nil {
		fmt.Fprintf(s.log, "c %d\n", v)
	}
	return v
}
