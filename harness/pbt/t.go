package pbt

import (
	"fmt"
	"os"
	"runtime/debug"
	"strings"
	"sync"
)

// T is the context of one generated case.
type T struct {
	Src        *Source
	tracing    bool
	trace      []string
	classes    map[string]bool
	nonTrivial bool
	// Big asks the generators for universes of hundreds to thousands of values.
	Big bool
	mu  sync.Mutex
}

type failure struct{ msg string }

// Failed reports whether a recovered value is the engine's own failure signal.
func Failed(r any) bool {
	_, is := r.(*failure)
	return is
}

// Draw returns a choice in [0, n); 0 is the simplest.
func (t *T) Draw(n uint64) uint64 { return t.Src.Draw(n) }

// U64 returns any 64-bit value.
func (t *T) U64() uint64 { return t.Src.Draw(0) }

// Intn returns a choice in [0, n).
func (t *T) Intn(n int) int {
	if n <= 0 {
		panic("pbt: Intn of non-positive")
	}
	return int(t.Src.Draw(uint64(n)))
}

// Range returns a choice in [lo, hi]; lo is the simplest.
func (t *T) Range(lo, hi int) int { return lo + t.Intn(hi-lo+1) }

// Bool returns a fair choice; false is the simplest.
func (t *T) Bool() bool { return t.Src.Draw(2) == 1 }

// Chance is true num times in den; false is the simplest.
func (t *T) Chance(num, den int) bool { return t.Intn(den) >= den-num }

// Weighted returns index i with probability proportional to ws[i]; the first
// index of non-zero weight is the simplest.
func (t *T) Weighted(ws ...int) int {
	sum := 0
	for _, w := range ws {
		sum += w
	}
	v := t.Intn(sum)
	for i, w := range ws {
		if v < w {
			return i
		}
		v -= w
	}
	panic("pbt: weighted")
}

// Size returns a size in [lo, hi], biased towards lo.
func (t *T) Size(lo, hi int) int {
	span := hi - lo
	switch t.Weighted(5, 3, 2) {
	case 0:
		if span > 4 {
			span = 4
		}
	case 1:
		if span > 12 {
			span = 12
		}
	}
	return t.Range(lo, lo+span)
}

// Loop runs f on average avg more times after min times, at most max times.
// Every iteration is a span that the shrinker can delete.
func (t *T) Loop(min, avg, max int, f func(i int)) {
	for i := 0; i < max; i++ {
		start := len(t.Src.rec)
		if i >= min && t.Src.Draw(uint64(avg)+1) == 0 {
			return
		}
		f(i)
		t.Src.addSpan(start, len(t.Src.rec))
	}
}

// Group marks the choices drawn by f as one unit.
func (t *T) Group(f func()) {
	start := len(t.Src.rec)
	f()
	t.Src.addSpan(start, len(t.Src.rec))
}

// Tracing reports whether Logf records anything.
func (t *T) Tracing() bool { return t.tracing }

// Logf adds a line to the readable trace of the case.
func (t *T) Logf(format string, args ...any) {
	if t.tracing {
		t.mu.Lock()
		defer t.mu.Unlock()
		if len(t.trace) < 3000 {
			s := fmt.Sprintf(format, args...)
			if len(s) > 600 {
				s = s[:600] + "..."
			}
			t.trace = append(t.trace, s)
		}
	}
}

// Class counts the case under a label.
func (t *T) Class(name string) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.classes == nil {
		t.classes = map[string]bool{}
	}
	t.classes[name] = true
}

// ClassIf is Class(name) if cond.
func (t *T) ClassIf(cond bool, name string) {
	if cond {
		t.Class(name)
	}
}

// NonTrivial marks the case as non-trivial by the property's rule.
func (t *T) NonTrivial() { t.nonTrivial = true }

// Fatalf fails the case.
func (t *T) Fatalf(format string, args ...any) {
	msg := safeSprintf(format, args...)
	if len(msg) > 4000 {
		msg = msg[:4000] + "..."
	}
	panic(&failure{msg: msg})
}

// Check fails the case unless cond.
func (t *T) Check(cond bool, format string, args ...any) {
	if !cond {
		t.Fatalf(format, args...)
	}
}

func safeSprintf(format string, args ...any) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = format + " (arguments cannot be rendered)"
		}
	}()
	return fmt.Sprintf(format, args...)
}

// Recover runs f and returns what it panicked with, letting the engine's own
// failures through.
func Recover(f func()) (r any, panicked bool) {
	done := false
	defer func() {
		if !done {
			r = recover()
			if Failed(r) {
				panic(r)
			}
			panicked = true
		}
	}()
	f()
	done = true
	return nil, false
}

// Panics fails the case unless f panics, and returns the panic value.
func (t *T) Panics(what string, f func()) any {
	r, p := Recover(f)
	if !p {
		t.Fatalf("%s: expected a panic, got none", what)
	}
	return r
}

// Parallel runs fs concurrently and fails the case with the first failure.
func (t *T) Parallel(fs ...func()) {
	var wg sync.WaitGroup
	rs := make([]any, len(fs))
	for i, f := range fs {
		i, f := i, f
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					if !Failed(r) {
						r = &failure{msg: panicMsg(r)}
					}
					rs[i] = r
				}
			}()
			f()
		}()
	}
	wg.Wait()
	for _, r := range rs {
		if r != nil {
			panic(r)
		}
	}
}

func panicMsg(r any) string {
	msg := safeSprintf("panic: %v", r)
	if len(msg) > 1000 {
		msg = msg[:1000] + "..."
	}
	lines := strings.Split(string(debug.Stack()), "\n")
	start := 0
	for i, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			start = i
		}
	}
	lines = lines[start:]
	if len(lines) > 24 {
		lines = lines[:24]
	}
	return msg + "\n" + strings.Join(lines, "\n")
}

// Outcome is the result of one case.
type Outcome struct {
	Fail       bool
	Msg        string
	Choices    []uint64
	Spans      []Span
	Trace      []string
	Classes    map[string]bool
	NonTrivial bool
}

// HarnessError, when panicked with, says that the harness itself is broken.
type HarnessError string

// Run runs one case.
func Run(fn func(*T), src *Source, tracing bool) (o Outcome) {
	t := &T{Src: src, tracing: tracing}
	defer func() {
		o.Choices = src.rec
		o.Spans = src.spans
		o.Trace = t.trace
		o.Classes = t.classes
		o.NonTrivial = t.nonTrivial
	}()
	defer func() {
		if r := recover(); r != nil {
			if h, is := r.(HarnessError); is {
				fmt.Fprintln(os.Stderr, "harness error:", string(h))
				os.Exit(ExitErr)
			}
			o.Fail = true
			if f, is := r.(*failure); is {
				o.Msg = f.msg
			} else {
				o.Msg = panicMsg(r)
			}
		}
	}()
	fn(t)
	return
}

// Fingerprint hashes a choice sequence.
func Fingerprint(choices []uint64) uint64 {
	h := uint64(len(choices))
	for _, c := range choices {
		h = Mix(h ^ c)
	}
	return h
}
