package pbt

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

// Exit codes of worker processes.
const (
	ExitOK       = 0
	ExitFail     = 11
	ExitErr      = 12
	ExitHang     = 97
	ExitMemory   = 98
	ExitDeadlock = 99
	ExitRace     = 66
)

const (
	hangCPU      = 60 * time.Second
	deadlockWall = 80 * time.Second
	idlePeriod   = 10 * time.Second // of which the watchdog itself uses some 30 ms
	idleCPU      = 150 * time.Millisecond
	maxRSS       = 3 << 30
)

// Shared is the memory shared between the parent and its workers.
type Shared struct {
	mem []byte
}

// OpenShared maps the shared file.
func OpenShared(path string) (*Shared, error) {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o600)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	if err := f.Truncate(8192); err != nil {
		return nil, err
	}
	mem, err := syscall.Mmap(int(f.Fd()), 0, 8192, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	return &Shared{mem}, err
}

func (s *Shared) at(i int) *int64 { return (*int64)(unsafe.Pointer(&s.mem[64*i])) }

// Next takes the next item.
func (s *Shared) Next() int64 { return atomic.AddInt64(s.at(0), 1) - 1 }

// Stop asks every worker to stop.
func (s *Shared) Stop() { atomic.StoreInt64(s.at(1), 1) }

// Stopped reports whether Stop was called.
func (s *Shared) Stopped() bool { return atomic.LoadInt64(s.at(1)) != 0 }

// SetCurrent publishes the item worker w is running (-1: none).
func (s *Shared) SetCurrent(w int, item int64) { atomic.StoreInt64(s.at(2+w), item+1) }

// Current returns the item worker w is running (-1: none).
func (s *Shared) Current(w int) int64 { return atomic.LoadInt64(s.at(2+w)) - 1 }

// Done counts a finished item of worker w.
func (s *Shared) Done(w int) { atomic.AddInt64(s.at(40+w), 1) }

// Finished returns how many items worker w finished.
func (s *Shared) Finished(w int) int64 { return atomic.LoadInt64(s.at(40 + w)) }

// WorkerResult is what a worker reports.
type WorkerResult struct {
	Evaluations int
	PerScenario map[string]int
	NonTrivial  map[string]int
	Classes     map[string]int
	Samples     []Sample
	Slowest     map[string]int64 // CPU milliseconds of the slowest case
	Truncated   bool
}

// Sample is one case written out.
type Sample struct {
	Scenario string   `json:"scenario"`
	Config   string   `json:"config"`
	Case     int      `json:"case"`
	Trace    []string `json:"trace"`
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &ru) != nil {
		return 0
	}
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func rss() int64 {
	data, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	f := strings.Fields(string(data))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * int64(os.Getpagesize())
}

var caseCounter int64

// watchdog ends the process when a single case burns too much CPU, memory, or
// blocks for ever.
func watchdog() {
	last := int64(-1)
	var cpu0 time.Duration
	var busy, period time.Time // last seen busy; start of the current period
	var periodCPU time.Duration
	for {
		time.Sleep(100 * time.Millisecond)
		cur := atomic.LoadInt64(&caseCounter)
		if cur != last {
			last, cpu0, busy = cur, cpuTime(), time.Now()
			period, periodCPU = busy, cpu0
			continue
		}
		now := cpuTime()
		used := now - cpu0
		if used > hangCPU {
			fmt.Fprintf(os.Stderr, "watchdog: one case used more than %v of CPU\n", hangCPU)
			dumpStacks()
			os.Exit(ExitHang)
		}
		if now-periodCPU > idleCPU {
			busy = time.Now()
			period, periodCPU = busy, now
		} else if time.Since(period) > idlePeriod {
			period, periodCPU = time.Now(), now
		}
		if time.Since(busy) > deadlockWall {
			fmt.Fprintf(os.Stderr, "watchdog: one case blocked for more than %v\n", deadlockWall)
			dumpStacks()
			os.Exit(ExitDeadlock)
		}
		if r := rss(); r > maxRSS {
			fmt.Fprintf(os.Stderr, "watchdog: one case used %d MB of memory\n", r>>20)
			os.Exit(ExitMemory)
		}
	}
}

func dumpStacks() {
	buf := make([]byte, 16<<10)
	os.Stderr.Write(buf[:runtime.Stack(buf, true)]) //nolint:errcheck
}

func initWorker(cfg *Config) {
	debug.SetMaxStack(256 << 20)
	if cfg.Procs > 0 {
		runtime.GOMAXPROCS(cfg.Procs)
	}
	go watchdog()
}

// Worker runs items until none are left.
func Worker(p *Prop, cfg *Config, tier string, seed uint64, w int, dir string, budget time.Duration) int {
	start := time.Now()
	sh, err := OpenShared(filepath.Join(dir, "shared"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return ExitErr
	}
	initWorker(cfg)
	items := p.Items(cfg, tier)
	res := WorkerResult{PerScenario: map[string]int{}, NonTrivial: map[string]int{}, Classes: map[string]int{}, Slowest: map[string]int64{}}
	sampled := map[string]int{}
	fps := map[uint64]bool{}
	code := ExitOK
	for !sh.Stopped() {
		n := sh.Next()
		if n >= int64(len(items)) {
			break
		}
		if time.Since(start) > budget {
			res.Truncated = true
			break
		}
		it := items[n]
		sh.SetCurrent(w, n)
		atomic.AddInt64(&caseCounter, 1)
		cs := CaseSeed(seed, p.ID, it.Scen.Name, cfg.Name, it.Idx)
		cpu0 := cpuTime()
		o := Run(it.Scen.Fn, NewSource(cs), false)
		res.Slowest[it.Scen.Name] = max(res.Slowest[it.Scen.Name], (cpuTime() - cpu0).Milliseconds())
		res.Evaluations++
		res.PerScenario[it.Scen.Name]++
		for c := range o.Classes {
			res.Classes[it.Scen.Name+":"+c]++
		}
		if o.Fail {
			sh.Stop()
			writeFailure(p, cfg, seed, w, dir, n, it, o)
			code = ExitFail
			break
		}
		if o.NonTrivial {
			res.NonTrivial[it.Scen.Name]++
			fps[Fingerprint(o.Choices)^Mix(uint64(len(it.Scen.Name)))] = true
			if sampled[it.Scen.Name] < 1 && it.Idx < 40 && len(o.Choices) < 400 {
				sampled[it.Scen.Name]++
				o2 := Run(it.Scen.Fn, NewReplay(o.Choices), true)
				tr := o2.Trace
				if len(tr) > 40 {
					tr = append(tr[:40:40], fmt.Sprintf("... %d more lines", len(tr)-40))
				}
				if len(tr) > 0 {
					res.Samples = append(res.Samples, Sample{it.Scen.Name, cfg.Name, it.Idx, tr})
				}
			}
		}
		sh.Done(w)
		sh.SetCurrent(w, -1)
	}
	buf := make([]byte, 0, 8*len(fps))
	for f := range fps {
		buf = binary.LittleEndian.AppendUint64(buf, f)
	}
	if err := os.WriteFile(filepath.Join(dir, fmt.Sprintf("w%d.fps", w)), buf, 0o600); err != nil {
		return ExitErr
	}
	data, _ := json.Marshal(res)
	if err := os.WriteFile(filepath.Join(dir, fmt.Sprintf("w%d.result", w)), data, 0o600); err != nil {
		return ExitErr
	}
	return code
}

func writeFailure(p *Prop, cfg *Config, seed uint64, w int, dir string, n int64, it Item, o Outcome) {
	path := filepath.Join(dir, fmt.Sprintf("w%d.fail", w))
	save := func(choices []uint64, msg string, trace []string, note string) {
		r := Replay{
			Property: p.ID, Scenario: it.Scen.Name, Config: cfg.Name, Seed: seed, Case: it.Idx,
			Message: msg, Kind: "failure", Choices: choices, Trace: trace, Note: note,
		}
		data, _ := json.Marshal(map[string]any{"item": n, "replay": r})
		os.WriteFile(path+".tmp", data, 0o600) //nolint:errcheck
		os.Rename(path+".tmp", path)           //nolint:errcheck
	}
	save(o.Choices, o.Msg, nil, "not shrunk")
	start := time.Now()
	execs := 0
	msg := o.Msg
	best := Shrink(o.Choices, o.Spans, func(c []uint64) ([]uint64, []Span, bool) {
		execs++
		atomic.AddInt64(&caseCounter, 1)
		o := Run(it.Scen.Fn, NewReplay(c), false)
		if o.Fail {
			save(o.Choices, o.Msg, nil, "partly shrunk")
		}
		return o.Choices, o.Spans, o.Fail
	}, func() bool { return execs < 4000 && time.Since(start) < 40*time.Second })
	atomic.AddInt64(&caseCounter, 1)
	o2 := Run(it.Scen.Fn, NewReplay(best), true)
	if o2.Fail {
		save(o2.Choices, o2.Msg, o2.Trace, fmt.Sprintf("shrunk from %d to %d choices in %d runs", len(o.Choices), len(o2.Choices), execs))
	} else {
		save(o.Choices, msg, o.Trace, "fails only sometimes when replayed")
	}
}

// One runs the single case of a replay file in this process. logPath, if not
// empty, receives every choice as it is made, so it survives a crash.
func One(p *Prop, r *Replay, logPath string) int {
	cfg, sc := p.Config(r.Config), p.Scenario(r.Scenario)
	if cfg == nil || sc == nil {
		fmt.Fprintln(os.Stderr, "replay names an unknown scenario or config")
		return ExitErr
	}
	initWorker(cfg)
	atomic.AddInt64(&caseCounter, 1)
	var src *Source
	if r.Choices != nil {
		src = NewReplay(r.Choices)
	} else {
		src = NewSource(CaseSeed(r.Seed, p.ID, r.Scenario, r.Config, r.Case))
	}
	if logPath != "" {
		f, err := os.Create(logPath)
		if err != nil {
			return ExitErr
		}
		src.log = f
	}
	o := Run(sc.Fn, src, true)
	if o.Fail {
		for _, l := range o.Trace {
			fmt.Println("  " + l)
		}
		fmt.Println("FAILED: " + o.Msg)
		return ExitFail
	}
	return ExitOK
}
