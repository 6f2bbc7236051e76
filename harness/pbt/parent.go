package pbt

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Options configure a check run.
type Options struct {
	Tier      string
	Seed      uint64
	Bin       string // this binary
	RaceBin   string // the same, built with the race detector ("" if unused)
	Dir       string // scratch
	Evidence  string
	ReplayDir string
	KnownFile string
	Budget    time.Duration
}

// Usage of exit codes by checks: 0 held, 1 violated, 2 could not decide.
const (
	held     = 0
	violated = 1
	errored  = 2
)

type workerEnd struct {
	w      int
	code   int
	signal syscall.Signal
	stderr string
	item   int64
}

// Check runs the whole check of one property.
func Check(p *Prop, opt Options) int {
	start := time.Now()
	ev := map[string]any{}
	total := WorkerResult{PerScenario: map[string]int{}, NonTrivial: map[string]int{}, Classes: map[string]int{}, Slowest: map[string]int64{}}
	perConfig := map[string]int{}
	fps := map[uint64]bool{}
	violations := 0
	status := held

	finish := func() int {
		cov := map[string]any{
			"evaluations":              total.Evaluations,
			"distinct_nontrivial":      len(fps),
			"rule":                     p.Rule,
			"samples":                  pickSamples(total.Samples),
			"cases_per_scenario":       total.PerScenario,
			"slowest_case_cpu_ms":      total.Slowest,
			"nontrivial_per_scenario":  total.NonTrivial,
			"cases_per_configuration":  perConfig,
			"cases_per_class":          total.Classes,
			"stopped_early_by_budget":  total.Truncated,
			"configurations_available": configNames(p),
		}
		if total.Samples == nil {
			cov["samples"] = []Sample{}
		}
		ev["property"] = p.ID
		ev["tier"] = opt.Tier
		ev["seed"] = opt.Seed
		ev["level"] = "exploration"
		ev["coverage"] = cov
		ev["assumptions"] = p.Assumptions
		if p.Assumptions == nil {
			ev["assumptions"] = []string{}
		}
		ev["wall_s"] = time.Since(start).Seconds()
		ev["violations"] = violations
		data, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(opt.Evidence, append(data, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return errored
		}
		fmt.Printf("%s: %d cases (%d distinct non-trivial) in %.1fs, %d violation(s)\n",
			p.ID, total.Evaluations, len(fps), time.Since(start).Seconds(), violations)
		return status
	}

	for _, k := range p.Known {
		what, bad := runProbe(k)
		listed := isListed(opt.KnownFile, p.ID, k.Key)
		switch {
		case what == "" && !bad:
			if listed {
				fmt.Printf("note: known finding %s of %s no longer fails\n", k.Key, p.ID)
			}
		case listed && !bad:
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", p.ID, k.Key, what)
		default:
			violations++
			status = violated
			r := Replay{Property: p.ID, Scenario: "known:" + k.Key, Seed: opt.Seed, Message: what, Kind: "probe"}
			report(opt, r)
		}
	}
	if status != held {
		return finish()
	}

	for _, cfg := range p.Configs {
		if cfg.Race && opt.RaceBin == "" {
			fmt.Fprintln(os.Stderr, "race binary missing")
			status = errored
			return finish()
		}
		items := p.Items(cfg, opt.Tier)
		if len(items) == 0 {
			continue
		}
		left := opt.Budget - time.Since(start)
		if left < time.Second {
			total.Truncated = true
			fmt.Fprintf(os.Stderr, "budget used up before config %s\n", cfg.Name)
			continue
		}
		dir, err := os.MkdirTemp(opt.Dir, "cfg")
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			status = errored
			return finish()
		}
		ends, sh, err := runWorkers(p, cfg, opt, dir, left, len(items))
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			status = errored
			return finish()
		}
		t0 := total.Evaluations
		var fail *Replay
		failItem := int64(-1)
		var crashed []workerEnd
		for _, e := range ends {
			merge(&total, fps, dir, e, sh)
			data, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("w%d.fail", e.w)))
			if err == nil {
				var f struct {
					Item   int64
					Replay Replay
				}
				if json.Unmarshal(data, &f) == nil && (fail == nil || f.Item < failItem) {
					fail, failItem = &f.Replay, f.Item
				}
				continue
			}
			if e.code != ExitOK || e.signal != 0 {
				crashed = append(crashed, e)
			}
		}
		perConfig[cfg.Name] = total.Evaluations - t0
		if fail != nil {
			violations++
			status = violated
			report(opt, *fail)
			return finish()
		}
		for _, e := range crashed {
			r, verdict := investigate(p, cfg, opt, dir, items, e)
			if verdict == violated {
				violations++
				status = violated
				report(opt, r)
				return finish()
			}
		}
		if len(crashed) > 0 {
			e := crashed[0]
			fmt.Fprintf(os.Stderr, "worker %d ended with code %d signal %v; not attributable to the code under test\n%s\n",
				e.w, e.code, e.signal, tail(e.stderr, 3000))
			status = errored
			return finish()
		}
	}
	return finish()
}

func configNames(p *Prop) (names []string) {
	for _, c := range p.Configs {
		names = append(names, strings.TrimSpace(c.Name+" "+strings.Join(c.Env, " ")))
	}
	return
}

func pickSamples(ss []Sample) []Sample {
	sort.SliceStable(ss, func(i, j int) bool {
		if ss[i].Scenario != ss[j].Scenario {
			return ss[i].Scenario < ss[j].Scenario
		}
		return len(ss[i].Trace) < len(ss[j].Trace)
	})
	var out []Sample
	seen := map[string]int{}
	for _, s := range ss {
		if seen[s.Scenario] < 2 && len(s.Trace) >= 3 {
			seen[s.Scenario]++
			out = append(out, s)
		}
	}
	if len(out) == 0 {
		out = ss
	}
	if len(out) > 16 {
		out = out[:16]
	}
	return out
}

func runProbe(k Known) (what string, bad bool) {
	defer func() {
		if r := recover(); r != nil {
			what, bad = safeSprintf("panic: %v", r), true
		}
	}()
	return k.Probe(), false
}

func isListed(file, prop, key string) bool {
	data, err := os.ReadFile(file)
	if err != nil {
		return false
	}
	re := regexp.MustCompile(`(?m)^KNOWN: property=` + regexp.QuoteMeta(prop) + ` key=` + regexp.QuoteMeta(key) + `( |$)`)
	return re.Match(data)
}

func merge(total *WorkerResult, fps map[uint64]bool, dir string, e workerEnd, sh *Shared) {
	data, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("w%d.result", e.w)))
	var r WorkerResult
	if err != nil || json.Unmarshal(data, &r) != nil {
		total.Evaluations += int(sh.Finished(e.w))
		return
	}
	total.Evaluations += r.Evaluations
	for k, v := range r.PerScenario {
		total.PerScenario[k] += v
	}
	for k, v := range r.Slowest {
		total.Slowest[k] = max(total.Slowest[k], v)
	}
	for k, v := range r.NonTrivial {
		total.NonTrivial[k] += v
	}
	for k, v := range r.Classes {
		total.Classes[k] += v
	}
	total.Samples = append(total.Samples, r.Samples...)
	total.Truncated = total.Truncated || r.Truncated
	buf, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("w%d.fps", e.w)))
	if err == nil {
		for ; len(buf) >= 8; buf = buf[8:] {
			fps[binary.LittleEndian.Uint64(buf)] = true
		}
	}
}

func command(cfg *Config, opt Options, args ...string) *exec.Cmd {
	bin := opt.Bin
	if cfg.Race {
		bin = opt.RaceBin
	}
	cmd := exec.Command(bin, args...)
	env := []string{}
	for _, kv := range os.Environ() {
		switch k, _, _ := strings.Cut(kv, "="); k {
		case "FROZEN_CONCURRENCY", "GOMAXPROCS", "GOGC", "GOMEMLIMIT", "GODEBUG", "GOTRACEBACK", "GORACE":
		default:
			env = append(env, kv)
		}
	}
	env = append(env, "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0")
	cmd.Env = append(env, cfg.Env...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	return cmd
}

func workers() int {
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	if n < 2 {
		n = 2
	}
	return n
}

func runWorkers(p *Prop, cfg *Config, opt Options, dir string, left time.Duration, items int) ([]workerEnd, *Shared, error) {
	sh, err := OpenShared(filepath.Join(dir, "shared"))
	if err != nil {
		return nil, nil, err
	}
	n := workers()
	if cfg.Race && cfg.Procs > 2 {
		n = (n + 1) / 2
	}
	if items < n {
		n = items
	}
	ends := make([]workerEnd, n)
	var wg sync.WaitGroup
	var cmds []*exec.Cmd
	var startErr error
	for w := 0; w < n; w++ {
		cmd := command(cfg, opt, "worker", "-prop", p.ID, "-config", cfg.Name, "-tier", opt.Tier,
			"-seed", fmt.Sprint(opt.Seed), "-w", fmt.Sprint(w), "-dir", dir, "-budget", left.String())
		var stderr bytes.Buffer
		cmd.Stderr = &stderr
		cmd.Stdout = &stderr
		runtime.LockOSThread() // Pdeathsig follows the starting thread
		if err := cmd.Start(); err != nil {
			startErr = err
			break
		}
		cmds = append(cmds, cmd)
		w := w
		wg.Add(1)
		go func() {
			defer wg.Done()
			err := cmd.Wait()
			e := workerEnd{w: w, item: sh.Current(w)}
			if err != nil {
				e.code = -1
				if x, is := err.(*exec.ExitError); is {
					ws := x.Sys().(syscall.WaitStatus)
					if ws.Signaled() {
						e.signal = ws.Signal()
					} else {
						e.code = ws.ExitStatus()
					}
				}
				sh.Stop()
			}
			e.stderr = stderr.String()
			ends[w] = e
		}()
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(left + 250*time.Second):
		for _, c := range cmds {
			c.Process.Kill() //nolint:errcheck
		}
		<-done
	}
	if startErr != nil {
		return nil, nil, startErr
	}
	return ends, sh, nil
}

// end classifies how a process that ran one case ended.
func end(err error, out string) (kind string, blame bool) {
	if err == nil {
		return "", false
	}
	x, is := err.(*exec.ExitError)
	if !is {
		return "start", false
	}
	ws := x.Sys().(syscall.WaitStatus)
	if ws.Signaled() {
		return "signal", false
	}
	return classify(ws.ExitStatus(), out)
}

func classify(code int, out string) (kind string, blame bool) {
	switch code {
	case ExitFail:
		return "failure", true
	case ExitHang:
		return "hang", true
	case ExitMemory:
		return "runaway memory", true
	case ExitDeadlock:
		return "deadlock", true
	case ExitRace:
		if strings.Contains(out, "DATA RACE") {
			return "data race", true
		}
		return "exit 66", false
	case 2:
		if strings.Contains(out, "out of memory") || strings.Contains(out, "cannot allocate memory") ||
			strings.Contains(out, "failed to create new OS thread") {
			return "resources", false
		}
		if strings.Contains(out, "fatal error: ") || strings.Contains(out, "panic: ") ||
			strings.Contains(out, "goroutine stack exceeds") || strings.Contains(out, "unexpected fault") {
			return "crash", true
		}
	}
	return fmt.Sprintf("exit %d", code), false
}

// investigate decides what a dead worker means: the case it was running is run
// again in fresh processes, shrunk there, and reported if the code under test
// is to blame.
func investigate(p *Prop, cfg *Config, opt Options, dir string, items []Item, e workerEnd) (Replay, int) {
	kind, blame := "signal", false
	if e.signal == 0 {
		kind, blame = classify(e.code, e.stderr)
	}
	if e.item < 0 || e.item >= int64(len(items)) || (!blame && e.signal == 0) {
		return Replay{}, errored
	}
	it := items[e.item]
	r := Replay{
		Property: p.ID, Scenario: it.Scen.Name, Config: cfg.Name, Seed: opt.Seed, Case: it.Idx,
		Kind: kind, Message: tail(e.stderr, 6000),
	}
	if len(e.stderr) > 6000 {
		r.Message = e.stderr[:3000] + "\n...\n" + tail(e.stderr, 3000)
	}
	file := filepath.Join(dir, "one.json")
	logPath := filepath.Join(dir, "one.log")
	runOne := func(r Replay) (string, bool, string) {
		data, _ := json.Marshal(r)
		os.WriteFile(file, data, 0o600) //nolint:errcheck
		os.Remove(logPath)
		cmd := command(cfg, opt, "one", "-file", file, "-log", logPath)
		var buf bytes.Buffer
		cmd.Stdout, cmd.Stderr = &buf, &buf
		err := cmd.Run()
		k, b := end(err, buf.String())
		return k, b, buf.String()
	}
	tries := 3
	if kind == "hang" || kind == "deadlock" || kind == "runaway memory" {
		tries = 1
	}
	confirmed := false
	var out string
	for i := 0; i < tries && !confirmed; i++ {
		var k string
		k, confirmed, out = runOne(r)
		if confirmed {
			r.Kind = k
		}
	}
	if !confirmed {
		// A schedule-dependent report that names the code under test stands.
		if (kind == "data race" || kind == "crash") && blame && strings.Contains(e.stderr, "arr-ai/frozen") {
			r.Note = "schedule-dependent: did not recur in " + fmt.Sprint(tries) + " re-runs"
			return r, violated
		}
		return Replay{}, errored
	}
	if len(out) > 6000 {
		out = out[:3000] + "\n...\n" + tail(out, 3000)
	}
	r.Message = out
	best, spans := readLog(logPath)
	if len(best) == 0 || r.Kind == "hang" || r.Kind == "deadlock" || r.Kind == "runaway memory" {
		r.Note = "not shrunk; the case is identified by its seed"
		return r, violated
	}
	start, n0 := time.Now(), len(best)
	min := Shrink(best, spans, func(c []uint64) ([]uint64, []Span, bool) {
		rr := r
		rr.Choices = append([]uint64{}, c...)
		k, b, _ := runOne(rr)
		got, sp := readLog(logPath)
		return got, sp, b && k == r.Kind
	}, func() bool { return time.Since(start) < 60*time.Second })
	rr := r
	rr.Choices = append([]uint64{}, min...)
	if k, b, out := runOne(rr); b {
		rr.Kind, rr.Message = k, out
		if len(out) > 6000 {
			rr.Message = out[:3000] + "\n...\n" + tail(out, 3000)
		}
		rr.Note = fmt.Sprintf("shrunk from %d to %d choices", n0, len(min))
		return rr, violated
	}
	return r, violated
}

func readLog(path string) (choices []uint64, spans []Span) {
	data, err := os.ReadFile(path)
	if err != nil {
		return nil, nil
	}
	for _, l := range strings.Split(string(data), "\n") {
		var a, b uint64
		if n, _ := fmt.Sscanf(l, "c %d", &a); n == 1 {
			choices = append(choices, a)
		} else if n, _ := fmt.Sscanf(l, "s %d %d", &a, &b); n == 2 {
			spans = append(spans, Span{int(a), int(b)})
		}
	}
	return
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func report(opt Options, r Replay) {
	os.MkdirAll(opt.ReplayDir, 0o755) //nolint:errcheck
	path := filepath.Join(opt.ReplayDir, fmt.Sprintf("%s-%016x.json", r.Property,
		Fingerprint(r.Choices)^Mix(uint64(len(r.Message)))^CaseSeed(r.Seed, r.Property, r.Scenario, r.Config, r.Case)))
	data, _ := json.MarshalIndent(r, "", " ")
	if err := os.WriteFile(path, append(data, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	fmt.Printf("%s in scenario %s, configuration %s, case %d\n", r.Kind, r.Scenario, r.Config, r.Case)
	for _, l := range r.Trace {
		fmt.Println("  " + l)
	}
	fmt.Println(r.Message)
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, path)
}

// ReplayFile runs one replay file again, in the process configuration that it
// names, and exits like a check.
func ReplayFile(p *Prop, r *Replay, file, bin, race string) int {
	fail := func(msg string) int {
		fmt.Println(msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, file)
		return violated
	}
	if key, is := strings.CutPrefix(r.Scenario, "known:"); is {
		for _, k := range p.Known {
			if k.Key == key {
				if what, _ := runProbe(k); what != "" {
					return fail(what)
				}
			}
		}
		fmt.Println("does not fail")
		return held
	}
	cfg := p.Config(r.Config)
	if cfg == nil {
		fmt.Fprintf(os.Stderr, "replay names an unknown configuration %q\n", r.Config)
		return errored
	}
	for i := 0; i < 3; i++ { // schedules may matter
		var buf bytes.Buffer
		cmd := command(cfg, Options{Bin: bin, RaceBin: race}, "one", "-file", file)
		cmd.Stdout, cmd.Stderr = &buf, &buf
		if kind, blame := end(cmd.Run(), buf.String()); kind != "" {
			if !blame {
				fmt.Fprintf(os.Stderr, "%s\n%s\n", kind, tail(buf.String(), 3000))
				return errored
			}
			return fail(kind + "\n" + buf.String())
		}
	}
	fmt.Println("does not fail")
	return held
}
