package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"frostsim.local/sim/engine"
)

// Check is the simulation that decides one property.
type Check struct {
	ID       string
	Scenario engine.Scenario
	NoBubble bool
	Quick    int // runs in the quick tier
	Thorough int
	Wall     time.Duration // of the quick tier, if more than 40 s
	Rule     string
	Real     string // components that run real code
	Stub     string // components that are stubs
	Assume   []string
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

type replayFile struct {
	Property   string           `json:"property"`
	Seed       uint64           `json:"seed"`
	Tier       string           `json:"tier"`
	HasTape    bool             `json:"has_tape"`
	Tape       []uint32         `json:"tape"`
	Violation  engine.Violation `json:"violation"`
	Minimised  bool             `json:"minimised"`
	Original   int              `json:"original_choices"`
	Reproduced bool             `json:"reproduced"`
	// Before are the runs that the same process made earlier; only for violations that depend on what the code kept from them.
	Before []uint64          `json:"before,omitempty"`
	Log    []string          `json:"log"`
	Params map[string]string `json:"params,omitempty"`
}

type stats struct {
	Runs, Trivial, Discarded int
	SimTime                  time.Duration
	Events                   int
	Faults, Notes            map[string]int
	Discards                 map[string]int
	Scheds, Hashes           []uint64
	Samples                  []string
	Choices                  int
}

type report struct {
	Index     int
	Seed      uint64
	Tape      []uint32
	Violation engine.Violation
	Before    []uint64 `json:"-"`
}

// classOf groups violations: what minimisation has to preserve.
func classOf(v engine.Violation) string { return v.Kind }

func execute(c *Check, tier string, seed uint64, tape []uint32, replay, verbose bool) engine.Result {
	return engine.Exec(c.ID, tier, c.Scenario, seed, tape, replay, verbose, !c.NoBubble)
}

func cmdWorker(args []string) int {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	base := fs.Uint64("seed", 1, "")
	from := fs.Int("from", 0, "")
	stride := fs.Int("stride", 1, "")
	to := fs.Int("to", 0, "")
	cap := fs.Duration("cap", time.Minute, "")
	trace := fs.Bool("trace", false, "print every event")
	hashes := fs.Bool("hashes", false, "print the hash of every run")
	fs.Parse(args)
	c := checks[*prop]
	out := bufio.NewWriter(os.Stdout)
	st := stats{Faults: map[string]int{}, Notes: map[string]int{}, Discards: map[string]int{}}
	known := loadKnown()
	end := time.Now().Add(*cap)
	seenS, seenH := map[uint64]bool{}, map[uint64]bool{}
	for i := *from; i < *to && time.Now().Before(end); i += *stride {
		fmt.Fprintf(out, "B %d\n", i)
		out.Flush()
		seed := engine.SeedFor(*base, *prop, i)
		res := execute(c, *tier, seed, nil, false, *trace)
		for _, l := range res.Run.Log {
			fmt.Fprintf(out, "# %s\n", l)
		}
		if *hashes {
			v := ""
			if res.Violation != nil {
				v = res.Violation.Kind + ": " + res.Violation.Detail
			}
			fmt.Fprintf(out, "H %d %s %q %q\n", i, res.Run.Hash(), res.Discarded, v)
		}
		if res.Harness != "" {
			fmt.Fprintf(out, "X %s\n", jsonLine(fmt.Sprintf("seed %d: %s", seed, res.Harness)))
			out.Flush()
			return 2
		}
		r := res.Run
		st.Runs++
		st.SimTime += r.SimTime
		st.Events += r.Events
		st.Choices += len(r.Tape)
		for k, v := range r.Faults {
			st.Faults[k] += v
		}
		for k, v := range r.Notes {
			st.Notes[k] += v
		}
		switch {
		case res.Violation != nil:
			if known.match(c.ID, *res.Violation) {
				fmt.Fprintf(out, "K %s\n", jsonLine(res.Violation))
				continue
			}
			fmt.Fprintf(out, "V %s\n", jsonLine(report{Index: i, Seed: seed, Tape: r.Tape, Violation: *res.Violation}))
			out.Flush()
			if !*hashes {
				return 0
			}
		case res.Discarded != "":
			st.Discarded++
			st.Discards[res.Discarded]++
		case r.Trivial:
			st.Trivial++
		default:
			var h uint64
			fmt.Sscanf(r.Hash()[:16], "%x", &h)
			if !seenH[h] {
				seenH[h] = true
				st.Hashes = append(st.Hashes, h)
			}
			if s := r.SchedHash(); !seenS[s] {
				seenS[s] = true
				st.Scheds = append(st.Scheds, s)
			}
			if len(st.Samples) < 2 && r.Sample != "" {
				st.Samples = append(st.Samples, fmt.Sprintf("seed %d: %s", seed, r.Sample))
			}
		}
	}
	fmt.Fprintf(out, "S %s\n", jsonLine(st))
	out.Flush()
	return 0
}

func jsonLine(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(b)
}

// ---- known findings

type knownEntry struct {
	prop string
	re   *regexp.Regexp
	text string
}

type knownList []knownEntry

// loadKnown reads lines "known: property=<id> match=/<regexp>/ <what fails>"; lines starting with "fixed:" suppress nothing.
func loadKnown() knownList {
	b, err := os.ReadFile(filepath.Join(verifDir(), "KNOWN_FINDINGS"))
	if err != nil {
		return nil
	}
	var l knownList
	re := regexp.MustCompile(`^known: property=(\S+) match=/(.*)/ (.*)$`)
	for _, s := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(s); m != nil {
			l = append(l, knownEntry{m[1], regexp.MustCompile(m[2]), m[3]})
		}
	}
	return l
}

func (l knownList) match(prop string, v engine.Violation) bool {
	for _, e := range l {
		if e.prop == prop && e.re.MatchString(v.Kind+": "+v.Detail) {
			return true
		}
	}
	return false
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

// ---- check

func cmdCheck(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Int("seed", 1, "")
	workers := fs.Int("workers", runtime.NumCPU(), "")
	runs := fs.Int("runs", 0, "")
	cap := fs.Duration("cap", 0, "")
	fs.Parse(args)
	c := checks[*prop]
	if c == nil {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", *prop)
		return 2
	}
	n, wall := c.Quick, max(40*time.Second, c.Wall)
	if *tier == "thorough" {
		n, wall = c.Thorough, 10*time.Minute
	}
	if *runs > 0 {
		n = *runs
	}
	if *cap > 0 {
		wall = *cap
	}
	start := time.Now()
	self, _ := os.Executable()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()

	var mu sync.Mutex
	var viol []report
	var sts []stats
	var harness []string
	knownHit := map[string]int{}
	var crashed []int
	var wg sync.WaitGroup
	for w := 0; w < *workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			cmd := exec.CommandContext(ctx, self, "worker", "-prop", c.ID, "-tier", *tier, "-seed", fmt.Sprint(*seed), "-from", fmt.Sprint(w),
				"-stride", fmt.Sprint(*workers), "-to", fmt.Sprint(n), "-cap", wall.String())
			var stderr bytes.Buffer
			cmd.Stderr = &stderr
			so, _ := cmd.StdoutPipe()
			if err := cmd.Start(); err != nil {
				mu.Lock()
				harness = append(harness, err.Error())
				mu.Unlock()
				return
			}
			last, done := -1, false
			wd := time.AfterFunc(wall+60*time.Second, func() { cmd.Process.Kill() })
			beat := time.AfterFunc(time.Hour, func() { cmd.Process.Kill() })
			sc := bufio.NewScanner(so)
			sc.Buffer(make([]byte, 1<<20), 1<<28)
			for sc.Scan() {
				line := sc.Text()
				if len(line) < 2 {
					continue
				}
				beat.Reset(90 * time.Second)
				mu.Lock()
				switch line[0] {
				case 'B':
					fmt.Sscan(line[2:], &last)
				case 'V':
					var r report
					json.Unmarshal([]byte(line[2:]), &r)
					viol = append(viol, r)
					done = true
					cancelSoon(cancel)
				case 'K':
					var v engine.Violation
					json.Unmarshal([]byte(line[2:]), &v)
					knownHit[v.Kind+": "+v.Detail]++
				case 'S':
					var s stats
					json.Unmarshal([]byte(line[2:]), &s)
					sts = append(sts, s)
					done = true
				case 'X':
					var s string
					json.Unmarshal([]byte(line[2:]), &s)
					harness = append(harness, s)
					done = true
				}
				mu.Unlock()
			}
			cmd.Wait()
			wd.Stop()
			beat.Stop()
			mu.Lock()
			if !done && ctx.Err() == nil {
				crashed = append(crashed, last)
				fmt.Fprintf(os.Stderr, "worker %d ended in run %d\n%s\n", w, last, tail(stderr.String(), 4000))
			}
			mu.Unlock()
		}()
	}
	wg.Wait()

	// a worker process that died: the code under test crashed outside of any call, or the simulator did
	for _, i := range crashed {
		if len(viol) > 0 || i < 0 {
			break
		}
		s := engine.SeedFor(uint64(*seed), c.ID, i)
		v, b, ok := rerunCrashed(self, c, *tier, s, before(c.ID, uint64(*seed), i, *workers))
		if !ok {
			harness = append(harness, fmt.Sprintf("run %d (seed %d) ended the worker but not when repeated, or outside of the code under test", i, s))
			continue
		}
		viol = append(viol, report{Index: i, Seed: s, Violation: v, Before: b})
	}

	code := 0
	if len(viol) > 0 {
		sort.Slice(viol, func(i, j int) bool { return viol[i].Index < viol[j].Index })
		v := viol[0]
		if v.Tape != nil {
			v.Before = before(c.ID, uint64(*seed), v.Index, *workers)
		}
		path := finishViolation(self, c, *tier, v)
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, path)
		fmt.Printf("  %s: %s (seed %d)\n", v.Violation.Kind, v.Violation.Detail, v.Seed)
		code = 1
	} else if len(harness) > 0 {
		for _, h := range harness {
			fmt.Fprintf(os.Stderr, "HARNESS %s\n", h)
		}
		code = 2
	}
	for _, e := range loadKnown() {
		if e.prop == c.ID {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.ID, e.text)
		}
	}
	writeEvidence(c, *tier, *seed, n, *workers, sts, len(viol), time.Since(start))
	return code
}

var cancelOnce sync.Once

func cancelSoon(cancel func()) {
	cancelOnce.Do(func() { time.AfterFunc(1500*time.Millisecond, cancel) })
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n/2] + "\n...\n" + s[len(s)-n/2:]
	}
	return s
}

// rerunCrashed repeats a run that ended its process and says whether the code under test is to blame.
func rerunCrashed(self string, c *Check, tier string, seed uint64, before []uint64) (engine.Violation, []uint64, bool) {
	f, err := os.CreateTemp("", "frostsim")
	if err != nil {
		return engine.Violation{}, nil, false
	}
	f.Close()
	defer os.Remove(f.Name())
	deadline := time.Now().Add(4 * time.Minute)
	for _, b := range suffixes(before) {
		data, _ := json.Marshal(replayFile{Property: c.ID, Seed: seed, Tier: tier, Before: b})
		os.WriteFile(f.Name(), data, 0o600)
		code, out := runReplay(self, f.Name(), 120*time.Second)
		if code != 1 && code != 0 && code != 3 {
			v, ok := crashViolation(out)
			return v, b, ok
		}
		if time.Now().After(deadline) {
			break
		}
	}
	return engine.Violation{}, nil, false
}

// before returns the seeds of the runs that the worker of run i had made before it.
func before(prop string, base uint64, i, workers int) []uint64 {
	var l []uint64
	for j := i % workers; j < i; j += workers {
		l = append(l, engine.SeedFor(base, prop, j))
	}
	return l
}

// suffixes returns nothing, the last seed, the last 2, 4, ... and all of l.
func suffixes(l []uint64) [][]uint64 {
	s := [][]uint64{nil}
	for k := 1; k < len(l); k *= 2 {
		s = append(s, l[len(l)-k:])
	}
	if len(l) > 0 {
		s = append(s, l)
	}
	return s
}

var codeFrame = regexp.MustCompile(`frost-ed25519/pkg/`)

func crashViolation(out string) (engine.Violation, bool) {
	i := strings.Index(out, "panic: ")
	if j := strings.Index(out, "fatal error: "); i < 0 || (j >= 0 && j < i) {
		i = j
	}
	if i < 0 {
		return engine.Violation{}, false
	}
	o := out[i:]
	// only the goroutine that crashed
	first := o
	if g := strings.Index(o, "\ngoroutine "); g >= 0 {
		first = o[g+1:]
		if e := strings.Index(first, "\n\n"); e >= 0 {
			first = first[:e]
		}
	}
	if !codeFrame.MatchString(first) {
		return engine.Violation{}, false
	}
	msg := strings.SplitN(o, "\n", 2)[0]
	var fr []string
	for _, l := range strings.Split(first, "\n") {
		if codeFrame.MatchString(l) && !strings.HasPrefix(l, "\t") && len(fr) < 4 {
			if k := strings.LastIndex(l, "("); k > 0 {
				l = l[:k]
			}
			fr = append(fr, l)
		}
	}
	return engine.Violation{Kind: "crash", Detail: fmt.Sprintf("the process ended: %s [%s]", msg, strings.Join(fr, " < "))}, true
}

func runReplay(self, file string, d time.Duration) (int, string) {
	ctx, cancel := context.WithTimeout(context.Background(), d)
	defer cancel()
	cmd := exec.CommandContext(ctx, self, "replay", file)
	b, err := cmd.CombinedOutput()
	var ee *exec.ExitError
	switch {
	case err == nil:
		return 0, string(b)
	case errors.As(err, &ee):
		return ee.ExitCode(), string(b)
	}
	return -1, string(b)
}

func finishViolation(self string, c *Check, tier string, v report) string {
	dir := filepath.Join(verifDir(), "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", c.ID, v.Seed))
	rf := replayFile{Property: c.ID, Seed: v.Seed, Tier: tier, HasTape: v.Tape != nil, Tape: v.Tape, Violation: v.Violation, Original: len(v.Tape)}
	write := func(rf replayFile) {
		b, _ := json.MarshalIndent(rf, "", " ")
		os.WriteFile(path, b, 0o644)
	}
	write(rf)
	if v.Tape != nil {
		// minimise in another process: a shorter schedule may crash it
		ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
		defer cancel()
		exec.CommandContext(ctx, self, "shrink", path).Run()
	}
	if v.Tape == nil {
		rf.Before = v.Before
		write(rf)
	}
	// the replay must give the same violation in a fresh process
	for try := 0; try < 2; try++ {
		b, _ := os.ReadFile(path)
		var cur replayFile
		if json.Unmarshal(b, &cur) != nil {
			cur = rf
		}
		code, out := runReplay(self, path, 120*time.Second)
		if code == 1 && strings.Contains(out, cur.Violation.Kind+": "+cur.Violation.Detail) {
			cur.Reproduced = true
			write(cur)
			return path
		}
		if v.Tape == nil {
			if w, ok := crashViolation(out); ok && w.Detail == cur.Violation.Detail {
				cur.Reproduced = true
				write(cur)
				return path
			}
		}
		write(rf)
	}
	if v.Tape == nil {
		return path
	}
	// or else in a process that has made the same runs before
	for deadline, l := time.Now().Add(4*time.Minute), suffixes(v.Before)[1:]; len(l) > 0 && time.Now().Before(deadline); l = l[1:] {
		rf.Before = l[0]
		write(rf)
		code, out := runReplay(self, path, 120*time.Second)
		if code == 1 && strings.Contains(out, rf.Violation.Kind+": "+rf.Violation.Detail) {
			rf.Reproduced = true
			write(rf)
			return path
		}
	}
	rf.Before = nil
	write(rf)
	return path
}

func cmdShrink(args []string) int {
	path := args[0]
	b, err := os.ReadFile(path)
	if err != nil {
		return 2
	}
	var rf replayFile
	if json.Unmarshal(b, &rf) != nil {
		return 2
	}
	c := checks[rf.Property]
	want := classOf(rf.Violation)
	known := loadKnown()
	try := func(t []uint32) bool {
		res := execute(c, rf.Tier, rf.Seed, t, true, false)
		return res.Violation != nil && classOf(*res.Violation) == want && !known.match(c.ID, *res.Violation)
	}
	if !try(rf.Tape) {
		return 3
	}
	small := engine.Minimise(rf.Tape, 25*time.Second, try)
	res := execute(c, rf.Tier, rf.Seed, small, true, true)
	if res.Violation == nil {
		return 3
	}
	rf.Tape, rf.Violation, rf.Minimised, rf.Log = small, *res.Violation, true, res.Run.Log
	b, _ = json.MarshalIndent(rf, "", " ")
	tmp := path + ".tmp"
	if os.WriteFile(tmp, b, 0o644) != nil || os.Rename(tmp, path) != nil {
		return 2
	}
	return 0
}

// cmdReplay repeats one execution exactly: exit 1 if it violates its property, 0 if not.
func cmdReplay(args []string) int {
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	c := checks[rf.Property]
	if c == nil {
		return 2
	}
	for _, s := range rf.Before {
		execute(c, rf.Tier, s, nil, false, false)
	}
	res := execute(c, rf.Tier, rf.Seed, rf.Tape, rf.HasTape, true)
	for _, l := range res.Run.Log {
		fmt.Println(l)
	}
	switch {
	case res.Harness != "":
		fmt.Println("HARNESS", res.Harness)
		return 3
	case res.Violation != nil:
		fmt.Printf("VIOLATION property=%s replay=%s\n  %s: %s\n", rf.Property, args[0], res.Violation.Kind, res.Violation.Detail)
		return 1
	case res.Discarded != "":
		fmt.Println("no verdict:", res.Discarded)
	}
	return 0
}

func writeEvidence(c *Check, tier string, seed, planned, workers int, sts []stats, violations int, wall time.Duration) {
	t := stats{Faults: map[string]int{}, Notes: map[string]int{}, Discards: map[string]int{}}
	hs, ss := map[uint64]bool{}, map[uint64]bool{}
	for _, s := range sts {
		t.Runs += s.Runs
		t.Trivial += s.Trivial
		t.Discarded += s.Discarded
		t.SimTime += s.SimTime
		t.Events += s.Events
		t.Choices += s.Choices
		for k, v := range s.Faults {
			t.Faults[k] += v
		}
		for k, v := range s.Notes {
			t.Notes[k] += v
		}
		for k, v := range s.Discards {
			t.Discards[k] += v
		}
		for _, h := range s.Hashes {
			hs[h] = true
		}
		for _, h := range s.Scheds {
			ss[h] = true
		}
		if len(t.Samples) < 6 {
			t.Samples = append(t.Samples, s.Samples...)
		}
	}
	if t.Samples == nil {
		t.Samples = []string{"none: the run was stopped by a violation"}
	}
	cov := map[string]any{
		"evaluations": t.Runs, "distinct_nontrivial": len(hs), "rule": c.Rule, "samples": t.Samples,
		"simulated_runs_planned": planned, "seeds_per_hour": int(float64(t.Runs) / wall.Hours()),
		"simulated_time_s": t.SimTime.Seconds(), "faults_injected": t.Faults, "situations": t.Notes,
		"distinct_interleavings": len(ss), "events": t.Events, "scheduler_choices": t.Choices,
		"runs_without_verdict": t.Discarded, "runs_without_verdict_reasons": t.Discards, "trivial_runs": t.Trivial,
		"real_components": c.Real, "stubbed_components": c.Stub, "workers": workers,
		"measure_of_interleavings": "distinct sequences of (step kind, sender, receiver, message type) as executed",
	}
	ev := map[string]any{"property": c.ID, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
		"assumptions": c.Assume, "wall_s": wall.Seconds(), "violations": violations}
	if c.Assume == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, c.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	fmt.Printf("%s: %d runs (%d without verdict), %d distinct, %.1f s wall, faults %v\n", c.ID, t.Runs, t.Discarded, len(hs), wall.Seconds(), t.Faults)
	if t.Discarded > 0 {
		fmt.Printf("  without verdict: %v\n", t.Discards)
	}
}

func main() {
	if len(os.Args) < 2 {
		os.Exit(2)
	}
	a := os.Args[2:]
	switch os.Args[1] {
	case "worker", "replay", "shrink":
		// one thread runs at a time, and only gives up the processor where it blocks
		if g := os.Getenv("GODEBUG"); !strings.Contains(g, "asyncpreemptoff=1") {
			os.Setenv("GODEBUG", strings.TrimPrefix(g+",asyncpreemptoff=1", ","))
			os.Setenv("GORACE", "halt_on_error=0 exitcode=0 suppress_equal_stacks=0 suppress_equal_addresses=0 log_path=stderr")
			self, err := os.Executable()
			if err == nil {
				err = syscall.Exec(self, os.Args, os.Environ())
			}
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		runtime.GOMAXPROCS(1)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(cmdCheck(a))
	case "worker":
		os.Exit(cmdWorker(a))
	case "replay":
		os.Exit(cmdReplay(a))
	case "shrink":
		os.Exit(cmdShrink(a))
	case "list":
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, " "))
		os.Exit(0)
	}
	os.Exit(2)
}
