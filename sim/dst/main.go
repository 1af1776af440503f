package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"verif/sim/simrt"
)

// plan is how many runs each tier makes of each property, and the wall-clock
// cap of the search in seconds.
type plan struct{ quick, thorough int }

var plans = map[string]plan{
	"C01": {40000, 960000},
	"C02": {90000, 2160000},
	"C03": {50000, 1200000},
	"C04": {50000, 1200000},
	"C05": {50000, 1200000},
	"C06": {24000, 576000},
	"C07": {50000, 1200000},
	"C08": {10000, 240000},
	"C09": {30000, 720000},
	"C10": {35000, 840000},
	"C11": {70000, 1680000},
	"C12": {20000, 480000},
	"C13": {90000, 2160000},
	"C14": {140000, 3360000},
	"C15": {140000, 3360000},
	"C17": {60000, 1440000},
	"C18": {60000, 1440000},
	"C19": {60000, 1440000},
	"C20": {30000, 720000},
	"C21": {25000, 600000},
	"C22": {28000, 672000},
	"C23": {18000, 450000},
}

const (
	quickWall    = 150
	thoroughWall = 780
)

// Found is one failing run.
type Found struct {
	Index int    `json:"index"`
	Class string `json:"class"`
	Msg   string `json:"msg"`
	Case  *Case  `json:"case,omitempty"`
}

// Report is what a worker sends back.
type Report struct {
	Stats    *Stats
	Sigs     []uint64
	Execs    []uint64
	Found    []Found
	Foreign  []Found
	Mismatch string
	Rechecks int
	Capped   bool
	Sample   []string
	Nontriv  int
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: dst check|worker|replay|minimise|one ...")
		os.Exit(2)
	}
	proto := os.Stdout
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	cmd, args := os.Args[1], os.Args[2:]
	switch cmd {
	case "check":
		os.Exit(check(args))
	case "worker":
		os.Stdout = null // the code under test prints reports
		os.Exit(worker(args, proto))
	case "replay":
		os.Stdout = null
		os.Exit(replay(args, proto))
	case "minimise":
		os.Stdout = null
		os.Exit(minimise(args, proto))
	case "one":
		os.Stdout = null
		os.Exit(one(args, proto))
	case "digests":
		os.Stdout = null
		os.Exit(digests(args, proto))
	}
	fmt.Fprintln(os.Stderr, "unknown command", cmd)
	os.Exit(2)
}

// worker executes runs w, w+n, w+2n, ... of a property.
func worker(args []string, out io.Writer) int {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	w := fs.Int("w", 0, "")
	n := fs.Int("n", 1, "")
	runs := fs.Int("runs", 100, "")
	secs := fs.Int("secs", 60, "")
	recheck := fs.Int("recheck", 40, "")
	keepGoing := fs.Bool("keepgoing", false, "")
	fs.Parse(args)
	debug.SetGCPercent(400)
	start := time.Now()
	rep := &Report{Stats: NewStats()}
	sigs, execs := map[uint64]bool{}, map[uint64]bool{}
	bw := bufio.NewWriter(out)
	defer bw.Flush()
	for i := *w; i < *runs; i += *n {
		if time.Since(start) > time.Duration(*secs)*time.Second {
			rep.Capped = true
			break
		}
		fmt.Fprintf(bw, "p %d\n", i)
		bw.Flush()
		cs, rng := Generate(*prop, runSeed(*seed, *prop, i), i)
		r := Execute(cs, rng, false)
		rep.Stats.Add(r.Stats)
		if !sigs[r.Sig] && r.Stats.Ops > 1 {
			sigs[r.Sig] = true
			rep.Sigs = append(rep.Sigs, r.Sig)
		}
		if !execs[r.Digest] && r.Stats.Ops > 1 {
			execs[r.Digest] = true
			rep.Execs = append(rep.Execs, r.Digest)
		}
		if len(rep.Sample) < 1 && r.Fail == nil && r.Stats.Ops > 3 && nops(cs) < 40 {
			rep.Sample = append(rep.Sample, describe(cs, r))
		}
		if (i / *n)%*recheck == 0 || r.Fail != nil {
			c2 := clone(cs)
			c2.Sched, c2.Faults, c2.Lats = r.Sched, r.Faults, r.Lats
			r2 := Execute(c2, nil, true)
			rep.Rechecks++
			rep.Stats.Replayed++
			if r2.Digest != r.Digest || failText(r2.Fail) != failText(r.Fail) {
				rep.Mismatch = fmt.Sprintf("run %d of %s: replay diverged from the original execution: %s vs %s", i, *prop, failText(r2.Fail), failText(r.Fail))
				break
			}
		}
		if r.Fail == nil {
			continue
		}
		f := Found{Index: i, Class: r.Fail.Class, Msg: r.Fail.Msg}
		if accepts(*prop, f.Class) {
			c2 := clone(cs)
			c2.Sched, c2.Faults, c2.Lats = r.Sched, r.Faults, r.Lats
			f.Case = c2
			rep.Found = append(rep.Found, f)
			if !*keepGoing {
				break
			}
		} else {
			rep.Stats.Foreign[f.Class]++
			if len(rep.Foreign) < 5 {
				rep.Foreign = append(rep.Foreign, f)
			}
		}
	}
	b, err := json.Marshal(rep)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	bw.WriteString("r ")
	bw.Write(b)
	bw.WriteString("\n")
	return 0
}

func failText(f *simrt.Failure) string {
	if f == nil {
		return "no failure"
	}
	return f.Class + ": " + f.Msg
}

func describe(cs *Case, r *Result) string {
	var ops []string
	for i, rd := range cs.Rounds {
		for _, l := range rd.Setup {
			for _, o := range l {
				ops = append(ops, fmt.Sprintf("setup%d:%s(%d,%d)", i, o.K, o.A, o.B))
			}
		}
		for c, l := range rd.Ops {
			for _, o := range l {
				ops = append(ops, fmt.Sprintf("c%d:%s(%d,%d)", c, o.K, o.A, o.B))
			}
		}
		if rd.Crash != nil {
			ops = append(ops, fmt.Sprintf("crash in #%d (step %d, callback %d)", rd.Crash.Op, rd.Crash.Step, rd.Crash.Cb))
		}
		for _, o := range rd.End {
			ops = append(ops, fmt.Sprintf("end%d:%s(%d)", i, o.K, o.A))
		}
	}
	c := cs.Cfg
	return fmt.Sprintf("run %d seed %x: engine=%s capacities=%v clients->trees=%v keys=%d %s cache=%v[%d,%d] alloc=%s strategy=%v faults=%d crashes=%d switches=%d simulated=%v ops: %s",
		cs.Index, cs.Seed, c.Engine, c.MaxKeys, c.TreeOf, c.KeyN, c.KeyKind, !c.NoCache, c.Low, c.High, c.Alloc, c.Strat, len(r.Faults), r.Stats.Crashes, r.Stats.Switches, time.Duration(r.Stats.SimNS), strings.Join(ops, " "))
}

func loadCase(path string) (*Case, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	c := &Case{}
	return c, json.Unmarshal(b, c)
}

// replay re-executes a recorded case; exit 1 when the recorded violation
// happens again exactly, 0 when nothing fails, 3 when something else fails.
func replay(args []string, out io.Writer) int {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	trace := fs.Bool("trace", false, "")
	fs.Parse(args)
	cs, err := loadCase(fs.Arg(0))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	r := Execute(cs, nil, *trace)
	if *trace {
		for _, l := range r.Trace {
			fmt.Fprintln(out, l)
		}
	}
	if r.Fail == nil {
		fmt.Fprintln(out, "replay: no violation")
		return 0
	}
	fmt.Fprintf(out, "replay: %s\n", failText(r.Fail))
	if *trace && r.Fail.Stack != "" {
		fmt.Fprintln(out, r.Fail.Stack)
	}
	if r.Fail.Class == cs.Class && r.Fail.Msg == cs.Violation && fmt.Sprintf("%016x", r.Digest) == cs.Digest {
		fmt.Fprintln(out, "replay: identical to the recorded execution")
		return 1
	}
	return 3
}

// one generates and runs a single seed, for development.
func one(args []string, out io.Writer) int {
	fs := flag.NewFlagSet("one", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	i := fs.Int("i", 0, "")
	trace := fs.Bool("trace", false, "")
	verify := fs.Bool("verify", false, "")
	fs.Parse(args)
	simrt.TraceSwitches = *verify
	cs, rng := Generate(*prop, runSeed(*seed, *prop, *i), *i)
	r := Execute(cs, rng, *trace || *verify)
	if *verify {
		c2 := clone(cs)
		c2.Sched, c2.Faults, c2.Lats = r.Sched, r.Faults, r.Lats
		r2 := Execute(c2, nil, true)
		for i := range r.Trace {
			if i >= len(r2.Trace) || r.Trace[i] != r2.Trace[i] {
				lo := i - 12
				if lo < 0 {
					lo = 0
				}
				for j := lo; j < i+6; j++ {
					a, b := "-", "-"
					if j < len(r.Trace) {
						a = r.Trace[j]
					}
					if j < len(r2.Trace) {
						b = r2.Trace[j]
					}
					fmt.Fprintf(out, "%s    ||    %s\n", a, b)
				}
				break
			}
		}
		fmt.Fprintf(out, "%016x %016x\n", r.Digest, r2.Digest)
		return 0
	}
	for _, l := range r.Trace {
		fmt.Fprintln(out, l)
	}
	fmt.Fprintln(out, describe(cs, r))
	fmt.Fprintf(out, "digest %016x %s\n", r.Digest, failText(r.Fail))
	if r.Fail != nil {
		fmt.Fprintln(out, r.Fail.Stack)
	}
	return 0
}

// digests prints the digest of a range of runs (determinism self-test).
func digests(args []string, out io.Writer) int {
	fs := flag.NewFlagSet("digests", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	n := fs.Int("n", 50, "")
	fs.Parse(args)
	for i := 0; i < *n; i++ {
		cs, rng := Generate(*prop, runSeed(*seed, *prop, i), i)
		r := Execute(cs, rng, false)
		fmt.Fprintf(out, "%s %d %016x %016x %s\n", *prop, i, r.Digest, r.Sig, failText(r.Fail))
	}
	return 0
}

// minimise shrinks a case file in place.
func minimise(args []string, out io.Writer) int {
	fs := flag.NewFlagSet("minimise", flag.ExitOnError)
	secs := fs.Int("secs", 40, "")
	fs.Parse(args)
	debug.SetGCPercent(400)
	cs, err := loadCase(fs.Arg(0))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	r0 := Execute(cs, nil, false)
	if r0.Fail == nil {
		fmt.Fprintln(os.Stderr, "the case does not fail")
		return 2
	}
	m := &minimiser{best: cs, class: r0.Fail.Class, until: time.Now().Add(time.Duration(*secs) * time.Second)}
	m.run()
	c := m.best
	c.Trace = nil
	r := Execute(c, nil, true)
	c.Class, c.Violation, c.Digest = r.Fail.Class, r.Fail.Msg, fmt.Sprintf("%016x", r.Digest)
	c.Trace = r.Trace
	if len(c.Trace) > 600 {
		c.Trace = append([]string{fmt.Sprintf("... %d earlier events", len(c.Trace)-600)}, c.Trace[len(c.Trace)-600:]...)
	}
	b, _ := json.MarshalIndent(c, "", " ")
	if err := os.WriteFile(fs.Arg(0), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Fprintf(out, "minimised in %d executions to %d calls, %d schedule decisions, %d faults, %d latencies\n", m.tries, nops(c), len(c.Sched), len(c.Faults), len(c.Lats))
	return 0
}

type workerState struct {
	cmd  *exec.Cmd
	last time.Time
	at   string
	rep  *Report
	err  error
	done bool
}

func check(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Int64("seed", 1, "")
	verif := fs.String("verif", "/verif", "")
	runs := fs.Int("runs", 0, "")
	nw := fs.Int("workers", 0, "")
	fs.Parse(args)
	if _, ok := props[*prop]; !ok {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		return 2
	}
	start := time.Now()
	workers := *nw
	if workers == 0 {
		workers = runtime.NumCPU()
		if workers > 8 {
			workers = 8
		}
	}
	total, wall := plans[*prop].quick, quickWall
	if *tier == "thorough" {
		total, wall = plans[*prop].thorough, thoroughWall
	}
	if s, err := strconv.Atoi(os.Getenv("VERIF_WALL")); err == nil && s > 0 {
		wall = s
	}
	if *runs > 0 {
		total = *runs
	}
	if total == 0 {
		total = 2000
	}
	self, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	known, err := loadKnown(filepath.Join(*verif, "known_findings.txt"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	ws := make([]*workerState, workers)
	type msg struct {
		w    int
		line string
		end  bool
		err  error
	}
	ch := make(chan msg, 64)
	for i := range ws {
		a := []string{"worker", "-prop", *prop, "-seed", fmt.Sprint(uint64(*seed)), "-w", fmt.Sprint(i), "-n", fmt.Sprint(workers), "-runs", fmt.Sprint(total), "-secs", fmt.Sprint(wall)}
		if known.has(*prop) {
			a = append(a, "-keepgoing")
		}
		c := exec.Command(self, a...)
		c.Env = append(os.Environ(), "GOMAXPROCS=1", "GOMEMLIMIT=3GiB")
		c.Stderr = os.Stderr
		p, err := c.StdoutPipe()
		if err == nil {
			err = c.Start()
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		ws[i] = &workerState{cmd: c, last: time.Now()}
		go func(i int, c *exec.Cmd, p io.Reader) {
			rd := bufio.NewReaderSize(p, 1<<20)
			for {
				l, err := rd.ReadString('\n')
				if strings.HasSuffix(l, "\n") { // (a line cut off: the worker was ended while writing it)
					ch <- msg{w: i, line: l}
				}
				if err != nil {
					break
				}
			}
			ch <- msg{w: i, end: true, err: c.Wait()}
		}(i, c, p)
	}
	killAll := func() {
		for _, w := range ws {
			if !w.done {
				w.cmd.Process.Kill()
			}
		}
	}
	left := workers
	stopped := false
	tick := time.NewTicker(2 * time.Second)
	var trouble string
	for left > 0 {
		select {
		case m := <-ch:
			w := ws[m.w]
			w.last = time.Now()
			if m.end {
				w.done = true
				left--
				if w.rep == nil && !stopped && trouble == "" {
					trouble = fmt.Sprintf("worker %d ended without a report (%v) after %s", m.w, m.err, strings.TrimSpace(w.at))
					killAll()
				}
				continue
			}
			switch m.line[0] {
			case 'p':
				w.at = "run " + m.line[2:]
			case 'r':
				rep := &Report{}
				if err := json.Unmarshal([]byte(m.line[2:]), rep); err != nil {
					trouble = err.Error()
					killAll()
					continue
				}
				w.rep = rep
				if len(rep.Found) > 0 && !known.has(*prop) || rep.Mismatch != "" {
					stopped = true
					killAll()
				}
			}
		case <-tick.C:
			for i, w := range ws {
				if !w.done && time.Since(w.last) > 120*time.Second && trouble == "" {
					trouble = fmt.Sprintf("worker %d makes no progress at %s", i, strings.TrimSpace(w.at))
					killAll()
				}
			}
		}
	}
	if trouble != "" {
		fmt.Fprintln(os.Stderr, "check error:", trouble)
		return 2
	}
	st := NewStats()
	sigs, execs := map[uint64]bool{}, map[uint64]bool{}
	var found, foreign []Found
	var samples []string
	rechecks := 0
	capped := false
	for _, w := range ws {
		if w.rep == nil {
			continue
		}
		st.Add(w.rep.Stats)
		for _, s := range w.rep.Sigs {
			sigs[s] = true
		}
		for _, s := range w.rep.Execs {
			execs[s] = true
		}
		found = append(found, w.rep.Found...)
		foreign = append(foreign, w.rep.Foreign...)
		samples = append(samples, w.rep.Sample...)
		rechecks += w.rep.Rechecks
		capped = capped || w.rep.Capped
		if w.rep.Mismatch != "" {
			fmt.Fprintln(os.Stderr, "check error: not deterministic:", w.rep.Mismatch)
			return 2
		}
	}
	sort.Slice(found, func(i, j int) bool { return found[i].Index < found[j].Index })
	sort.Slice(foreign, func(i, j int) bool { return foreign[i].Index < foreign[j].Index })
	for i, f := range foreign {
		if i < 3 {
			fmt.Printf("NOTE: run %d was abandoned because it violates another property first (%s: %s)\n", f.Index, f.Class, firstLine(f.Msg))
		}
	}
	var bad *Found
	hits := map[string]int{}
	for i := range found {
		if k := known.match(*prop, found[i]); k != "" {
			hits[k]++
			continue
		}
		bad = &found[i]
		break
	}
	for _, k := range known.of(*prop) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, k)
	}
	viol := 0
	code := 0
	if bad != nil {
		viol = 1
		code = 1
		path, err := report(self, *verif, *prop, *seed, bad, *tier)
		if err != nil {
			fmt.Fprintln(os.Stderr, "check error:", err)
			return 2
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
	} else {
		nf := int64(0)
		for k, n := range st.Foreign {
			if !strings.HasPrefix(k, "continued:") {
				nf += n
			}
		}
		if st.Runs == 0 || nf*2 > st.Runs {
			fmt.Fprintf(os.Stderr, "check error: %d of %d runs could not be completed because they violate another property first\n", nf, st.Runs)
			return 2
		}
	}
	wallS := time.Since(start).Seconds()
	if err := evidence(*verif, *prop, *tier, *seed, st, len(execs), len(sigs), samples, rechecks, capped, viol, wallS, total, hits); err != nil {
		fmt.Fprintln(os.Stderr, "check error:", err)
		return 2
	}
	if code == 0 {
		fmt.Printf("property %s held on %d simulated runs (%d calls, %d distinct interleavings, %d crashes, %d injected faults) in %.0f s\n", *prop, st.Runs, st.Ops, len(sigs), st.Crashes, sum(st.Fired), wallS)
	}
	return code
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func sum(m map[string]int64) int64 {
	n := int64(0)
	for _, v := range m {
		n += v
	}
	return n
}

// report minimises a violation in a process of its own, writes the replay
// file and requires a fresh process to reproduce it exactly.
func report(self, verif, prop string, seed int64, f *Found, tier string) (string, error) {
	dir := filepath.Join(verif, "replays")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return "", err
	}
	path := filepath.Join(dir, fmt.Sprintf("%s-seed%d-run%d.json", prop, seed, f.Index))
	write := func(c *Case) error {
		b, err := json.MarshalIndent(c, "", " ")
		if err != nil {
			return err
		}
		return os.WriteFile(path, b, 0o644)
	}
	secs := 40
	if tier == "thorough" {
		secs = 300
	}
	env := append(os.Environ(), "GOMAXPROCS=1", "GOMEMLIMIT=6GiB")
	var out []byte
	for _, s := range []int{secs, 0} {
		if err := write(f.Case); err != nil {
			return "", err
		}
		c := exec.Command(self, "minimise", "-secs", fmt.Sprint(s), path)
		c.Env = env
		c.Stderr = os.Stderr
		o, err := c.Output()
		if err != nil {
			out = o
			continue
		}
		fmt.Print(string(o))
		c = exec.Command(self, "replay", path)
		c.Env = env
		out, err = c.Output()
		if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 1 {
			fmt.Print(string(out))
			return path, nil
		}
		if ok := err != nil && strings.HasPrefix(string(out), "replay: "+f.Class+": "); ok && s == 0 {
			// The code under test does something the simulator does not control (a map of its own, say).
			// The violation happened again all the same when replayed.
			fmt.Print(string(out))
			fmt.Println("note: the replay fails in the same way but is not identical event by event")
			return path, nil
		}
	}
	return "", fmt.Errorf("the violation %q does not replay exactly: %s", firstLine(f.Msg), out)
}

func evidence(verif, prop, tier string, seed int64, st *Stats, distinct, inter int, samples []string, rechecks int, capped bool, viol int, wall float64, planned int, hits map[string]int) error {
	sort.Strings(samples)
	if len(samples) > 3 {
		samples = samples[:3]
	}
	perHour := 0.0
	if wall > 0 {
		perHour = math.Round(float64(st.Runs) / wall * 3600)
	}
	cov := map[string]interface{}{
		"evaluations":                           st.Runs,
		"distinct_nontrivial":                   distinct,
		"rule":                                  "one case = one seeded simulated execution (configuration, calls, schedule, faults and crash instants all drawn from the seed). Counted as distinct and non-trivial: it executed at least two calls and the digest of its whole event trace (calls, results, stored and discarded nodes, faults, clock) differs from every other run of this check",
		"distinct_interleavings":                inter,
		"interleaving_measure":                  "hash of the sequence of context switches (task, call, statements executed in it); runs without a second runnable task share one",
		"samples":                               samples,
		"planned_runs":                          planned,
		"stopped_by_wall_clock":                 capped,
		"simulated_runs_and_seeds_per_hour":     perHour,
		"simulated_time":                        time.Duration(st.SimNS).String(),
		"simulated_process_lifetimes":           st.Runs + st.Crashes,
		"calls_executed":                        st.Ops,
		"calls_by_kind":                         st.OpKinds,
		"storage_and_codec_callbacks":           st.Calls,
		"faults_fired":                          st.Fired,
		"crashes":                               st.Crashes,
		"context_switches":                      st.Switches,
		"preemptions_between_statements":        st.Preempts,
		"blocked_waits":                         st.Blocks,
		"background_goroutines_started_by_code": st.Spawns,
		"scheduling_events":                     st.Events,
		"histories":                             map[string]interface{}{"calls_judged_by_linearizability": st.LinOps, "search_states": st.LinStates, "undecided_within_budget": st.LinUnknown},
		"rare_conditions_reached":               st.Probes,
		"runs_abandoned_for_another_property":   st.Foreign,
		"runs_replayed_with_identical_digest":   rechecks,
		"known_findings_hit":                    hits,
		"real_code":                             "all of /repo's package sortedmap (instrumented through a build overlay: a scheduling point before every statement) and its dependency cstruct",
		"stubs":                                 "package sync (scheduler-owned mutexes), go statements, map iteration order, and the client's callbacks (simulated storage, codecs, comparator wrapper around the package's own comparators)",
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": math.Round(wall*10) / 10, "violations": viol,
		"assumptions": []string{
			"sampling, not enumeration: no violation in the runs made",
			"interleavings are sequentially consistent at statement granularity; weaker memory-model effects need a data race, whose absence C20 decides",
			"storage follows the callback contract: a successful write is durable at once and a location is handed out again only after it was discarded",
		},
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	dir := filepath.Join(verif, "evidence")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, prop+".json"), b, 0o644)
}
