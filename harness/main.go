// The harness: runs trials of one property's scenario, searches for violations, minimises
// and replays them, and writes the evidence.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"verifsim/vsim"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: harness check|worker|minimise|replay|selftest|one ...")
		os.Exit(3)
	}
	switch os.Args[1] {
	case "check":
		check(os.Args[2:])
	case "worker":
		worker(os.Args[2:])
	case "minimise":
		minimise(os.Args[2:])
	case "replay":
		replayCmd(os.Args[2:])
	case "selftest":
		selftest(os.Args[2:])
	case "solo":
		solo(os.Args[2:])
	case "one":
		one(os.Args[2:])
	case "list":
		for _, k := range ids() {
			fmt.Println(k, scenarios[k].race)
		}
	default:
		os.Exit(3)
	}
}

func ids() []string {
	var ks []string
	for k := range scenarios {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func trialParams(prop string, seed uint64, i int) Params {
	h := fnv.New64a()
	h.Write([]byte(prop))
	r := newRng(mix64(mix64(seed, h.Sum64()), uint64(i)))
	p := Params{Prop: prop, Seed: r.next() >> 1}
	scenarios[prop].gen(&p, r)
	for p.Eval != 2 && p.Points > 200 && p.Points*p.Size*(p.Steps+1) > 30_000 { // stay within the statement budget
		p.Points /= 2
	}
	return p
}

// ---- worker ----

// Report is what a worker found.
type Report struct {
	Trials   int
	Runs     int
	Yields   int64
	Longest  int64 // statements of the longest run
	SimTime  int64
	Switches int64
	Preempts int64
	Tasks    int64
	Fired    [vsim.NumDraws]int64
	Probes   map[string]int64
	Skips    map[string]int64
	Outcomes map[string]int64
	Policies map[string]int64
	Hashes   []uint64 // of non-trivial trials
	SwHashes []uint64
	Samples  []Params
	SampleTx []string
	Found    *Found
	Wall     float64
	TimedOut bool
}

// Found is a violation as found.
type Found struct {
	Index int
	P     Params
	V     Violation
	Plans [][]string
}

func worker(args []string) {
	inWorker = true
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	from := fs.Int("from", 0, "")
	step := fs.Int("step", 1, "")
	count := fs.Int("count", 1000, "")
	secs := fs.Float64("secs", 60, "")
	out := fs.String("out", "", "")
	known := fs.String("known", "", "")
	fs.Parse(args)
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(400)
	watchMemory()
	skip := loadKnown(*known, *prop)
	sc := scenarios[*prop]
	rep := Report{Probes: map[string]int64{}, Skips: map[string]int64{}, Outcomes: map[string]int64{}, Policies: map[string]int64{}}
	start := time.Now()
	progress, _ := os.Create(*out + ".at")
	seenH := map[uint64]bool{}
	for i := *from; i < *count; i += *step {
		if time.Since(start).Seconds() > *secs {
			rep.TimedOut = true
			break
		}
		p := trialParams(*prop, *seed, i)
		progress.WriteAt([]byte(fmt.Sprintf("%12d", i)), 0)
		t := execute(p, nil, false)
		if sc.race && racesReported() && t.viol == nil {
			t.viol = &Violation{Class: *prop + "/race", Msg: "the race detector reports unsynchronised accesses"}
		}
		rep.Trials++
		rep.Runs += len(t.runs)
		trivial := true
		for _, r := range t.runs {
			rep.Yields += r.Yields
			if r.Yields > rep.Longest {
				rep.Longest = r.Yields
			}
			rep.SimTime += r.SimTime
			rep.Switches += r.Switches
			rep.Preempts += r.Preempts
			rep.Tasks += int64(r.Tasks)
			for k, n := range r.Fired {
				rep.Fired[k] += n
			}
			rep.Outcomes[r.Outcome.String()]++
			if r.Switches >= 3 || r.Outcome == vsim.Crashed || r.Outcome == vsim.Exited {
				trivial = false
			}
		}
		rep.Policies[vsim.Policy(p.Policy).String()]++
		for k, n := range t.probes {
			rep.Probes[k] += n
		}
		for k, n := range t.skips {
			rep.Skips[k] += n
		}
		if !trivial && len(t.skips) == 0 && !seenH[t.hash] {
			seenH[t.hash] = true
			rep.Hashes = append(rep.Hashes, t.hash)
			var sw uint64
			for _, r := range t.runs {
				sw = mix64(sw, r.SwHash)
			}
			rep.SwHashes = append(rep.SwHashes, sw)
			if len(rep.Samples) < 1 && i >= *from {
				rep.Samples = append(rep.Samples, p)
				rep.SampleTx = append(rep.SampleTx, sampleText(t))
			}
		}
		if t.viol != nil {
			if id := skip(t.viol); id != "" {
				rep.Skips["known finding "+id]++
				continue
			}
			rep.Found = &Found{Index: i, P: p, V: *t.viol, Plans: encodePlans(t.plans)}
			break
		}
	}
	rep.Wall = time.Since(start).Seconds()
	if err := writeJSON(*out, rep); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}

func sampleText(t *Trial) string {
	var b strings.Builder
	for i, r := range t.runs {
		if i > 2 {
			break
		}
		fmt.Fprintf(&b, "run %d: %s after %d statements, %d goroutines, %d switches (%d preemptions), %.6f s simulated, %d recorded decisions; ",
			i, r.Outcome, r.Yields, r.Tasks, r.Switches, r.Preempts, float64(r.SimTime)/1e9, len(r.Plan))
	}
	return b.String()
}

// ---- known findings ----

// loadKnown returns a function that names the listed finding a violation is an instance of.
func loadKnown(path, prop string) func(v *Violation) string {
	type k struct{ id, class, sub string }
	var ks []k
	if f, err := os.Open(path); err == nil {
		sc := bufio.NewScanner(f)
		for sc.Scan() {
			l := sc.Text()
			if !strings.HasPrefix(l, "known:") {
				continue
			}
			var e k
			ok := false
			for _, w := range strings.Split(strings.TrimPrefix(l, "known:"), "|") {
				w = strings.TrimSpace(w)
				switch {
				case strings.HasPrefix(w, "property="):
					ok = strings.TrimPrefix(w, "property=") == prop
				case strings.HasPrefix(w, "id="):
					e.id = strings.TrimPrefix(w, "id=")
				case strings.HasPrefix(w, "class="):
					e.class = strings.TrimPrefix(w, "class=")
				case strings.HasPrefix(w, "contains="):
					e.sub = strings.TrimPrefix(w, "contains=")
				}
			}
			if ok && e.id != "" && e.class != "" && e.sub != "" {
				ks = append(ks, e)
			}
		}
		f.Close()
	}
	return func(v *Violation) string {
		for _, e := range ks {
			if v.Class == prop+"/"+e.class && strings.Contains(v.Msg, e.sub) {
				return e.id
			}
		}
		return ""
	}
}

// ---- trials that end the process ----

var memoryLimit uint64 = 2 << 30 // raised by trials that hold hugeLock

var inWorker bool

// hugeLock lets only one process at a time run a trial that needs much memory. The others of a
// search leave such trials out meanwhile.
func hugeLock() (unlock func()) {
	how := syscall.LOCK_EX
	if inWorker {
		how |= syscall.LOCK_NB
	}
	runtime.GC()
	old := debug.SetGCPercent(40)
	f, err := os.OpenFile(filepath.Join(os.TempDir(), "triangula-verif-huge.lock"), os.O_CREATE|os.O_RDWR, 0o600)
	if err == nil {
		err = syscall.Flock(int(f.Fd()), how)
	}
	if err != nil && inWorker {
		if f != nil {
			f.Close()
		}
		debug.SetGCPercent(old)
		return nil
	}
	if err == nil {
		atomic.StoreUint64(&memoryLimit, 8<<30)
	}
	return func() {
		runtime.GC()
		atomic.StoreUint64(&memoryLimit, 2<<30)
		debug.SetGCPercent(old)
		if f != nil {
			f.Close()
		}
	}
}

// watchMemory ends the process when the program under test needs unbounded memory.
func watchMemory() {
	m := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	go func() {
		for {
			time.Sleep(200 * time.Millisecond)
			metrics.Read(m)
			if limit := atomic.LoadUint64(&memoryLimit); m[0].Value.Uint64() > limit {
				fmt.Fprintf(os.Stderr, "fatal error: more than %d MB of memory in use\n", limit>>20)
				os.Exit(7)
			}
		}
	}()
}

// solo executes one trial given by its parameters, from their seed.
func solo(args []string) {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(400)
	watchMemory()
	_, class := rerun(readReplay(args[0]).Params, nil, false)
	fmt.Println(class)
}

// dies executes a trial in its own process and returns how the Go runtime ended it, or "".
func dies(exe, path, work string) string {
	cmd := exec.Command(exe, "solo", path)
	cmd.Env = append(os.Environ(), "GORACE=log_path="+filepath.Join(work, "races")+" exitcode=0")
	err := runLimited(cmd, 150*time.Second)
	if err == nil || cmd.ProcessState == nil || cmd.ProcessState.ExitCode() == 3 {
		return ""
	}
	for _, l := range strings.Split(err.Error(), "\n") {
		if k := strings.Index(l, "fatal error: "); k >= 0 && !strings.Contains(l, "all goroutines are asleep") {
			return l[k:]
		}
	}
	return ""
}

// ---- check ----

func check(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	verif := fs.String("verif", "/verif", "")
	work := fs.String("work", "", "")
	procs := fs.Int("procs", 8, "")
	count := fs.Int("count", 0, "")
	secs := fs.Float64("secs", 0, "")
	level := fs.String("level", "", "")
	fs.Parse(args)
	sc := scenarios[*prop]
	if sc == nil {
		fatal("no scenario for %s", *prop)
	}
	start := time.Now()
	n, limit := sc.quick, float64(sc.wall)
	if *tier == "thorough" {
		n, limit = sc.deep, 1800
	}
	if *count > 0 {
		n = *count
	}
	if *secs > 0 {
		limit = *secs
	}
	known := filepath.Join(*verif, "known-findings.txt")
	exe, _ := os.Executable()
	var wg sync.WaitGroup
	reps := make([]*Report, *procs)
	errs := make([]error, *procs)
	for i := 0; i < *procs; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			out := filepath.Join(*work, fmt.Sprintf("w%d.json", i))
			os.Remove(out)
			cmd := exec.Command(exe, "worker", "-prop", *prop, "-seed", strconv.FormatUint(*seed, 10), "-from", strconv.Itoa(i), "-step", strconv.Itoa(*procs),
				"-count", strconv.Itoa(n), "-secs", fmt.Sprint(limit), "-out", out, "-known", known)
			cmd.Env = append(os.Environ(), "GORACE=log_path="+filepath.Join(*work, fmt.Sprintf("race%d", i))+" suppress_equal_stacks=0 suppress_equal_addresses=0 exitcode=0 halt_on_error=0")
			errs[i] = runLimited(cmd, time.Duration(limit+150)*time.Second)
			b, err := os.ReadFile(out)
			if err != nil {
				at, _ := os.ReadFile(out + ".at")
				errs[i] = fmt.Errorf("worker %d failed at trial %s: %v", i, strings.TrimSpace(string(at)), errs[i])
				k, err := strconv.Atoi(strings.TrimSpace(string(at)))
				if err != nil {
					return
				}
				p := trialParams(*prop, *seed, k)
				file := filepath.Join(*work, fmt.Sprintf("died%d.json", i))
				writeJSON(file, &Replay{Property: *prop, Params: p})
				how := dies(exe, file, *work)
				if how == "" {
					return
				}
				errs[i] = nil
				v := Violation{*prop + "/died", "the program dies: " + how}
				reps[i] = &Report{Trials: 1, Found: &Found{Index: k, P: p, V: v}}
				return
			}
			r := &Report{}
			if err := json.Unmarshal(b, r); err != nil {
				errs[i] = err
				return
			}
			errs[i] = nil
			reps[i] = r
		}(i)
	}
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			fatal("%v", err)
		}
	}
	var found *Found
	total := Report{Probes: map[string]int64{}, Skips: map[string]int64{}, Outcomes: map[string]int64{}, Policies: map[string]int64{}}
	hashes, sw := map[uint64]bool{}, map[uint64]bool{}
	for _, r := range reps {
		total.Trials += r.Trials
		total.Runs += r.Runs
		total.Yields += r.Yields
		if r.Longest > total.Longest {
			total.Longest = r.Longest
		}
		total.SimTime += r.SimTime
		total.Switches += r.Switches
		total.Preempts += r.Preempts
		total.Tasks += r.Tasks
		total.TimedOut = total.TimedOut || r.TimedOut
		for k := range r.Fired {
			total.Fired[k] += r.Fired[k]
		}
		merge(total.Probes, r.Probes)
		merge(total.Skips, r.Skips)
		merge(total.Outcomes, r.Outcomes)
		merge(total.Policies, r.Policies)
		for _, h := range r.Hashes {
			hashes[h] = true
		}
		for _, h := range r.SwHashes {
			sw[h] = true
		}
		if len(total.Samples) < 3 {
			total.Samples = append(total.Samples, r.Samples...)
			total.SampleTx = append(total.SampleTx, r.SampleTx...)
		}
		if r.Found != nil && (found == nil || r.Found.Index < found.Index) {
			found = r.Found
		}
	}
	violations := 0
	replayPath := ""
	if found != nil {
		violations = 1
		replayPath = filepath.Join(*verif, "replays", fmt.Sprintf("%s-seed%d-trial%d.json", *prop, *seed, found.Index))
		os.MkdirAll(filepath.Dir(replayPath), 0755)
		raw := filepath.Join(*work, "found.json")
		writeJSON(raw, &Replay{Property: *prop, Class: found.V.Class, Message: found.V.Msg, Params: found.P, Plans: found.Plans, Minimised: "no", Schedule: describe(decodePlans(found.Plans))})
		cp(raw, replayPath)
		cmd := exec.Command(exe, "minimise", "-in", raw, "-out", replayPath, "-secs", "60", "-work", *work)
		cmd.Env = append(os.Environ(), "GORACE=log_path="+filepath.Join(*work, "racem")+" suppress_equal_stacks=0 suppress_equal_addresses=0 exitcode=0")
		cmd.Stderr = os.Stderr
		runLimited(cmd, 120*time.Second)
		if !reproduces(exe, replayPath, *work) {
			cp(raw, replayPath)
			if !reproduces(exe, replayPath, *work) {
				fmt.Println("note: the replay did not reproduce in a new process")
			}
		}
	}
	wall := time.Since(start).Seconds()
	fired := map[string]int64{}
	for k, v := range total.Fired {
		if v > 0 {
			fired[vsim.DrawNames[k]] = v
		}
	}
	var samples []any
	for i := range total.Samples {
		samples = append(samples, map[string]any{"params": total.Samples[i], "execution": total.SampleTx[i]})
	}
	hours := wall / 3600
	cov := map[string]any{
		"evaluations":         total.Trials,
		"distinct_nontrivial": len(hashes),
		"rule":                sc.rule + ". A case counts once per distinct hash of its event and schedule trace, if at least one run had three or more task switches or ended by an injected fault, and no oracle had to be skipped",
		"samples":             samples,
		"simulated_runs":      total.Runs, "runs_per_hour": int64(float64(total.Runs) / hours), "seeds_per_hour": int64(float64(total.Trials) / hours),
		"simulated_seconds": float64(total.SimTime) / 1e9, "statements_executed": total.Yields, "statements_of_longest_run": total.Longest, "task_switches": total.Switches, "preemptions": total.Preempts,
		"goroutines_simulated":       total.Tasks,
		"distinct_interleavings":     len(sw),
		"interleaving_measure":       "distinct hashes of the sequence of task switches (from, to, position) over all runs of a case",
		"faults_injected":            fired,
		"run_outcomes":               total.Outcomes,
		"scheduling_policies":        total.Policies,
		"oracle_counts":              total.Probes,
		"skipped":                    total.Skips,
		"stopped_by_time_limit":      total.TimedOut,
		"preemption_granularity":     granularity(*level),
		"real_components":            realComponents(*prop),
		"stubbed_components":         stubComponents(*prop),
		"violation_replay":           replayPath,
		"harness_processes":          *procs,
		"race_detector_instrumented": vsim.RaceMode,
	}
	ev := map[string]any{"property": *prop, "tier": *tier, "seed": *seed, "level": "exploration", "coverage": cov, "wall_s": wall, "violations": violations,
		"assumptions": []string{
			"preemption happens between statements (and, at level 2, between the read and the write of an update of shared memory), not between machine instructions; memory is sequentially consistent except in the race-detector check",
			"the simulator's replacements for sync, sync/atomic, time, runtime, os, ioutil, log, fmt, math/rand, pprof and trace behave as documented",
		}}
	os.MkdirAll(filepath.Join(*verif, "evidence"), 0755)
	if err := writeJSON(filepath.Join(*verif, "evidence", *prop+".json"), ev); err != nil {
		fatal("%v", err)
	}
	for _, l := range knownLines(known, *prop) {
		fmt.Println(l)
	}
	fmt.Printf("%s %s: %d cases, %d runs, %d distinct, %.1f s\n", *prop, *tier, total.Trials, total.Runs, len(hashes), wall)
	if found != nil {
		fmt.Printf("%s: %s\n", found.V.Class, found.V.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, replayPath)
		os.Exit(1)
	}
	if len(hashes) == 0 {
		fatal("nothing was explored")
	}
}

func granularity(level string) string {
	switch level {
	case "2":
		return "statements, and between read and write of memory updates"
	case "1":
		return "statements"
	}
	return "synchronisation operations only"
}

func knownLines(path, prop string) []string {
	var out []string
	f, err := os.Open(path)
	if err != nil {
		return nil
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := sc.Text()
		if strings.HasPrefix(l, "known:") && strings.Contains(l, "property="+prop+" ") {
			what := l
			if k := strings.Index(l, "what="); k >= 0 {
				what = l[k+5:]
			}
			out = append(out, "KNOWN-FINDING: property="+prop+" "+strings.TrimSpace(what))
		}
	}
	return out
}

func merge(a, b map[string]int64) {
	for k, v := range b {
		a[k] += v
	}
}

func cp(a, b string) {
	x, err := os.ReadFile(a)
	if err == nil {
		os.WriteFile(b, x, 0644)
	}
}

func runLimited(cmd *exec.Cmd, d time.Duration) error {
	var eb strings.Builder
	if cmd.Stderr == nil {
		cmd.Stderr = &eb
	}
	if err := cmd.Start(); err != nil {
		return err
	}
	tm := time.AfterFunc(d, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	if !tm.Stop() {
		return fmt.Errorf("time limit of %v exceeded", d)
	}
	if err != nil {
		s := eb.String()
		if len(s) > 3000 {
			s = s[:3000]
		}
		return fmt.Errorf("%v: %s", err, s)
	}
	return nil
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "check error: "+f+"\n", a...)
	os.Exit(3)
}

// ---- replay and minimisation ----

func readReplay(path string) *Replay {
	b, err := os.ReadFile(path)
	if err != nil {
		fatal("%v", err)
	}
	r := &Replay{}
	if err := json.Unmarshal(b, r); err != nil {
		fatal("%v", err)
	}
	return r
}

// rerun executes recorded decisions and returns the class of the violation, if any.
func rerun(p Params, plans [][]vsim.Decision, follow bool) (*Trial, string) {
	t := execute(p, plans, follow)
	if scenarios[p.Prop].race && racesReported() && t.viol == nil {
		t.viol = &Violation{Class: p.Prop + "/race", Msg: "the race detector reports unsynchronised accesses"}
	}
	if t.viol == nil {
		return t, ""
	}
	return t, t.viol.Class
}

func replayCmd(args []string) {
	runtime.GOMAXPROCS(1)
	r := readReplay(args[0])
	if strings.HasSuffix(r.Class, "/died") {
		exe, _ := os.Executable()
		how := dies(exe, args[0], os.TempDir())
		if how == "" {
			fmt.Println("not reproduced: the program does not die")
			return
		}
		fmt.Printf("reproduced %s: %s\n", r.Class, how)
		os.Exit(1)
	}
	t, class := rerun(r.Params, decodePlans(r.Plans), true)
	if class == r.Class {
		fmt.Printf("reproduced %s: %s\nhash %x\n", class, t.viol.Msg, t.hash)
		os.Exit(1)
	}
	fmt.Printf("not reproduced (%s expected, got %q)\n", r.Class, class)
}

func reproduces(exe, path, work string) bool {
	cmd := exec.Command(exe, "replay", path)
	cmd.Env = append(os.Environ(), "GORACE=log_path="+filepath.Join(work, "racer")+" exitcode=0")
	err := runLimited(cmd, 100*time.Second)
	ee := cmd.ProcessState
	return err != nil && ee != nil && ee.ExitCode() == 1
}

func minimise(args []string) {
	fs := flag.NewFlagSet("minimise", flag.ExitOnError)
	in := fs.String("in", "", "")
	out := fs.String("out", "", "")
	secs := fs.Float64("secs", 60, "")
	work := fs.String("work", "", "")
	fs.Parse(args)
	runtime.GOMAXPROCS(1)
	r := readReplay(*in)
	if strings.HasSuffix(r.Class, "/died") {
		minimiseDied(r, *out, *work, *secs)
		return
	}
	deadline := time.Now().Add(time.Duration(*secs * float64(time.Second)))
	late := func() bool { return time.Now().After(deadline) }
	class := r.Class
	p, plans := r.Params, decodePlans(r.Plans)
	best, c := rerun(p, plans, true)
	if c != class {
		return // keep the recorded file
	}
	msg := best.viol.Msg
	// smaller parameters, searched with a few seeds each
	for changed := true; changed && !late(); {
		changed = false
		for _, q := range smaller(p) {
			if late() {
				break
			}
			ok := false
			for k := 0; k < 3 && !ok; k++ {
				cand := q
				if k > 0 {
					cand.Seed = mix64(q.Seed, uint64(k)) >> 1
				}
				t, c := rerun(cand, nil, false)
				if c == class {
					p, plans, msg, ok = cand, t.plans, t.viol.Msg, true
				}
			}
			if ok {
				changed = true
				break
			}
		}
	}
	// fewer decisions
	try := func(cand [][]vsim.Decision) bool {
		t, c := rerun(p, cand, true)
		if c == class {
			msg = t.viol.Msg
			return true
		}
		return false
	}
	for run := range plans {
		for size := (len(plans[run]) + 1) / 2; size >= 1 && len(plans[run]) > 0 && !late(); {
			removed := false
			for at := 0; at < len(plans[run]) && !late(); {
				end := at + size
				if end > len(plans[run]) {
					end = len(plans[run])
				}
				cand := append([][]vsim.Decision(nil), plans...)
				cand[run] = append(append([]vsim.Decision(nil), plans[run][:at]...), plans[run][end:]...)
				if try(cand) {
					plans = cand
					removed = true
				} else {
					at = end
				}
			}
			if size == 1 && !removed {
				break
			}
			if size > 1 {
				size = (size + 1) / 2
				if size > len(plans[run]) && len(plans[run]) > 0 {
					size = len(plans[run])
				}
			}
		}
	}
	t, c := rerun(p, plans, true)
	if c != class {
		return
	}
	hash := fmt.Sprintf("%x", t.hash)
	how := "yes"
	if late() {
		how = "partly (time limit)"
	}
	rep := &Replay{Property: r.Property, Class: class, Message: msg, Params: p, Plans: encodePlans(plans), Hash: hash, Minimised: how, Schedule: describe(plans)}
	if scenarios[p.Prop].race {
		fsn, _ := filepath.Glob(filepath.Join(*work, "racem*"))
		if len(fsn) > 0 {
			if b, err := os.ReadFile(fsn[0]); err == nil {
				s := string(b)
				if len(s) > 4000 {
					s = s[len(s)-4000:]
				}
				rep.Message += "\n" + s
			}
		}
	}
	writeJSON(*out, rep)
}

// minimiseDied looks for simpler parameters of a trial that ends the process.
func minimiseDied(r *Replay, out, work string, secs float64) {
	exe, _ := os.Executable()
	end := time.Now().Add(time.Duration(secs * float64(time.Second)))
	file := filepath.Join(work, "candidate.json")
	for changed := true; changed && time.Now().Before(end); {
		changed = false
		for _, q := range smaller(r.Params) {
			if time.Now().After(end) {
				break
			}
			writeJSON(file, &Replay{Property: r.Property, Params: q})
			if dies(exe, file, work) != "" {
				r.Params, changed = q, true
				break
			}
		}
	}
	r.Minimised = "parameters only"
	writeJSON(out, r)
}

// smaller proposes simpler parameters.
func smaller(p Params) []Params {
	var out []Params
	add := func(f func(q *Params)) {
		q := p
		f(&q)
		if q != p {
			out = append(out, q)
		}
	}
	dec := func(get func(q *Params) *int, min int) {
		v := *get(&p)
		if v > min {
			add(func(q *Params) { *get(q) = min })
			add(func(q *Params) { *get(q) = (v + min) / 2 })
			add(func(q *Params) { *get(q) = v - 1 })
		}
	}
	min := 2 * p.Cutoff
	if p.Algo == 1 {
		min = p.Cutoff
	}
	if f := scenarios[p.Prop].shrink; f != nil {
		out = append(out, f(p)...)
	}
	dec(func(q *Params) *int { return &q.Steps }, 0)
	dec(func(q *Params) *int { return &q.Size }, min)
	if p.Cutoff > 1 {
		add(func(q *Params) { q.Cutoff = 1 })
	}
	dec(func(q *Params) *int { return &q.Points }, 1)
	for k := range p.Faults {
		if p.Faults[k] != 0 {
			add(func(q *Params) { q.Faults[k] = 0 })
		}
	}
	add(func(q *Params) { q.Stall, q.StallLen = 0, 0 })
	add(func(q *Params) { q.Policy = int(vsim.PolicySerial) })
	add(func(q *Params) { q.Tick = 20 })
	add(func(q *Params) { q.CPUs = 4 })
	add(func(q *Params) { q.Slow = 0 })
	add(func(q *Params) { q.SlowMax = 0 })
	add(func(q *Params) { q.PoolOff = 0 })
	return out
}

// ---- development ----

func one(args []string) {
	fs := flag.NewFlagSet("one", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	i := fs.Int("i", 0, "")
	fs.Parse(args)
	runtime.GOMAXPROCS(1)
	p := trialParams(*prop, *seed, *i)
	st := time.Now()
	t, class := rerun(p, nil, false)
	b, _ := json.Marshal(p)
	fmt.Println(string(b))
	fmt.Printf("class %q hash %x %v %s\n", class, t.hash, time.Since(st), sampleText(t))
	if t.viol != nil {
		fmt.Println(t.viol.Msg)
	}
	fmt.Println(t.probes, t.skips)
	t2, c2 := rerun(p, t.plans, true)
	fmt.Printf("replay class %q hash %x\n", c2, t2.hash)
}

// selftest runs trials twice and once from their recorded decisions and compares.
func selftest(args []string) {
	fs := flag.NewFlagSet("selftest", flag.ExitOnError)
	count := fs.Int("count", 50, "")
	prop := fs.String("prop", "", "")
	print := fs.Bool("print", false, "")
	fs.Parse(args)
	runtime.GOMAXPROCS(1)
	bad := 0
	for _, k := range ids() {
		if *prop != "" && k != *prop || scenarios[k].race != vsim.RaceMode {
			continue
		}
		for i := 0; i < *count; i++ {
			p := trialParams(k, 12345, i)
			a, ca := rerun(p, nil, false)
			b, cb := rerun(p, nil, false)
			if *print {
				fmt.Printf("%s %d %x %s\n", k, i, a.hash, ca)
			}
			if a.hash != b.hash || ca != cb {
				fmt.Printf("%s trial %d: two executions differ (%x %q, %x %q)\n", k, i, a.hash, ca, b.hash, cb)
				bad++
			}
			if a.full {
				continue
			}
			c, cc := rerun(p, a.plans, true)
			if cc != ca || !sameRuns(a, c) {
				fmt.Printf("%s trial %d: the replay differs (%x %q, %x %q)\n", k, i, a.hash, ca, c.hash, cc)
				bad++
			}
		}
	}
	if bad > 0 {
		os.Exit(1)
	}
	if !*print {
		fmt.Println("deterministic")
	}
}

func sameRuns(a, b *Trial) bool {
	if len(a.runs) != len(b.runs) {
		return false
	}
	for i := range a.runs {
		x, y := a.runs[i], b.runs[i]
		if x.SwHash != y.SwHash || x.Outcome != y.Outcome || x.Yields != y.Yields {
			return false
		}
	}
	return true
}
