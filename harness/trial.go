package main

import (
	"encoding/json"
	"fmt"
	"os"
	"strings"

	"verifsim/vsim"
)

// Params describes one trial completely: with the code under test they determine every
// execution of the trial.
type Params struct {
	Prop string
	Seed uint64

	// the optimisation
	Algo   int // 0 modified genetic, 1 simple
	Eval   int // 0 triangles, 1 polygons, 2 synthetic pure function
	Wrap   int // evaluator: 0 parallel, 1 many, 2 one, 3 chaotic cache
	Size   int
	Cutoff int
	Points int
	W, H   int
	Block  int
	Cache  int // power of two
	Steps  int
	Mut    int // 0 gaussian, 1 random, 2 own source
	Rate   int // percent of points
	Amount int // percent
	Gen    int // how initial points are placed
	Img    int
	Std    int // the image has been an image of a standard type, counted from 1
	Scale  int // transformation of the fitness

	MutKinds int // 1: own source makes plain moves only
	Slow     int // percent of synthetic evaluations that take simulated seconds
	SlowMax  int // nanoseconds the longest of them takes (0: four seconds)

	// the schedule
	Policy   int
	Gap      int
	Changes  int
	Stall    int // per mille of tasks
	StallLen int
	CPUs     int
	Tick     int
	Est      int

	PoolOff int // the shared worker pool is 1: closed from the start, 2: closed at some time, 3: closed and opened again

	// fault rates, in parts per million, per draw class
	Faults [vsim.NumDraws]int

	// property-specific
	A, B, C, D, E, F int
}

// Violation is what a trial found.
type Violation struct {
	Class string // stable name of what is wrong
	Msg   string
}

// Trial is one execution of a property's scenario, made of one or more simulated runs.
type Trial struct {
	P      *Params
	replay bool
	plans  [][]vsim.Decision // recorded or to be followed, per run
	nrun   int
	runs   []vsim.Result
	viol   *Violation
	probes map[string]int64
	skips  map[string]int64
	hash   uint64
	full   bool
}

type failure struct{ class, msg string }

// fail reports a violation from within or outside a run.
func (t *Trial) fail(class, format string, a ...any) {
	v := &Violation{Class: t.P.Prop + "/" + class, Msg: fmt.Sprintf(format, a...)}
	if t.viol == nil {
		t.viol = v
	}
	if vsim.Active() {
		vsim.Fail("%s: %s", v.Class, v.Msg)
	}
	panic(failure{v.Class, v.Msg})
}

func (t *Trial) hit(name string)          { t.probes[name]++ }
func (t *Trial) add(name string, n int64) { t.probes[name] += n }
func (t *Trial) skip(name string)         { t.skips[name]++ }
func (t *Trial) note(vals ...uint64) {
	for _, v := range vals {
		vsim.Note(v)
	}
}

func mix64(a, b uint64) uint64 {
	z := a + 0x9e3779b97f4a7c15*(b+1)
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// maxStatements bounds a run. Normal runs stay below a fifth of it.
const maxStatements = 150_000_000

// serial is the configuration of reference runs: no faults, no preemption.
func (p *Params) serial() vsim.Config {
	return vsim.Config{Seed: mix64(p.Seed, 77), Policy: vsim.PolicySerial, MaxYields: maxStatements, Tick: int64(p.Tick)}
}

// perturbed is the configuration of explored runs.
func (p *Params) perturbed(k int) vsim.Config {
	c := vsim.Config{Seed: mix64(p.Seed, 1000+uint64(k)), Policy: vsim.Policy(p.Policy), Gap: int64(p.Gap), Changes: p.Changes,
		EstYields: int64(p.Est), StallProb: float64(p.Stall) / 1000, StallLen: int64(p.StallLen), MaxYields: maxStatements, Tick: int64(p.Tick)}
	for i := range c.FaultProb {
		c.FaultProb[i] = float64(p.Faults[i]) / 1e6
	}
	if p.W*p.H > 5_000_000 {
		c.MaxYields *= 20
	}
	return c
}

// run executes main under the simulator.
func (t *Trial) run(c vsim.Config, main func()) vsim.Result {
	vsim.SimCPUs = t.P.CPUs
	if vsim.SimCPUs < 1 {
		vsim.SimCPUs = 4
	}
	vsim.WorldSeed = mix64(t.P.Seed, 5)
	k := t.nrun
	t.nrun++
	if t.replay {
		c.Replay = true
		c.Plan = nil
		if k < len(t.plans) {
			c.Plan = t.plans[k]
		}
	}
	r := vsim.Run(c, main)
	if !t.replay {
		t.plans = append(t.plans, r.Plan)
	}
	if r.PlanFull {
		t.full = true
	}
	t.runs = append(t.runs, r)
	t.hash = mix64(t.hash^r.EventHash, r.SwHash^uint64(r.Yields))
	if r.Outcome == vsim.Failed && t.viol == nil {
		t.viol = &Violation{Class: t.P.Prop + "/failed", Msg: r.Msg}
	}
	if t.viol != nil {
		panic(failure{t.viol.Class, t.viol.Msg})
	}
	return r
}

// mustFinish reports any outcome other than a normal end.
func (t *Trial) mustFinish(r vsim.Result) {
	if r.Outcome == vsim.Done {
		return
	}
	msg := r.Msg
	if r.Stack != "" {
		msg += "\n" + shortStack(r.Stack)
	}
	t.fail("run-"+r.Outcome.String(), "the run did not complete: %s (%s)", r.Outcome, msg)
}

func shortStack(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "verifsim") || strings.Contains(l, "runtime/") {
			continue
		}
		if i := strings.LastIndex(l, " +0x"); i > 0 {
			l = l[:i]
		} else if strings.HasPrefix(l, "goroutine ") {
			continue
		} else if i := argsAt(l); i > 0 {
			l = l[:i]
		}
		out = append(out, l)
		if len(out) > 24 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// argsAt is where the arguments of a call in a stack trace begin.
func argsAt(l string) int {
	if strings.HasPrefix(l, "\t") || !strings.HasSuffix(l, ")") {
		return -1
	}
	depth := 0
	for i := len(l) - 1; i >= 0; i-- {
		switch l[i] {
		case ')':
			depth++
		case '(':
			if depth--; depth == 0 {
				return i
			}
		}
	}
	return -1
}

// Scenario is how a property is explored.
type Scenario struct {
	gen    func(p *Params, r *rng)
	body   func(t *Trial)
	rule   string
	race   bool
	quick  int // trials
	deep   int
	wall   int // seconds, quick
	shrink func(p Params) []Params
}

var scenarios = map[string]*Scenario{}

// execute runs one trial; it never panics for a violation.
func execute(p Params, plans [][]vsim.Decision, replay bool) (t *Trial) {
	t = &Trial{P: &p, replay: replay, plans: plans, probes: map[string]int64{}, skips: map[string]int64{}}
	defer func() {
		if e := recover(); e != nil {
			if f, ok := e.(failure); ok {
				if t.viol == nil {
					t.viol = &Violation{f.class, f.msg}
				}
				return
			}
			panic(e)
		}
	}()
	vsim.TheDisk = vsim.NewDisk()
	vsim.ResetRecorders()
	vsim.OnPrint = nil
	scenarios[p.Prop].body(t)
	return t
}

// Replay is the replay file.
type Replay struct {
	Property  string
	Class     string
	Message   string
	Params    Params
	Plans     [][]string
	Hash      string
	Minimised string
	Schedule  []string
}

func encodePlans(ps [][]vsim.Decision) [][]string {
	out := make([][]string, len(ps))
	for i, p := range ps {
		out[i] = make([]string, len(p))
		for j, d := range p {
			out[i][j] = fmt.Sprintf("%c %d %d %d", d.Kind, d.A, d.B, d.C)
		}
	}
	return out
}

func decodePlans(ps [][]string) [][]vsim.Decision {
	out := make([][]vsim.Decision, len(ps))
	for i, p := range ps {
		for _, s := range p {
			var d vsim.Decision
			var k rune
			fmt.Sscanf(s, "%c %d %d %d", &k, &d.A, &d.B, &d.C)
			d.Kind = byte(k)
			out[i] = append(out[i], d)
		}
	}
	return out
}

func describe(ps [][]vsim.Decision) []string {
	var out []string
	for i, p := range ps {
		for _, d := range p {
			switch d.Kind {
			case 'P':
				out = append(out, fmt.Sprintf("run %d: goroutine %d is preempted after %d statements, goroutine %d continues", i, d.A, d.B, d.C))
			case 'B':
				out = append(out, fmt.Sprintf("run %d: when goroutine %d blocks for the %d. time, goroutine %d continues", i, d.A, d.B, d.C))
			case 'D':
				out = append(out, fmt.Sprintf("run %d: fault %s, draw %d, value %d", i, vsim.DrawNames[d.A], d.B, d.C))
			}
			if len(out) > 200 {
				return append(out, "...")
			}
		}
	}
	return out
}

func writeJSON(path string, v any) error {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(path, append(b, '\n'), 0644)
}
