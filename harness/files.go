package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"strconv"
	"strings"
	"time"

	"github.com/RH12503/Triangula/algorithm"
	"github.com/RH12503/Triangula/algorithm/evaluator"
	"github.com/RH12503/Triangula/normgeom"
	"github.com/RH12503/Triangula/utils"

	"verifsim/vsim"
)

// scripted is an algorithm with arbitrary results.
type scripted struct {
	r    *rng
	gen  int
	best normgeom.NormPointGroup
	fit  float64
	kind int
	cost int64
}

func newScripted(kind int, cost int64, seed uint64) *scripted {
	s := &scripted{r: newRng(seed), kind: kind, cost: cost}
	s.draw()
	return s
}

func (s *scripted) draw() {
	n := 3
	switch s.kind {
	case 0: // growing and shrinking
		n = s.r.pick(0, 1, 2, 5, 20, 60)
	case 1: // large
		n = s.r.in(100, 400)
		if s.r.n(8) == 0 { // more than usual buffers hold
			n = s.r.pick(1_500, 4_000)
		}
	case 2: // shrinking
		n = 80 - 7*s.gen
		if n < 1 {
			n = 1
		}
	}
	s.best = make(normgeom.NormPointGroup, n)
	for i := range s.best {
		switch s.r.n(4) {
		case 0:
			s.best[i] = normgeom.NormPoint{X: float64(s.r.n(2)), Y: 0.5}
		default:
			s.best[i] = normgeom.NormPoint{X: s.r.f(), Y: s.r.f()}
		}
	}
	s.fit = s.r.f() * math.Pow(10, float64(s.r.in(-8, 3)))
	if s.r.n(5) == 0 {
		s.fit = -s.fit
	}
}

func (s *scripted) Step() {
	if s.cost > 0 {
		vsim.Sleep(1 + int64(s.r.n(int(s.cost))))
	}
	s.gen++
	s.draw()
}
func (s *scripted) Best() normgeom.NormPointGroup { return s.best.Copy() }
func (s *scripted) Stats() algorithm.Stats {
	return algorithm.Stats{BestFitness: s.fit, Generation: s.gen, TimeForGen: time.Duration(s.cost)}
}

// recorder surrounds the algorithm that the output writer runs.
type recorder struct {
	algorithm.Algorithm
	reps     int
	n        int
	bests    []normgeom.NormPointGroup // per round, the first is not used
	stats    []algorithm.Stats
	reported int
	onRound  func(k int) // round k has been reported as saved
}

func (a *recorder) Step() {
	if a.n%a.reps == 0 && a.n > 0 {
		a.reported = a.n / a.reps
		a.onRound(a.reported)
	}
	a.Algorithm.Step()
	a.n++
	if a.n%a.reps == 0 {
		for len(a.bests) < a.n/a.reps {
			a.bests = append(a.bests, nil)
			a.stats = append(a.stats, algorithm.Stats{})
		}
		a.bests = append(a.bests, a.Algorithm.Best().Copy())
		a.stats = append(a.stats, a.Algorithm.Stats())
	}
}

// content is what a result file may hold.
type content struct {
	absent bool
	pts    normgeom.NormPointGroup
	what   string
}

func (c content) matches(data []byte, exists bool) bool {
	if c.absent || !exists {
		return c.absent && !exists
	}
	pts, err := parseResult(data)
	return err == nil && samePoints(pts, c.pts)
}

func parseResult(data []byte) (normgeom.NormPointGroup, error) {
	var pts normgeom.NormPointGroup
	if err := json.Unmarshal(data, &pts); err != nil {
		return nil, err
	}
	return pts, nil
}

func anyOf(cs []content, data []byte, exists bool) bool {
	for _, c := range cs {
		if c.matches(data, exists) {
			return true
		}
	}
	return false
}

// allowed lists what the result file may hold when the last reported round is known.
func (a *recorder) allowed(before []content) []content {
	var out []content
	first := a.reported
	if first == 0 {
		out = append(out, before...)
		first = 1
	}
	for k := first; k < len(a.bests); k++ {
		out = append(out, content{pts: a.bests[k], what: fmt.Sprintf("round %d", k)})
	}
	return out
}

func describeFile(data []byte, exists bool) string {
	switch {
	case !exists:
		return "does not exist"
	case len(data) == 0:
		return "is empty"
	}
	if pts, err := parseResult(data); err == nil {
		return fmt.Sprintf("holds another group of %d points (%d bytes)", len(pts), len(data))
	} else {
		return fmt.Sprintf("is unreadable (%d bytes): %v", len(data), err)
	}
}

func describeAllowed(cs []content) string {
	var s []string
	for _, c := range cs {
		s = append(s, c.what)
	}
	return strings.Join(s, ", ")
}

var outFiles = []string{"out.json", "/data/points.json", "sub/dir/o", "result"}

// genFiles draws what the output scenarios have in common.
func genFiles(p *Params, r *rng) {
	genSchedule(p, r)
	p.Seed &= 1<<62 - 1
	p.Algo = r.n(2)
	p.Img = r.n(4) // of the scripted algorithm
	p.Mut = r.n(8) // 0: a real algorithm
	p.Slow = r.pick(0, 0, 1000, 2_000_000_000)
	p.Gen = r.n(len(outFiles))
	p.Steps = r.in(1, 6)                // rounds
	p.Cutoff = r.pick(1, 1, 1, 2, 3, 7) // repetitions
	p.E = r.n(4)                        // bit 0: an old result, bit 1: stale statistics and leftovers
	p.Faults[vsim.DrawTear] = 700_000
	p.Faults[vsim.DrawClock] = r.pick(0, 50_000)
}

// startAlgorithm makes the algorithm of a process.
func startAlgorithm(t *Trial, p *Params, phase int) algorithm.Algorithm {
	if p.Mut != 0 {
		return newScripted(p.Img, int64(p.Slow), mix64(p.Seed, uint64(900+phase)))
	}
	q := *p
	q.Seed = mix64(p.Seed, uint64(900+phase)) >> 1
	q.Eval, q.Wrap, q.Points, q.W, q.H = 0, 0, 6, 20, 20
	q.Block, q.Cache, q.Rate, q.Mut, q.MutKinds = 3, 2, 40, 2, 1
	q.Cutoff, q.Size, q.Gen, q.Img = 2, 6, 0, 0
	t.hit("processes with a real algorithm")
	return ownWorld(t, &q, newPicture(2, q.W, q.H, q.Seed))
}

func (w *world) Step()                         { w.algo.Step() }
func (w *world) Best() normgeom.NormPointGroup { return w.algo.Best() }
func (w *world) Stats() algorithm.Stats        { return w.algo.Stats() }

var _ algorithm.Algorithm = (*world)(nil)
var _ evaluator.Evaluator = (*probe)(nil)

// prepareDisk creates the directories and what earlier runs left.
func prepareDisk(p *Params, out string) []content {
	d := vsim.TheDisk
	d.MkdirDurable("/data")
	d.MkdirDurable("/work/sub")
	d.MkdirDurable("/work/sub/dir")
	before := []content{{absent: true, what: "no file"}}
	if p.E&1 != 0 {
		old := newScripted(p.Img, 0, mix64(p.Seed, 899)).best
		b, _ := json.Marshal(old)
		d.Put(out, b)
		before = []content{{pts: old, what: "the earlier result"}}
	}
	if p.E&2 != 0 {
		d.Put(out+"-stats", []byte(oldStats))
		d.Put(out+".tmp", bytes.Repeat([]byte("[{\"X\":0.25,"), 40))
	}
	return before
}

const oldStats = "1, 0.25\n2, 0.3\n3, 0.31\n"

// processEnd reports ends of the writing process that nothing explains.
func processEnd(t *Trial, r vsim.Result, explained bool) {
	switch r.Outcome {
	case vsim.Crashed:
		return
	case vsim.Exited:
		if explained && r.ExitCode != 0 {
			return
		}
		if r.ExitCode == 0 {
			t.fail("exit-zero", "the output writer ends the program with status 0 (%s)", r.Msg)
		}
		t.fail("gave-up", "the output writer ends the program although nothing failed: %s", r.Msg)
	case vsim.Panicked:
		if explained {
			return
		}
	case vsim.Done:
		t.fail("ended", "the output writer returned")
	}
	t.mustFinish(r)
}

func init() {
	scenarios["C15"] = &Scenario{
		gen: func(p *Params, r *rng) {
			genFiles(p, r)
			p.A = r.in(1, 4)                          // processes one after another
			p.B = r.pick(0, 0, 1, 1, 2, 3)            // how they end: at a disk operation, at any statement, at the end, mixed
			p.C = r.pick(300, 3_000, 20_000, 200_000) // statements
			p.D = r.pick(0, 50, 100)                  // percent of power losses
			if p.B == 0 || p.B == 3 {
				p.Faults[vsim.DrawPower] = r.pick(5_000, 20_000, 60_000, 200_000)
			}
			if r.chance(25) {
				p.Faults[vsim.DrawDisk] = r.pick(5_000, 30_000, 100_000)
			}
		},
		body: func(t *Trial) {
			p := t.P
			out := outFiles[p.Gen%len(outFiles)]
			allowed := prepareDisk(p, out)
			rr := newRng(mix64(p.Seed, 887))
			for phase := 0; phase < p.A; phase++ {
				kind := p.B
				if kind == 3 {
					kind = rr.n(3)
				}
				crashAt := int64(1 + rr.n(p.C))
				limit := 1 + rr.n(p.Steps)
				rec := &recorder{reps: p.Cutoff}
				rec.onRound = func(k int) {
					t.hit("rounds reported")
					if k >= limit {
						vsim.CrashNow("enough")
					}
				}
				c := p.perturbed(phase)
				if kind != 0 {
					c.FaultProb[vsim.DrawPower] = 0
				}
				r := t.run(c, func() {
					if kind == 1 {
						vsim.CrashAfter(crashAt)
					}
					rec.Algorithm = startAlgorithm(t, p, phase)
					utils.GenerateAlgorithmOutput(out, rec, p.Cutoff)
				})
				processEnd(t, r, vsim.TheDisk.Faults > 0)
				t.hit("ends: " + endOf(r))
				before := allowed
				allowed = rec.allowed(before)
				verify := func(d *vsim.Disk, how string) {
					data, ok := d.Get(out)
					if !anyOf(allowed, data, ok) {
						t.fail("lost-result", "process %d (%s, round %d reported as saved): after the %s the result file %s; it should hold one of: %s",
							phase+1, endOf(r), rec.reported, how, describeFile(data, ok), describeAllowed(allowed))
					}
					t.hit("results read after a " + how)
				}
				verify(vsim.TheDisk, "stop of the process")
				choices := []func(n int) int{
					func(n int) int { return 0 },
					func(n int) int { return n - 1 },
					func(n int) int { // all directory changes, no data
						if n > 3 {
							return n - 1
						}
						return 0
					},
					rr.n, rr.n, rr.n,
				}
				next := vsim.TheDisk
				for i, ch := range choices {
					d := vsim.TheDisk.PowerLoss(ch)
					verify(d, "power loss")
					if i == 3 && rr.chance(p.D) {
						next = d
					}
				}
				if next != vsim.TheDisk {
					data, ok := next.Get(out)
					var now []content
					for _, c := range allowed {
						if c.matches(data, ok) {
							now = append(now, c)
						}
					}
					allowed = now
					vsim.TheDisk = next
					t.hit("restarts after a power loss")
				} else {
					vsim.TheDisk = vsim.TheDisk.Restarted()
				}
			}
		},
		rule:  "one to four processes per case that save results one after another on one disk, each stopped at a disk operation, at an arbitrary statement or by a failure, with several outcomes of a power loss examined at each stop; distinct by schedule and event hash; non-trivial if a process was stopped or ended by a fault",
		quick: 800000, deep: 100000000, wall: 30,
	}

	scenarios["C16"] = &Scenario{
		gen: func(p *Params, r *rng) {
			genFiles(p, r)
			p.Steps = r.in(1, 9)
			switch r.n(6) {
			case 0: // nothing fails
			case 1: // the disk is small
				p.A = r.pick(1, 60, 400, 2_000, 10_000)
			case 2: // the file cannot be created
				p.B = r.in(1, 3)
			default:
				p.Faults[vsim.DrawDisk] = r.pick(3_000, 15_000, 50_000, 200_000)
			}
		},
		body: func(t *Trial) {
			p := t.P
			out := outFiles[p.Gen%len(outFiles)]
			before := prepareDisk(p, out)
			switch p.B {
			case 1:
				out = "/missing/dir/out"
				before = []content{{absent: true, what: "no file"}}
			case 2:
				out = "/data/other"
				vsim.TheDisk.MkdirDurable(out + "-stats")
				before = []content{{absent: true, what: "no file"}}
			case 3:
				out = "/data/other"
				vsim.TheDisk.MkdirDurable(out)
				before = []content{{absent: true, what: "no file"}}
			}
			if p.A > 0 {
				vsim.TheDisk.Capacity = vsim.TheDisk.Used() + int64(p.A)
			}
			stale := ""
			if b, ok := vsim.TheDisk.Get(out + "-stats"); ok {
				stale = string(b)
			}
			rec := &recorder{reps: p.Cutoff}
			rec.onRound = func(k int) {
				d := vsim.TheDisk
				want := content{pts: rec.bests[k], what: fmt.Sprintf("round %d", k)}
				data, ok := d.Get(out)
				if !want.matches(data, ok) {
					t.fail("not-saved", "round %d ended after %d disk errors, but the result file %s", k, d.Faults, describeFile(data, ok))
				}
				if d.Faults > 0 {
					data, ok := d.PowerLoss(func(int) int { return 0 }).Get(out)
					if !want.matches(data, ok) {
						t.fail("continued-after-failure", "round %d ended as if it had been saved although disk operations failed (%v) and its result is not on the disk: the file %s", k, d.FaultOn, describeFile(data, ok))
					}
				}
				sd, ok := d.Get(out + "-stats")
				if msg := checkStats(string(sd), stale, rec, k); !ok || msg != "" {
					t.fail("statistics", "after round %d and %d disk errors the statistics are wrong: %s", k, d.Faults, msg)
				}
				t.hit("rounds checked")
				if k >= p.Steps {
					vsim.CrashNow("enough")
				}
			}
			r := t.run(p.perturbed(0), func() {
				rec.Algorithm = startAlgorithm(t, p, 0)
				utils.GenerateAlgorithmOutput(out, rec, p.Cutoff)
			})
			d := vsim.TheDisk
			processEnd(t, r, d.Faults > 0 || p.B > 0)
			if r.Outcome == vsim.Crashed {
				t.hit("completed rounds without failing")
				return
			}
			t.hit("ends: " + endOf(r))
			allowed := rec.allowed(before)
			data, ok := d.Get(out)
			if !anyOf(allowed, data, ok) {
				t.fail("result-damaged", "after the failure in round %d (%v) the result file %s; it should hold one of: %s", rec.reported+1, d.FaultOn, describeFile(data, ok), describeAllowed(allowed))
			}
			data, ok = d.PowerLoss(func(int) int { return 0 }).Get(out)
			if !anyOf(allowed, data, ok) {
				t.fail("result-damaged", "after the failure in round %d (%v) the result on the disk %s; it should hold one of: %s", rec.reported+1, d.FaultOn, describeFile(data, ok), describeAllowed(allowed))
			}
			t.hit("results intact after a failure")
		},
		rule:  "one process per case that saves up to nine rounds on a disk that fails, is full, or lacks the directory; distinct by schedule and event hash; non-trivial if the process was ended by a failure or by the harness after the last round",
		quick: 800000, deep: 100000000, wall: 30,
	}

	scenarios["C17"] = &Scenario{
		gen: func(p *Params, r *rng) {
			genFiles(p, r)
			p.Mut = r.pick(0, 1, 1, 1, 1, 1)
			p.A = r.n(3)                                                    // 0, 1: profile; 2: trace
			p.B = r.pick(0, 1, 1, 2, 3, 5, 60, -1)                          // seconds
			p.C = r.pick(1_000_000, 50_000_000, 400_000_000, 2_500_000_000) // nanoseconds per generation
			if p.A == 2 {
				p.Mut = 1
				p.C = r.pick(0, 1_000, 100_000, 3_000_000)
				p.Img = 3
			} else if p.Mut == 0 {
				p.B = r.pick(0, 1, 2)
				p.Slow = 60_000_000
			}
			if p.B == 60 {
				p.C = 400_000_000
			}
			p.D = r.pick(0, 0, 0, 0, 0, 0, 1, 2, 3, 4) // already active, missing directory, a directory, cannot start
			p.Faults[vsim.DrawClock] = r.pick(0, 100_000, 500_000)
			if r.chance(35) {
				p.Faults[vsim.DrawDisk] = r.pick(20_000, 100_000, 300_000)
			} else if r.chance(20) {
				p.F = r.pick(1, 500, 3_000, 6_500) // free bytes
			}
		},
		body: func(t *Trial) {
			p := t.P
			out := outFiles[p.Gen%len(outFiles)]
			prepareDisk(p, out)
			suffix, what, rec := ".prof", "profile", vsim.CPU
			if p.A == 2 {
				suffix, what, rec = ".trace", "trace", vsim.Tracer
			}
			d := vsim.TheDisk
			if p.E&2 != 0 {
				d.Put(out+suffix, bytes.Repeat([]byte("old"), 9000))
			}
			switch p.D {
			case 2:
				out = "/missing/dir/out"
			case 3:
				out = "/data/other"
				d.MkdirDurable(out + suffix)
			}
			if p.F > 0 {
				d.Capacity = d.Used() + int64(p.F)
				if old, ok := d.Get(out + suffix); ok {
					d.Capacity -= int64(len(old))
				}
			}
			c := p.perturbed(0)
			if p.D == 4 {
				c.FaultProb[vsim.DrawUser1] = 1
			}
			var called, returned, firstStep int64 = 0, -1, -1
			var starts []int64
			steps, on, gap := 0, 0, false
			var other bytes.Buffer
			r := t.run(c, func() {
				if p.D == 1 {
					rec.Begin(&other)
				}
				var inner algorithm.Algorithm
				if p.Mut == 0 {
					inner = startAlgorithm(t, p, 0)
				} else {
					inner = newScripted(p.Img, int64(p.C), mix64(p.Seed, 900))
				}
				w := &observed{Algorithm: inner}
				w.before = func() {
					if firstStep < 0 {
						firstStep = vsim.Now()
					}
					starts = append(starts, vsim.Now())
					steps++
					if rec.Running && p.D != 1 {
						on++
					} else if on > 0 {
						gap = true
					}
					if len(starts) > 200_000 {
						t.fail("endless", "the %s of %d seconds still runs after %d generations and %d ns", what, p.B, steps, vsim.Now()-called)
					}
				}
				w.extra = p.Mut == 0 && p.A < 2
				called = vsim.Now()
				if p.A == 2 {
					utils.GenerateTrace(out, w)
				} else {
					utils.GenerateProfile(out, w, p.B)
				}
				returned = vsim.Now()
			})
			failed := d.Faults > 0 || p.D > 0
			switch r.Outcome {
			case vsim.Done:
			case vsim.Exited:
				if r.ExitCode == 0 {
					t.fail("exit-zero", "writing the %s ends the program with status 0 (%s)", what, r.Msg)
				}
				if !failed {
					t.fail("gave-up", "writing the %s ends the program although nothing failed: %s", what, r.Msg)
				}
				t.hit("ends: " + endOf(r))
				return
			case vsim.Panicked:
				if !failed {
					t.mustFinish(r)
				}
				t.hit("ends: " + endOf(r))
				return
			default:
				t.mustFinish(r)
			}
			if failed {
				t.fail("silent", "the %s returns normally although it failed: disk errors %v, %s", what, d.FaultOn,
					[]string{"", "one was already active", "the directory is missing", "the file is a directory", "it could not be started"}[p.D])
			}
			if rec.Running || rec.Starts != 1 || rec.Stops != 1 {
				t.fail("not-stopped", "on return of the %s it is running: %v, started %d and stopped %d times", what, rec.Running, rec.Starts, rec.Stops)
			}
			data, ok := d.Get(out + suffix)
			if !ok || !bytes.Equal(data, rec.Produced) {
				t.fail("incomplete", "on return of the %s its file holds %d bytes (exists: %v), but %d were produced", what, len(data), ok, len(rec.Produced))
			}
			if gap {
				t.fail("not-covered", "generations run after the %s was stopped", what)
			}
			if p.A == 2 {
				if steps != 3000 || on != 1000 {
					t.fail("generations", "the trace ran %d generations, of which %d traced, instead of 3000 and 1000", steps, on)
				}
				t.hit("complete traces")
				return
			}
			if on != steps {
				t.fail("not-covered", "%d of %d generations ran before profiling started", steps-on, steps)
			}
			want := int64(p.B) * 1_000_000_000
			if returned-called < want {
				t.fail("too-short", "the profile of %d seconds ran only %d ns", p.B, returned-called)
			}
			if firstStep >= 0 {
				late := 0
				for _, s := range starts {
					if s >= firstStep+want {
						late++
					}
				}
				if late > 10 {
					t.fail("too-long", "the profile of %d seconds ran %d generations after that time", p.B, late)
				}
			}
			t.hit("complete profiles")
		},
		rule:  "one profile or trace per case, with clock jumps, slow generations, a failing or full disk and a profiler or tracer that cannot start; distinct by schedule and event hash; non-trivial if at least three task switches happened or the process was ended by a failure",
		quick: 800000, deep: 50000000, wall: 30,
	}
}

// observed calls before ahead of each step.
type observed struct {
	algorithm.Algorithm
	before func()
	extra  bool
}

func (o *observed) Step() {
	o.before()
	if o.extra {
		vsim.Sleep(60_000_000)
	}
	o.Algorithm.Step()
}

func endOf(r vsim.Result) string {
	switch r.Outcome {
	case vsim.Exited:
		return fmt.Sprintf("exit status %d", r.ExitCode)
	case vsim.Crashed:
		if strings.HasPrefix(r.Msg, "process stopped") {
			f := strings.Fields(r.Msg)
			return strings.Join(f[:len(f)-1], " ")
		}
		return "stopped: " + r.Msg
	}
	return r.Outcome.String()
}

// checkStats compares the statistics file with the rounds.
func checkStats(s, stale string, rec *recorder, k int) string {
	if stale != "" && strings.HasPrefix(s, stale) {
		s = s[len(stale):]
	}
	if k > 0 && !strings.HasSuffix(s, "\n") {
		return fmt.Sprintf("the last line is incomplete: %q", tail(s))
	}
	lines := strings.Split(strings.TrimSuffix(s, "\n"), "\n")
	if len(lines) != k {
		return fmt.Sprintf("%d lines instead of %d", len(lines), k)
	}
	for i, l := range lines {
		f := strings.Split(l, ",")
		if len(f) != 2 {
			return fmt.Sprintf("line %d is %q", i+1, l)
		}
		g, err1 := strconv.Atoi(strings.TrimSpace(f[0]))
		v, err2 := strconv.ParseFloat(strings.TrimSpace(f[1]), 64)
		st := rec.stats[i+1]
		if err1 != nil || err2 != nil || g != st.Generation || v != st.BestFitness {
			return fmt.Sprintf("line %d is %q, but round %d has generation %d and fitness %v", i+1, l, i+1, st.Generation, st.BestFitness)
		}
	}
	return ""
}

func tail(s string) string {
	if len(s) > 60 {
		return s[len(s)-60:]
	}
	return s
}
