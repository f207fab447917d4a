package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/RH12503/Triangula/algorithm"
	"github.com/RH12503/Triangula/algorithm/evaluator"
	"github.com/RH12503/Triangula/fitness"
	"github.com/RH12503/Triangula/normgeom"
	"github.com/RH12503/Triangula/utils"

	ssync "verifsim/shim/sync"
	"verifsim/vsim"
)

// ---- C11 ----

func init() {
	scenarios["C11"] = &Scenario{
		race: true,
		gen: func(p *Params, r *rng) {
			genWorld(p, r)
			genMisc(p, r)
			p.Eval = r.pick(0, 0, 0, 1, 1, 2)
			p.Wrap = 0
			p.Cache = r.pick(0, 1, 1, 2, 4, 8)
			p.Points = r.pick(3, 5, 8, 12, 20)
			p.W, p.H = r.in(9, 40), r.in(9, 40)
			p.Steps = r.in(2, 5)
			p.A = r.pick(0, 0, 0, 2, 3) // instances
			p.Faults[vsim.DrawWake] = 0
		},
		body: func(t *Trial) {
			p := t.P
			if p.A == 0 {
				r := t.run(p.perturbed(0), func() {
					w := newWorld(t, p, nil)
					for i := 0; i < p.Steps; i++ {
						w.algo.Step()
						t.hit("generations")
					}
					t.note(hashPoints(w.algo.Best()))
				})
				t.mustFinish(r)
				return
			}
			ps := variants(p, p.A)
			im := newPicture(p.Img, p.W, p.H, p.Seed)
			r := t.run(p.perturbed(0), func() {
				var wg ssync.WaitGroup
				for k := range ps {
					q := &ps[k]
					wg.Add(1)
					vsim.Spawn(func() {
						defer wg.Done()
						w := ownWorld(t, q, im)
						for i := 0; i < q.Steps; i++ {
							w.algo.Step()
						}
						t.note(hashPoints(w.algo.Best()))
					})
				}
				wg.Wait()
			})
			t.add("generations of concurrent instances", int64(p.A*p.Steps))
			t.mustFinish(r)
		},
		rule:  "one run per case under the race detector, with one optimiser or with two or three on separate goroutines; distinct by schedule and event hash; non-trivial if evaluations of at least two tasks interleaved",
		quick: 120000, deep: 6000000, wall: 40,
	}
}

// variants derives the parameters of n independent instances on the same image.
func variants(p *Params, n int) []Params {
	out := make([]Params, n)
	for k := range out {
		q := *p
		q.Seed = mix64(p.Seed, 500+uint64(k)) >> 1
		r := newRng(q.Seed)
		if k > 0 {
			q.Algo = r.n(2)
			q.Cutoff = r.pick(1, 2, 3)
			q.Size = 2*q.Cutoff + r.in(0, 6)
			q.Points = r.pick(3, 5, 8, 12)
			if p.Eval != 2 && q.Algo == 1 {
				q.Eval = r.pick(0, 0, 1)
			}
			q.Block = r.pick(1, 3, 5)
		}
		if q.Algo == 0 && p.E == 1 {
			q.Eval, q.Wrap = 2, 0
		}
		q.Mut, q.MutKinds = 2, 1
		q.Gen = r.pick(0, 0, 3)
		out[k] = q
	}
	return out
}

// ownWorld builds an instance that shares nothing but the image and the worker pool.
func ownWorld(t *Trial, p *Params, im *picture) *world {
	w := &world{t: t, p: p, im: im}
	r := newRng(mix64(p.Seed, 11))
	factory := func() normgeom.NormPointGroup { return makePoints(p.Gen, p.Points, r) }
	w.algo = build(p, factory, func(n int) evaluator.Evaluator { return newEvaluator(p, im, n) }, newMutator(p))
	return w
}

// ---- C13 ----

func init() {
	scenarios["C13"] = &Scenario{
		gen: func(p *Params, r *rng) {
			genWorld(p, r)
			genMisc(p, r)
			p.E = 1 // the genetic algorithm with a synthetic fitness only
			p.Eval = r.pick(0, 0, 1, 2)
			p.Wrap = 0
			if p.Algo == 0 {
				p.Eval = 2
			}
			p.A = r.pick(2, 2, 3, 4)
			p.Steps = r.in(1, 4)
			p.Slow = r.pick(0, 0, 20)
			genSlow(p, r, 3_600_000_000_000)
			p.B = r.n(2) // built on the same goroutine or on their own
		},
		body: func(t *Trial) {
			p := t.P
			ps := variants(p, p.A)
			im := newPicture(p.Img, p.W, p.H, p.Seed)
			ref := make([][]point, p.A)
			tied := make([]bool, p.A)
			for k := range ps {
				q := &ps[k]
				r := t.run(p.serial(), func() {
					var pr *probe
					w := &world{t: t, p: q, im: im}
					rr := newRng(mix64(q.Seed, 11))
					w.algo = build(q, func() normgeom.NormPointGroup { return makePoints(q.Gen, q.Points, rr) },
						func(n int) evaluator.Evaluator {
							pr = newProbe(t, q, newEvaluator(q, im, n), q.Size)
							return pr
						}, newMutator(q))
					ref[k] = append(ref[k], w.at())
					for i := 0; i < q.Steps; i++ {
						tied[k] = tied[k] || hasTies(pr.cur)
						pr.next()
						w.algo.Step()
						ref[k] = append(ref[k], w.at())
					}
					tied[k] = tied[k] || hasTies(pr.cur)
				})
				t.mustFinish(r)
			}
			got := make([][]point, p.A)
			r := t.run(p.perturbed(0), func() {
				var wg ssync.WaitGroup
				ws := make([]*world, p.A)
				for k := range ps {
					if p.B == 0 {
						ws[k] = ownWorld(t, &ps[k], im)
					}
				}
				for k := range ps {
					k := k
					wg.Add(1)
					vsim.Spawn(func() {
						defer wg.Done()
						if ws[k] == nil {
							ws[k] = ownWorld(t, &ps[k], im)
						}
						got[k] = append(got[k], ws[k].at())
						for i := 0; i < ps[k].Steps; i++ {
							ws[k].algo.Step()
							got[k] = append(got[k], ws[k].at())
						}
					})
				}
				wg.Wait()
			})
			t.mustFinish(r)
			for k := range ps {
				if ps[k].Algo == 0 && tied[k] {
					t.hit("instances not compared because members tie")
					continue
				}
				if d := diff(ref[k], got[k]); d != "" {
					t.fail("interference", "%s: instance %d of %d stepped concurrently differs from its solo run: %s", describeWorld(&ps[k]), k, p.A, d)
				}
				t.hit("instances compared")
			}
		},
		rule:  "per case two to four solo runs and one run of all instances on separate goroutines; distinct by schedule and event hash; non-trivial if at least three task switches happened",
		quick: 120000, deep: 10000000, wall: 30,
	}
}

// ---- C18 ----

// timed measures evaluations in simulated time.
type timed struct {
	evaluator.Evaluator
	first, last, longest int64
	any                  bool
	p                    *Params
	n                    int
	fail                 int // panic in the evaluation with this number of the step, if positive
}

func (f *timed) Get(i int) fitness.Function { return &timedFn{f, f.Evaluator.Get(i)} }

type timedFn struct {
	f     *timed
	inner fitness.Function
}

func (x *timedFn) Calculate(d fitness.PointsData) float64 {
	f := x.f
	s := vsim.Now()
	if !f.any {
		f.any, f.first = true, s
	}
	if f.fail > 0 {
		if f.fail--; f.fail == 0 {
			panic(boom{f.n})
		}
	}
	if f.p.A > 0 {
		f.n++
		if h := mix64(f.p.Seed, uint64(f.n)); h%4 == 0 {
			vsim.Sleep(int64(h>>8) % int64(f.p.A))
		}
	}
	v := x.inner.Calculate(d)
	e := vsim.Now()
	if e > f.last {
		f.last = e
	}
	if e-s > f.longest {
		f.longest = e - s
	}
	return v
}

func init() {
	scenarios["C18"] = &Scenario{
		gen: func(p *Params, r *rng) {
			genWorld(p, r)
			genMisc(p, r)
			if r.chance(60) {
				p.Eval = 2
				p.Wrap = r.pick(0, 1, 2)
			}
			p.Slow = r.pick(0, 10)
			genSlow(p, r, 3_600_000_000_000)
			p.A = r.pick(0, 1_000, 1_000_000, 3_000_000_000)
			p.Faults[vsim.DrawClock] = r.pick(0, 100_000, 500_000)
			p.B = r.n(3)     // 0, 1: step by step; 2: RunAlgorithm; 3: GenerateAlgorithmOutput
			p.C = r.in(1, 6) // repetitions
			p.D = r.n(2)     // pause between steps
			p.Steps = r.in(1, 8)
			if p.B == 2 {
				p.Steps = r.in(1, 4)
				p.C = r.in(1, 4)
				if r.chance(40) {
					p.B = 3
					p.Steps = r.in(1, 6)
					p.C = r.pick(1, 1, 2, 3, 4, 10)
					p.F = r.pick(0, 1_000, 100_000, 5_000_000, 700_000_000, 50_000_000_000)
					p.Img = r.n(4)
					p.Stall = 0
				}
			}
			p.Scale = r.pick(0, 0, 1, 2, 5)
			p.E = r.pick(0, 0, 0, 20, 50) // percent of steps that fail
			if r.chance(1) {
				genLong(p, r)
			}
		},
		body: func(t *Trial) {
			if t.P.B == 2 {
				progress(t)
				return
			}
			if t.P.B == 3 {
				reports(t)
				return
			}
			p := t.P
			r := t.run(p.perturbed(0), func() {
				var tm *timed
				w := newWorld(t, p, func(w *world, e evaluator.Evaluator) evaluator.Evaluator {
					tm = &timed{Evaluator: e, p: p}
					return tm
				})
				if g := w.algo.Stats().Generation; g != 0 {
					t.fail("generation", "%s: the generation is %d after construction", describeWorld(p), g)
				}
				i := 0
				for k := 1; k <= p.Steps; k++ {
					if p.D == 1 {
						vsim.Sleep(int64(mix64(p.Seed, uint64(k)) % 5_000_000_000))
					}
					if h := mix64(p.Seed, 9000+uint64(k)); int(h%100) < p.E {
						// a step that does not complete, after which the caller goes on
						st := w.algo.Stats()
						*tm = timed{Evaluator: tm.Evaluator, p: p, n: tm.n, fail: 1 + int(h>>8)%p.Size}
						died := true
						func() {
							defer func() {
								if died && vsim.Active() {
									recover()
								}
							}()
							w.algo.Step()
							died = false
						}()
						if !vsim.Active() {
							return
						}
						if died {
							t.hit("steps failed")
							n := w.algo.Stats()
							if n.TimeForGen = st.TimeForGen; n != st {
								t.fail("failed-step", "%s: a step that failed changes the statistics from %v to %v", describeWorld(p), st, n)
							}
							if p.Eval != 2 {
								return
							}
						} else {
							i++
						}
						continue
					}
					i++
					*tm = timed{Evaluator: tm.Evaluator, p: p, n: tm.n}
					before := vsim.Now()
					w.algo.Step()
					after := vsim.Now()
					s := w.algo.Stats()
					if s.Generation != i {
						t.fail("generation", "%s: the generation is %d after %d steps", describeWorld(p), s.Generation, i)
					}
					d := int64(s.TimeForGen)
					if d < 0 || d > after-before {
						t.fail("time", "%s: step %d took %d ns, the reported time is %d ns", describeWorld(p), i, after-before, d)
					}
					if d < tm.longest || d < tm.last-tm.first {
						t.fail("time", "%s: the evaluations of step %d took %d ns, the reported time is %d ns", describeWorld(p), i, tm.last-tm.first, d)
					}
					t.hit("steps timed")
				}
			})
			t.mustFinish(r)
		},
		rule:  "one run per case, in simulated time with wall-clock jumps, slow evaluations and pauses; a third of the cases runs the progress printer or the output writer; distinct by schedule and event hash; non-trivial if at least three task switches happened or the run was ended by the harness",
		quick: 240000, deep: 20000000, wall: 30,
	}
}

// counted calls hook before every step of an algorithm.
type counted struct {
	algorithm.Algorithm
	n      int
	before func(n int) // n steps have been completed
	after  func(n int)
}

func (c *counted) Step() {
	c.before(c.n)
	c.Algorithm.Step()
	c.n++
	if c.after != nil {
		c.after(c.n)
	}
}

// progress checks RunAlgorithm's output.
func progress(t *Trial) {
	p := t.P
	r := t.run(p.perturbed(0), func() {
		w := newWorld(t, p, func(w *world, e evaluator.Evaluator) evaluator.Evaluator {
			w.pr = newProbe(t, p, e, p.Size)
			return w.pr
		})
		first := []int{0, 0, 1, 2, 3, 5}[mix64(p.Seed, 71)%6] // steps before it runs
		for i := 0; i < first; i++ {
			w.pr.next()
			w.algo.Step()
		}
		text := ""
		lines := 0
		vsim.OnPrint = func(fd int, s string) {
			if fd == 1 {
				text += s
			}
		}
		c := &counted{Algorithm: w.algo}
		c.before = func(n int) {
			w.pr.next()
			due := n%p.C == 0 && n > 0
			if !due {
				if text != "" {
					t.fail("early-progress", "RunAlgorithm(%d) printed %q after %d steps", p.C, text, n)
				}
			} else {
				s := w.algo.Stats()
				ls := strings.Split(strings.TrimSpace(text), "\n")
				if text == "" || len(ls) != 1 {
					t.fail("progress-count", "RunAlgorithm(%d) printed %d lines (%q) after %d steps instead of one", p.C, len(ls), text, n)
				}
				gen, fit := fmt.Sprint(s.Generation), fmt.Sprint(s.BestFitness)
				tok := strings.FieldsFunc(ls[0], func(c rune) bool { return c == ' ' || c == ',' || c == '|' || c == ':' || c == '\t' })
				has := func(x string) bool {
					for _, y := range tok {
						if x == y {
							return true
						}
					}
					return false
				}
				if !has(gen) || !has(fit) || s.Generation != first+n {
					t.fail("progress-content", "RunAlgorithm(%d) printed %q after %d steps of an algorithm at generation %d; the generation is %s and the best fitness %s", p.C, ls[0], n, first, gen, fit)
				}
				lines++
				text = ""
				t.hit("progress lines checked")
			}
			if n >= p.Steps*p.C+1 {
				vsim.CrashNow("enough")
			}
		}
		utils.RunAlgorithm(c, p.C)
	})
	vsim.OnPrint = nil
	if r.Outcome != vsim.Crashed {
		t.mustFinish(r)
		t.fail("ended", "RunAlgorithm returned")
	}
}

// reports checks what GenerateAlgorithmOutput prints about a round.
func reports(t *Trial) {
	p := t.P
	out := outFiles[p.Gen%len(outFiles)]
	prepareDisk(p, out)
	r := t.run(p.perturbed(0), func() {
		text := ""
		var at int64 // when the round's first line was printed
		vsim.OnPrint = func(fd int, s string) {
			if fd != 1 {
				return
			}
			if text == "" {
				at = vsim.Now()
			}
			text += s
		}
		var inner algorithm.Algorithm = newScripted(p.Img, int64(p.F), mix64(p.Seed, 900))
		for i := p.D * 3; i > 0; i-- {
			inner.Step()
		}
		var from, to int64 // of the round's steps
		var s algorithm.Stats
		c := &counted{Algorithm: inner}
		c.before = func(n int) {
			if n%p.C == 0 && n > 0 {
				lines := 0
				for _, l := range strings.Split(text, "\n") {
					tok := strings.FieldsFunc(l, func(c rune) bool { return strings.ContainsRune(" ,|:\t=", c) })
					has := map[string]bool{}
					for _, x := range tok {
						has[x] = true
					}
					if !has[fmt.Sprint(s.Generation)] || !has[fmt.Sprint(s.BestFitness)] {
						continue
					}
					lines++
					low, high := float64(to-from)/float64(p.C)/1e6, float64(at-from)/float64(p.C)/1e6
					good := false
					for _, x := range tok {
						v, err := strconv.ParseFloat(x, 64)
						good = good || err == nil && v >= low-0.002 && v <= high*1.01+0.3
					}
					if !good {
						t.fail("printed-time", "GenerateAlgorithmOutput(%d) printed %q although a step of this round took %v ms on average (%v ms until it was printed)", p.C, l, low, high)
					}
				}
				if lines != 1 {
					t.fail("printed-stats", "GenerateAlgorithmOutput(%d) printed %d lines with generation %d and fitness %v of the round (%q)", p.C, lines, s.Generation, s.BestFitness, text)
				}
				text = ""
				t.hit("printed rounds checked")
				if n >= p.Steps*p.C {
					vsim.CrashNow("enough")
				}
			}
			if n%p.C == 0 {
				if text != "" {
					t.fail("printed-early", "GenerateAlgorithmOutput(%d) printed %q before the round's steps", p.C, text)
				}
				from = vsim.Now()
			}
		}
		c.after = func(n int) {
			if n%p.C == 0 {
				to, s = vsim.Now(), inner.Stats()
			}
			if text != "" {
				t.fail("printed-early", "GenerateAlgorithmOutput(%d) printed %q after %d steps", p.C, text, n)
			}
		}
		utils.GenerateAlgorithmOutput(out, c, p.C)
	})
	vsim.OnPrint = nil
	if r.Outcome != vsim.Crashed {
		t.mustFinish(r)
		t.fail("ended", "GenerateAlgorithmOutput returned")
	}
}

// ---- C19 ----

func init() {
	scenarios["C19"] = &Scenario{
		gen: func(p *Params, r *rng) {
			genWorld(p, r)
			genMisc(p, r)
			if p.Algo == 0 {
				p.Eval = 2
				p.Wrap = r.pick(0, 1, 2)
				p.Gen = r.pick(0, 1, 3)
			} else if p.Wrap == 3 {
				p.Wrap = 0
			}
			p.Steps = r.in(2, 8)
			p.Rate = r.pick(5, 10, 30, 50)
			p.A = r.n(1 << 12) // after which steps
			p.B = r.n(5)       // how
			if r.chance(1) {
				genLong(p, r)
			}
		},
		body: func(t *Trial) {
			p := t.P
			tied := false
			var ref []point
			r := t.run(p.serial(), func() {
				w := newWorld(t, p, func(w *world, e evaluator.Evaluator) evaluator.Evaluator {
					w.pr = newProbe(t, p, e, p.Size)
					return w.pr
				})
				ref = append(ref, w.at())
				for i := 0; i < p.Steps; i++ {
					tied = tied || hasTies(w.pr.cur)
					w.pr.next()
					w.algo.Step()
					ref = append(ref, w.at())
				}
				tied = tied || hasTies(w.pr.cur)
			})
			t.mustFinish(r)
			if p.Algo == 0 && tied {
				t.skip("different members tie")
				return
			}
			rr := newRng(mix64(p.Seed, 601))
			var kept normgeom.NormPointGroup
			got := trajectory(t, p.perturbed(0), p, func(i int, w *world) {
				if p.A>>uint(i)&1 == 0 && i > 0 {
					return
				}
				tamper(p.B, w.algo.Best(), rr)
				if kept != nil && rr.n(2) == 0 {
					tamper(rr.n(5), kept, rr)
				}
				kept = w.algo.Best()
				t.hit("results tampered with")
			})
			for i := range got { // what tampering left in the reported group itself does not count
				if d := diff(ref[i:i+1], got[i:i+1]); d != "" {
					t.fail("not-detached", "%s: after the caller modified the returned points, step %d differs (best fitness %v / %v)", describeWorld(p), i,
						math.Float64frombits(ref[i].Fit), math.Float64frombits(got[i].Fit))
				}
			}
			t.hit("trajectories compared")
		},
		rule:  "per case a run that leaves results alone and a run, under another schedule, in which the caller modifies them between steps; distinct by schedule and event hash; non-trivial if at least three task switches happened",
		quick: 200000, deep: 15000000, wall: 30,
	}
}

func tamper(kind int, g normgeom.NormPointGroup, r *rng) {
	for i := range g {
		switch kind {
		case 0:
			g[i] = normgeom.NormPoint{X: r.f(), Y: r.f()}
		case 1:
			g[i] = normgeom.NormPoint{X: math.NaN(), Y: math.Inf(1)}
		case 2:
			if i == 0 {
				g[i].X += 0.01
			}
		case 3:
			j := r.n(len(g))
			g[i], g[j] = g[j], g[i]
		case 4:
			g[i] = normgeom.NormPoint{X: -5, Y: 7}
		}
	}
	if cap(g) > len(g) {
		h := g[:cap(g)]
		for i := len(g); i < len(h); i++ {
			h[i] = normgeom.NormPoint{X: 9, Y: 9}
		}
	}
	_ = append(g, normgeom.NormPoint{X: 3, Y: 3})
}
