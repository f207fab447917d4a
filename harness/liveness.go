package main

import (
	"fmt"
	"math"

	"github.com/RH12503/Triangula/algorithm/evaluator"
	"github.com/RH12503/Triangula/fitness"
	"github.com/RH12503/Triangula/normgeom"
	"github.com/panjf2000/ants/v2"

	"verifsim/vsim"
)

// ---- C09 ----

func init() {
	scenarios["C09"] = &Scenario{
		gen: func(p *Params, r *rng) {
			genWorld(p, r)
			genMisc(p, r)
			if r.chance(70) {
				p.Eval = 2
				p.Wrap = r.pick(0, 0, 1, 2)
			}
			if r.chance(20) { // any population larger than the cutoff
				p.Size = p.Cutoff + r.in(1, 4)
			}
			p.Slow = r.pick(0, 0, 10, 40)
			genSlow(p, r, 86_400_000_000_000)
			p.Stall = r.pick(0, 50, 300)
			p.StallLen = r.pick(1_000, 30_000, 300_000)
			p.Steps = r.in(1, 6)
			p.Faults[vsim.DrawClock] = r.pick(0, 100_000)
			p.A = r.pick(0, 1, 2, 3, 6)                         // disturbances of the worker pool
			p.B = r.pick(0, 1, 2, 3)                            // which
			p.C = r.pick(2_000, 20_000, 200_000, 3_000_000_000) // nanoseconds between them
			p.D = r.n(2)                                        // the pool is already closed at the start
			p.PoolOff = 0
		},
		body: func(t *Trial) {
			p := t.P
			last := "construction"
			r := t.run(p.perturbed(0), func() {
				rr := newRng(mix64(p.Seed, 401))
				if p.D == 1 && p.A > 0 {
					ants.Release()
					t.hit("pool closed before the start")
				}
				if p.A > 0 {
					vsim.Spawn(func() { disturb(t, p, rr) })
				}
				check := func(w *world, g *genRec) {
					want := p.Size
					if p.Algo == 0 {
						want -= p.Cutoff
					}
					seen := map[int]bool{}
					for _, e := range g.evals {
						seen[e.slot] = true
						if e.end == 0 {
							t.fail("unfinished", "generation %d ended while member %d was being evaluated", g.n, e.slot)
						}
					}
					for i := 0; i < want; i++ {
						if !seen[i] {
							t.fail("lost", "%s: generation %d completed without evaluating member %d", describeWorld(p), g.n, i)
						}
					}
					t.hit("generations completed")
				}
				w := newWorld(t, p, func(w *world, e evaluator.Evaluator) evaluator.Evaluator {
					w.pr = newProbe(t, p, e, p.Size)
					return w.pr
				})
				check(w, w.pr.cur)
				for i := 0; i < p.Steps; i++ {
					last = fmt.Sprintf("step %d", i+1)
					w.pr.next()
					w.algo.Step()
					check(w, w.pr.cur)
					t.note(w.at().Best)
				}
			})
			switch r.Outcome {
			case vsim.Stuck, vsim.StepLimit:
				t.fail("hang", "%s: %s never completes (%s)", describeWorld(p), last, r.Msg)
			}
			t.mustFinish(r)
		},
		rule:  "one optimiser run per case with stalled and slow workers, worker expiry, wall-clock jumps and a second goroutine that closes, reopens and occupies the shared worker pool; distinct by schedule and event hash; non-trivial if at least three task switches happened",
		quick: 240000, deep: 20000000, wall: 30,
	}
}

// disturb is another part of the program that uses the shared pool inconsiderately.
func disturb(t *Trial, p *Params, r *rng) {
	for i := 0; i < p.A; i++ {
		switch r.n(3) {
		case 0:
			vsim.Sleep(int64(r.n(p.C)) + 1)
		case 1:
			for n := r.n(400); n > 0; n-- {
				vsim.Y()
			}
		default:
			vsim.Gosched()
		}
		k := p.B
		if k == 3 {
			k = r.n(3)
		}
		switch k {
		case 0:
			ants.Release()
			t.hit("pool shut down")
		case 1:
			ants.Release()
			t.hit("pool shut down")
			for n := r.n(60); n > 0; n-- {
				vsim.Y()
			}
			ants.Reboot()
			t.hit("pool restarted")
		case 2:
			for n := 1 + r.n(3); n > 0; n-- {
				d := int64(r.n(p.C)) + 1
				if ants.Submit(func() { vsim.Sleep(d) }) == nil {
					t.hit("other work in the pool")
				}
			}
		}
	}
}

// ---- C10 ----

// faulty makes chosen evaluations of an evaluator panic.
type faulty struct {
	evaluator.Evaluator
	t    *Trial
	at   map[int]int // evaluation number -> kind of panic
	n    int
	hits int
	open int
}

type boom struct{ n int }

func (b boom) Error() string { return fmt.Sprintf("evaluation %d failed", b.n) }

func (f *faulty) Get(i int) fitness.Function { return &faultyFn{f, f.Evaluator.Get(i)} }

type faultyFn struct {
	f     *faulty
	inner fitness.Function
}

func (x *faultyFn) Calculate(d fitness.PointsData) float64 {
	f := x.f
	k := f.n
	f.n++
	f.open++
	defer func() { f.open-- }()
	kind, ok := f.at[k]
	if ok && kind < 4 {
		f.hits++
		f.t.hit("panics before the calculation")
		explode(kind, k)
	}
	if ok && kind >= 4 { // in the middle
		vsim.PanicAfter(int64(1 + kind*37))
		defer vsim.PanicAfter(0)
		defer func() {
			if e := recover(); e != nil {
				f.hits++
				f.t.hit("panics during the calculation")
				panic(e)
			}
		}()
	}
	return x.inner.Calculate(d)
}

func explode(kind, k int) {
	switch kind {
	case 1:
		var s []int
		_ = s[k]
	case 2:
		panic("evaluation failed")
	case 3:
		var m *normgeom.NormPoint
		m.X = 1
	}
	panic(boom{k})
}

func init() {
	scenarios["C10"] = &Scenario{
		gen: func(p *Params, r *rng) {
			genWorld(p, r)
			genMisc(p, r)
			if r.chance(60) {
				p.Eval = 2
				p.Wrap = r.pick(0, 1, 2)
			}
			p.Rate = r.pick(20, 50, 100)
			p.Slow = r.pick(0, 0, 0, 20)
			genSlow(p, r, 3_600_000_000_000)
			p.Stall = r.pick(0, 0, 200)
			p.Steps = r.in(1, 5)
			p.A = r.pick(1, 1, 1, 2, 3) // failing evaluations
			p.B = r.in(0, (p.Steps+1)*p.Size)
			p.C = r.pick(0, 1, 2, 3, 4, 5, 6, 40)
			p.D = r.n(3) // 0 spread, 1 consecutive, 2 aim at combinations
		},
		body: func(t *Trial) {
			p := t.P
			var fa *faulty
			r := t.run(p.perturbed(0), func() {
				rr := newRng(mix64(p.Seed, 409))
				fa = &faulty{t: t, at: map[int]int{}}
				for i := 0; i < p.A; i++ {
					k := p.B + i
					if p.D == 0 && i > 0 {
						k = rr.n((p.Steps + 1) * p.Size)
					}
					fa.at[k] = p.C
				}
				var w *world
				failed := false
				attempt := func(what string, f func()) (died bool) {
					before := fa.hits
					var caught any
					ok := false
					func() {
						defer func() {
							if !ok {
								caught = recover()
							}
						}()
						f()
						ok = true
					}()
					if !vsim.Active() {
						return true
					}
					if ok && fa.hits > before {
						t.fail("swallowed", "%s: %s returned normally although evaluating a member panicked", describeWorld(p), what)
					}
					if !ok && fa.hits == before && failed {
						t.hit("steps after a failed one that panicked by themselves") // not promised
					} else if !ok && fa.hits == before {
						t.fail("own-panic", "%s: %s panicked by itself: %v", describeWorld(p), what, caught)
					}
					if !ok {
						t.hit("panics that reached the caller")
						t.hit(fmt.Sprintf("caught %T", caught))
					}
					return !ok
				}
				died := attempt("construction", func() {
					w = newWorld(t, p, func(w *world, e evaluator.Evaluator) evaluator.Evaluator {
						fa.Evaluator = e
						return fa
					})
				})
				if died {
					t.hit("construction failed")
					return
				}
				for i := 0; i < p.Steps; i++ {
					before := w.at()
					st := w.algo.Stats()
					if attempt(fmt.Sprintf("step %d", i+1), w.algo.Step) {
						t.hit("steps failed")
						after := w.algo.Stats()
						after.TimeForGen = st.TimeForGen // the time of a failed step is nobody's business
						if w.at() != before || after != st {
							t.fail("result-changed", "%s: after the failed step %d the reported best result or statistics changed: fitness %v to %v, generation %d to %d", describeWorld(p), i+1,
								math.Float64frombits(before.Fit), w.algo.Stats().BestFitness, before.Gen, w.algo.Stats().Generation)
						}
						if p.C >= 4 || !vsim.Active() {
							return // what was interrupted may be in any state
						}
						failed = true
						continue
					}
					if now := w.algo.Stats(); failed && (now.Generation != st.Generation+1 || now.BestFitness < st.BestFitness) {
						t.fail("after-failure", "%s: step %d, after a step that failed, took the generation from %d to %d and the best fitness from %v to %v", describeWorld(p), i+1,
							st.Generation, now.Generation, st.BestFitness, now.BestFitness)
					}
					if failed {
						t.hit("steps after a failed one")
					}
				}
				if fa.hits == 0 {
					t.hit("runs without a panic")
				}
			})
			switch r.Outcome {
			case vsim.Stuck, vsim.StepLimit:
				t.fail("hang", "%s: the step that requested a panicking evaluation never ends (%s)", describeWorld(p), r.Msg)
			case vsim.Panicked:
				t.fail("not-in-caller", "%s: the panic of an evaluation ended the program outside the caller: %s\n%s", describeWorld(p), r.Msg, shortStack(r.Stack))
			}
			t.mustFinish(r)
		},
		rule:  "one optimiser run per case in which chosen evaluations panic before or in the middle of their calculation; distinct by schedule and event hash; non-trivial if at least three task switches happened",
		quick: 240000, deep: 20000000, wall: 30,
	}
}

// ---- C12 ----

func init() {
	scenarios["C12"] = &Scenario{
		gen: func(p *Params, r *rng) {
			genWorld(p, r)
			genMisc(p, r)
			if p.Algo == 0 || r.chance(40) {
				p.Eval = 2
				p.Wrap = r.pick(0, 0, 1, 2)
				p.Gen = r.pick(0, 1, 3)
			} else if p.Wrap == 3 {
				p.Wrap = 0
			}
			p.Size = p.Cutoff*2 + r.in(0, 20)
			p.Steps = r.in(1, 4)
			if p.Eval == 2 && r.chance(8) { // as many as a real search has
				p.Points = r.pick(1, 2, 4)
				p.Size = p.Cutoff*2 + r.pick(r.in(20, 70), r.in(70, 140), r.in(140, 400))
				p.Steps = r.in(0, 2)
			}
			p.A = r.in(0, p.Steps) // generation
			n := p.Size
			if p.Algo == 0 {
				n -= p.Cutoff
			}
			p.B = r.n(n) // member
			p.C = r.pick(0, 0, 1)
			p.D = r.pick(0, 1_000_000, 5_000_000_000, 900_000_000_000)
			if r.chance(4) {
				p.D = r.pick(7_200_000_000_000, 100_000_000_000_000)
			}
			// D: nanoseconds the stall lasts beyond the others
			p.Rate = r.pick(10, 20, 30, 50)
			if p.CPUs < 2 {
				p.CPUs = 2 // one processor may be served by one worker
			}
		},
		body: func(t *Trial) {
			p := t.P
			one := func(hold bool, c vsim.Config, tied *bool) []point {
				var tr []point
				held, released := false, false
				var q vsim.WaitQ
				var w *world
				begun := map[int]bool{}
				r := t.run(c, func() {
					expect := p.Size
					if p.Algo == 0 {
						expect -= p.Cutoff
					}
					if hold {
						vsim.Spawn(func() {
							vsim.WaitIdle()
							if !held {
								t.fail("stall", "%s: the run stops before member %d of generation %d is evaluated", describeWorld(p), p.B, p.A)
							}
							done := 0
							for _, e := range w.pr.cur.evals {
								if !e.combo && e.end != 0 {
									done++
								}
							}
							t.hit("evaluations held")
							if done != expect-1 {
								t.fail("blocked", "%s: while the evaluation of member %d of generation %d is stalled, only %d of the %d others finish (%d have started)",
									describeWorld(p), p.B, p.A, done, expect-1, len(begun)-1)
							}
							if p.D > 0 {
								vsim.Sleep(int64(p.D))
							}
							released = true
							q.WakeAll()
						})
					}
					w = newWorld(t, p, func(x *world, e evaluator.Evaluator) evaluator.Evaluator {
						w = x
						x.pr = newProbe(t, p, e, p.Size)
						if hold {
							x.pr.onBegin = func(e *eval) {
								if x.pr.cur.n != p.A || e.combo {
									return
								}
								begun[e.slot] = true
								if e.slot == p.B && p.C == 0 {
									held = true
									for !released {
										q.Wait()
									}
								}
							}
							x.pr.onEnd = func(e *eval) { // stalled after the calculation
								if x.pr.cur.n == p.A && !e.combo && e.slot == p.B && p.C == 1 {
									held = true
									for !released {
										q.Wait()
									}
								}
							}
						}
						return x.pr
					})
					tr = append(tr, w.at())
					for i := 0; i < p.Steps; i++ {
						*tied = *tied || hasTies(w.pr.cur)
						w.pr.next()
						w.algo.Step()
						tr = append(tr, w.at())
					}
					*tied = *tied || hasTies(w.pr.cur)
				})
				if r.Outcome == vsim.Stuck {
					t.fail("hang", "%s: the step does not complete after the stall has ended", describeWorld(p))
				}
				t.mustFinish(r)
				return tr
			}
			tied, dummy := false, false
			ref := one(false, p.serial(), &tied)
			got := one(true, p.perturbed(0), &dummy)
			if p.Algo == 0 && tied {
				t.skip("different members tie")
				return
			}
			if d := diff(ref, got); d != "" {
				t.fail("different-result", "%s: a stall of member %d in generation %d changes the result: %s", describeWorld(p), p.B, p.A, d)
			}
			t.hit("results compared")
		},
		rule:  "per case a reference run and a run in which one evaluation is held until nothing else can run; distinct by schedule and event hash; non-trivial if at least three task switches happened",
		quick: 180000, deep: 15000000, wall: 30,
	}
}
