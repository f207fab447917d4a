package main

import (
	"fmt"
	"runtime"
	"runtime/debug"

	"github.com/RH12503/Triangula/algorithm/evaluator"
	"github.com/RH12503/Triangula/utils"

	"verifsim/vsim"
)

// ---- C30 ----

// level is what is still there when a part of the program has come to rest.
type level struct{ tasks, timers, files int }

// settled waits until nothing more happens and idle workers have gone.
func settled() level {
	vsim.WaitIdle()
	vsim.Sleep(20_000_000_000)
	vsim.WaitIdle()
	return level{vsim.LiveTasks(), vsim.PendingTimers(), vsim.TheDisk.Handles}
}

// above says what l has more of than m.
func (l level) above(m level) string {
	switch {
	case l.tasks > m.tasks:
		return fmt.Sprintf("%d goroutines are left, and %d before", l.tasks, m.tasks)
	case l.timers > m.timers:
		return fmt.Sprintf("%d timers are armed, and %d before", l.timers, m.timers)
	case l.files > m.files:
		return fmt.Sprintf("%d files are open, and %d before", l.files, m.files)
	}
	return ""
}

// heap is the size of the live heap without what the simulator keeps.
func heap() int64 {
	runtime.GC()
	runtime.GC() // the first one moves the contents of pools to where the second one frees them
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc) - vsim.OwnBytes()
}

// growth watches the live heap over a long history: it must not grow in every one of its later
// parts, nor by a lot in more than one of them.
type growth struct{ at []int64 }

const (
	leakBytes = 8 << 10  // per part
	leakTotal = 48 << 10 // over the later parts
)

func (g *growth) sample() { g.at = append(g.at, heap()) }

func (g *growth) leaks() bool {
	n := len(g.at)
	if n < 4 {
		return false
	}
	grown := 0
	for i := n - 3; i < n; i++ {
		if g.at[i]-g.at[i-1] >= leakBytes {
			grown++
		}
	}
	return grown == 3 || grown == 2 && g.at[n-1]-g.at[n-4] >= leakTotal
}

func init() {
	scenarios["C30"] = &Scenario{
		gen: func(p *Params, r *rng) {
			// A: what steps leave behind, the memory of a search, the output writer, profiles
			// and traces, the memory of triangulations, repeated operations
			genWorld(p, r)
			genMisc(p, r)
			p.PoolOff = 0
			p.A = r.pick(0, 0, 0, 0, 0, 0, 1, 1, 1, 2, 3, 4, 5, 5) // see above
			switch p.A {
			case 0:
				genCheap(p, r)
				p.B = r.pick(0, 0, 1, 2, 4) // panicking evaluations
				p.C = r.pick(0, 1, 2, 3, 4, 6, 40)
				p.D = r.in(1, 3) // instances
			case 1:
				p.Eval = r.pick(0, 0, 1, 1, 2)
				p.Wrap = 0
				p.Cutoff = r.in(1, 3)
				p.Size = 2*p.Cutoff + r.in(0, 4)
				p.Points = r.pick(1, 2, 4, 6, 8, 12)
				p.W, p.H = r.in(9, 40), r.in(9, 40)
				p.Block = r.pick(2, 3, 5)
				p.Cache = r.pick(0, 2, 4, 6)
				p.Gen = r.pick(0, 0, 1, 2, 3, 4, 5, 6)
				p.Steps = r.pick(40, 60, 90, 400) // per part
				if p.Steps == 400 {
					p.Cutoff, p.Size, p.Points = 1, r.in(2, 5), r.pick(1, 2, 4)
					p.W, p.H = r.in(9, 20), r.in(9, 20)
				}
				p.Faults[vsim.DrawPool] = 0
				if r.chance(60) {
					p.Policy = int(vsim.PolicySerial)
				}
				p.Gap = r.pick(1000, 30000)
			case 4:
				p.Eval = r.n(2)
				p.W, p.H = r.in(5, 60), r.in(5, 60)
				p.Points = r.pick(2, 4, 8, 16)
				p.Gen = r.pick(0, 0, 1, 2, 3, 4, 5, 6)
				p.E = 50
				p.Steps = r.pick(100, 300, 600)
			case 5:
				p.W, p.H = r.in(9, 36), r.in(9, 36)
				p.Points = r.pick(3, 4, 6, 9)
				p.Gen = r.pick(0, 0, 3, 5, 2)
				p.E = 45
				p.Size = 2*p.Cutoff + 1
				p.Wrap = r.pick(0, 0, 1, 2)
				if p.Eval != 2 {
					p.Wrap = 0
				}
				p.Cache = r.pick(1, 3, 6)
				p.Steps = r.pick(40, 60)
			case 2, 3:
				genFiles(p, r)
				p.Steps = r.in(2, 8)
				p.Slow = 0
				p.B = r.n(3) // of 3: profile or trace
				p.C = r.pick(1_000_000, 400_000_000)
				p.D = r.pick(0, 0, 0, 1) // a failing profiler or disk
				if p.D == 1 && p.A == 3 {
					p.Faults[vsim.DrawDisk] = 100_000
				}
			}
		},
		body: func(t *Trial) {
			p := t.P
			c := p.perturbed(0)
			c.MaxYields *= 40
			var r vsim.Result
			switch p.A {
			case 0:
				r = t.run(c, func() { leftBehind(t, p) })
			case 1:
				debug.FreeOSMemory()
				r = t.run(c, func() { longRun(t, p) })
			case 4:
				r = t.run(c, func() { churn(t, p) })
			case 5:
				r = t.run(c, func() { again(t, p) })
			case 2:
				out := outFiles[p.Gen%len(outFiles)]
				prepareDisk(p, out)
				var first level
				rec := &recorder{reps: p.Cutoff}
				rec.onRound = func(k int) {
					now := settled()
					if k == 1 {
						first = now
					}
					if s := now.above(first); s != "" {
						t.fail("output", "after round %d of the output writer %s (after the first round)", k, s)
					}
					t.hit("rounds of the output writer")
					if k >= p.Steps {
						vsim.CrashNow("enough")
					}
				}
				r = t.run(c, func() {
					rec.Algorithm = startAlgorithm(t, p, 0)
					utils.GenerateAlgorithmOutput(out, rec, p.Cutoff)
				})
				if r.Outcome == vsim.Crashed {
					return
				}
			case 3:
				r = t.run(c, func() { profiled(t, p) })
				if p.D == 1 && r.Outcome == vsim.Exited {
					return
				}
			}
			t.mustFinish(r)
		},
		rule:  "per case one to three optimisers after each step of which nothing may be left, one long history of a small optimiser whose live memory is measured five times, or several rounds of the output writer, profiles or traces; distinct by schedule and event hash; non-trivial if at least three task switches happened",
		quick: 200000, deep: 10000000, wall: 30,
	}
}

// leftBehind runs optimisers one after another and looks at what their steps leave.
func leftBehind(t *Trial, p *Params) {
	var first *level
	rr := newRng(mix64(p.Seed, 611))
	check := func(what string) {
		now := settled()
		if first == nil {
			first = &now
		}
		if s := now.above(*first); s != "" {
			t.fail("left-behind", "%s: after %s %s (after the first construction)", describeWorld(p), what, s)
		}
		t.hit("comparisons")
	}
	for k := 0; k < p.D; k++ {
		q := *p
		q.Seed = mix64(p.Seed, uint64(k)) >> 1
		fa := &faulty{t: t, at: map[int]int{}}
		for i := 0; i < p.B && k > 0; i++ {
			fa.at[rr.n((q.Steps+1)*q.Size)] = p.C
		}
		attempt := func(f func()) (ok bool) {
			defer func() {
				if !ok {
					if e := recover(); fa.hits == 0 && vsim.Active() {
						panic(e)
					}
					t.hit("failed steps")
				}
			}()
			f()
			return true
		}
		var w *world
		ok := attempt(func() {
			w = newWorld(t, &q, func(_ *world, e evaluator.Evaluator) evaluator.Evaluator {
				fa.Evaluator = e
				return fa
			})
		})
		check(fmt.Sprintf("construction %d", k+1))
		for i := 0; i < q.Steps && ok; i++ {
			ok = attempt(w.algo.Step)
			check(fmt.Sprintf("step %d of optimiser %d", i+1, k+1))
		}
	}
}

const parts = 5

// watch performs something many times in several parts and measures the memory after each.
func watch(t *Trial, n int, what string, f func(i int)) {
	var g growth
	for i := 0; i < parts; i++ {
		for k := 0; k < n; k++ {
			f(i*n + k)
		}
		g.sample()
	}
	t.hit("long histories")
	if g.leaks() {
		t.fail("memory", "the live memory after each %d %s is %v bytes", n, what, g.at)
	}
}

// churn edits and copies a few tessellations again and again.
func churn(t *Trial, p *Params) {
	r := newRng(mix64(p.Seed, 617))
	xs := []*tess{newTess(p.Eval == 1, p.W, p.H), newTess(p.Eval == 1, p.W, p.H), newTess(p.Eval == 1, p.W, p.H)}
	watch(t, p.Steps, []string{"edits of a triangulation", "edits of a tessellation"}[p.Eval], func(int) {
		x := xs[r.n(3)]
		if r.n(4) == 0 {
			if y := xs[r.n(3)]; y != x {
				x.set(y)
			}
		}
		for len(x.pts) < p.Points {
			x.insert(place(p, r, x.pts))
		}
		for len(x.pts) > 2*p.Points {
			x.remove(r.n(len(x.pts)))
		}
		edit(p, x, r)
	})
	runtime.KeepAlive(xs)
}

// again performs one-shot operations and builds optimisers again and again.
func again(t *Trial, p *Params) {
	r := newRng(mix64(p.Seed, 619))
	kind := r.n(3)
	watch(t, p.Steps, []string{"optimisers that were built and dropped", "one-shot operations", "optimisers and one-shot operations"}[kind], func(int) {
		q := *p
		q.Seed = r.next() >> 2
		if kind != 1 {
			w := newWorld(t, &q, nil)
			w.algo.Step()
		}
		if kind != 0 {
			s := &shared{p: &q}
			s.fill()
			for i := 0; i < 3; i++ {
				s.do(r.n(len(opNames)), solid(&q, r.next()), r.next(), false)
			}
		}
	})
}

// longRun measures the memory of a long history.
func longRun(t *Trial, p *Params) {
	w := newWorld(t, p, nil)
	watch(t, p.Steps, "steps ("+describeWorld(p)+")", func(int) { w.algo.Step() })
	runtime.KeepAlive(w)
}

// profiled makes several profiles or traces.
func profiled(t *Trial, p *Params) {
	out := outFiles[p.Gen%len(outFiles)]
	prepareDisk(p, out)
	a := newScripted(3, int64(p.C), mix64(p.Seed, 900))
	var first level
	for k := 0; k < 3; k++ {
		if p.B == 2 {
			a.cost = 1000
			utils.GenerateTrace(out, a)
		} else {
			utils.GenerateProfile(out, a, 1)
		}
		now := settled()
		if k == 0 {
			first = now
		}
		if s := now.above(first); s != "" {
			t.fail("profile", "after profile or trace %d %s (after the first one)", k+1, s)
		}
		if now.files > 0 {
			t.fail("profile", "after profile or trace %d %d files are open", k+1, now.files)
		}
		t.hit("profiles and traces")
	}
}
