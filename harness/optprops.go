package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/RH12503/Triangula/algorithm/evaluator"
	"github.com/RH12503/Triangula/fitness"
	"github.com/RH12503/Triangula/mutation"
	"github.com/RH12503/Triangula/normgeom"

	"verifsim/vsim"
)

// optimise runs the trial's optimiser under c with a probe; check is called after
// construction and after every step.
func optimise(t *Trial, c vsim.Config, attach func(w *world), check func(w *world, g, prev *genRec)) vsim.Result {
	r := t.run(c, func() {
		w := newWorld(t, t.P, func(w *world, e evaluator.Evaluator) evaluator.Evaluator {
			w.pr = newProbe(t, t.P, e, t.P.Size)
			if attach != nil {
				attach(w)
			}
			return w.pr
		})
		check(w, w.pr.cur, nil)
		for i := 0; i < t.P.Steps; i++ {
			prev := w.pr.cur
			w.pr.next()
			w.algo.Step()
			check(w, w.pr.cur, prev)
			x := w.at()
			t.note(x.Best, x.Fit)
		}
	})
	t.mustFinish(r)
	return r
}

func describeWorld(p *Params) string {
	return fmt.Sprintf("%s, %s fitness, %s evaluator, %d members, cutoff %d, %d points, %dx%d image",
		[]string{"modified genetic", "simple"}[p.Algo], []string{"triangles", "polygons", "synthetic"}[p.Eval],
		[]string{"parallel", "many", "one", "chaotic cache"}[p.Wrap], p.Size, p.Cutoff, p.Points, p.W, p.H)
}

// ---- C01 ----

func init() {
	scenarios["C01"] = &Scenario{
		gen: func(p *Params, r *rng) {
			genWorld(p, r)
			genRand(p, r)
			genMisc(p, r)
			if p.Eval == 2 {
				p.Wrap = r.pick(0, 3)
			}
			p.Scale = r.pick(0, 0, 0, 3, 4, 7, 8) // other selections, with ties
		},
		body: func(t *Trial) {
			var pool []fitness.CacheFunction
			optimise(t, t.P.perturbed(0), func(w *world) { pool = nil }, func(w *world, g, prev *genRec) {
				for _, e := range g.evals {
					if len(pool) == 0 {
						vsim.Atomic(func() { pool = functions(t.P, w.im, 64) })
					}
					f := pool[len(pool)-1]
					pool = pool[:len(pool)-1]
					var want float64
					vsim.Atomic(func() { want = f.Calculate(fitness.PointsData{Points: e.pts.Copy()}) })
					t.hit("evaluations compared")
					if math.Abs(want-e.raw) <= 1e-9*(1+math.Abs(want)) {
						continue
					}
					if undecided(t.P, e.pts) {
						t.skip("points with several triangulations")
						continue
					}
					t.fail("stale-fitness", "%s: generation %d, member %d: the optimiser obtained fitness %.12g, a new evaluator computes %.12g for its points",
						describeWorld(t.P), g.n, e.slot, e.raw, want)
				}
			})
		},
		rule:  "one optimiser run per case, parameters, inputs and schedule drawn from the seed; distinct by schedule and event hash; non-trivial if evaluations of at least two tasks interleaved",
		quick: 180000, deep: 15000000, wall: 30,
	}
}

// ---- C02 ----

func init() {
	scenarios["C02"] = &Scenario{
		gen: func(p *Params, r *rng) {
			genWorld(p, r)
			genRand(p, r)
			genMisc(p, r)
			genCheap(p, r)
			p.Scale = r.pick(0, 0, 1, 1, 2, 3, 4, 5, 6, 7, 8)
			p.Gen = r.pick(0, 0, 1, 2, 3, 4, 5, 6)
		},
		body: func(t *Trial) {
			last := math.Inf(-1)
			optimise(t, t.P.perturbed(0), nil, func(w *world, g, prev *genRec) {
				best, fit := w.algo.Best(), w.algo.Stats().BestFitness
				if len(g.evals) == 0 {
					t.fail("nothing-evaluated", "generation %d evaluated no member", g.n)
				}
				max := math.Inf(-1)
				for _, e := range g.evals {
					max = math.Max(max, e.fit)
				}
				if fit != max {
					t.fail("best-fitness", "%s: generation %d reports best fitness %v, the highest evaluated is %v", describeWorld(t.P), g.n, fit, max)
				}
				ok := false
				for _, e := range g.evals {
					ok = ok || e.fit == fit && samePoints(e.pts, best)
				}
				if !ok {
					t.fail("best-points", "%s: generation %d: the reported best points are not those of an evaluated member with the best fitness %v", describeWorld(t.P), g.n, fit)
				}
				if fit < last-1e-12*(1+math.Abs(last)) {
					t.fail("got-worse", "%s: generation %d: best fitness fell from %v to %v", describeWorld(t.P), g.n, last, fit)
				}
				last = fit
				t.hit("generations checked")
				if max <= 0 {
					t.hit("generations with no positive fitness")
				}
			})
		},
		rule:  "one optimiser run per case; fitness scales include negative, zero and constant; distinct by schedule and event hash; non-trivial if evaluations of at least two tasks interleaved",
		quick: 180000, deep: 15000000, wall: 30,
	}
}

// ---- C03 ----

func survivorsOf(g *genRec) (surv, rest []*eval) {
	for _, e := range g.evals {
		if e.base < 0 {
			surv = append(surv, e)
		} else {
			rest = append(rest, e)
		}
	}
	return
}

func init() {
	scenarios["C03"] = &Scenario{
		gen: func(p *Params, r *rng) {
			genWorld(p, r)
			genRand(p, r)
			genMisc(p, r)
			genCheap(p, r)
			p.Scale = r.pick(0, 0, 0, 1, 1, 3, 4, 6, 8)
		},
		body: func(t *Trial) {
			optimise(t, t.P.perturbed(0), nil, func(w *world, g, prev *genRec) {
				if prev == nil {
					return
				}
				surv, _ := survivorsOf(g)
				if len(surv) != t.P.Cutoff {
					t.fail("survivor-count", "%s: generation %d has %d unmodified members, the cutoff is %d", describeWorld(t.P), g.n, len(surv), t.P.Cutoff)
				}
				byKey := map[uint64][]float64{}
				for _, e := range prev.evals {
					k := hashPoints(e.pts)
					byKey[k] = append(byKey[k], e.fit)
				}
				count := map[uint64]int{}
				for _, e := range surv {
					count[hashPoints(e.pts)]++
				}
				var got []float64
				for _, e := range surv {
					k := hashPoints(e.pts)
					n := count[k]
					if n == 0 {
						continue
					}
					count[k] = 0
					fs := byKey[k]
					if len(fs) < n {
						t.fail("survivor-unknown", "%s: generation %d: %d unmodified members have points that %d evaluated members of the generation before had",
							describeWorld(t.P), g.n, n, len(fs))
					}
					sort.Sort(sort.Reverse(sort.Float64Slice(fs)))
					got = append(got, fs[:n]...)
				}
				sort.Sort(sort.Reverse(sort.Float64Slice(got)))
				want := sortedFits(prev.evals)[:t.P.Cutoff]
				for i := range got {
					if got[i] != want[i] {
						t.fail("not-fittest", "%s: generation %d keeps members of fitness %v; the fittest %d evaluated before had %v", describeWorld(t.P), g.n, got, t.P.Cutoff, want)
					}
				}
				t.hit("selections checked")
			})
		},
		rule:  "one optimiser run per case; distinct by schedule and event hash; non-trivial if evaluations of at least two tasks interleaved",
		quick: 180000, deep: 15000000, wall: 30,
	}
}

// ---- C04 ----

func init() {
	scenarios["C04"] = &Scenario{
		gen: func(p *Params, r *rng) {
			genWorld(p, r)
			genRand(p, r)
			genMisc(p, r)
			p.Algo = 0
			p.Size = 2*p.Cutoff + r.in(1, 14)
			p.Rate = r.pick(10, 20, 30, 50, 50, 100)
			genCheap(p, r)
			p.Scale = r.pick(0, 0, 0, 1, 3, 4, 8)
		},
		body: func(t *Trial) {
			optimise(t, t.P.perturbed(0), nil, func(w *world, g, prev *genRec) { checkCombos(t, g, prev) })
		},
		rule:  "one run of the modified genetic algorithm per case; distinct by schedule and event hash; non-trivial if evaluations of at least two tasks interleaved",
		quick: 180000, deep: 15000000, wall: 30,
	}
}

func checkCombos(t *Trial, g, prev *genRec) {
	if prev == nil {
		for _, e := range g.evals {
			if e.base >= 0 {
				t.fail("extra-member", "a combined member is evaluated during construction")
			}
		}
		return
	}
	type cand struct {
		fit  float64
		muts []mutation.Mutation
	}
	surv, rest := survivorsOf(g)
	combos := map[int][]*eval{}
	better := map[int]map[int]*cand{} // base slot -> point -> fittest mutations
	bases := map[int]*eval{}
	for _, e := range surv {
		bases[e.slot] = e
	}
	for _, e := range rest {
		if e.combo {
			combos[e.base] = append(combos[e.base], e)
		}
	}
	for _, e := range rest {
		if e.combo {
			continue
		}
		b := bases[e.base]
		if b == nil {
			t.fail("base-unknown", "generation %d: member %d has base %d, which is not an unmodified member", g.n, e.slot, e.base)
		}
		if !(e.fit > b.fit) {
			continue
		}
		m := better[e.base]
		if m == nil {
			m = map[int]*cand{}
			if len(e.muts) > 0 {
				better[e.base] = m
			}
		}
		for _, mu := range e.muts {
			c := m[mu.Index]
			if c == nil || e.fit > c.fit {
				m[mu.Index] = &cand{e.fit, []mutation.Mutation{mu}}
			} else if e.fit == c.fit {
				c.muts = append(c.muts, mu)
			}
		}
	}
	for _, b := range surv {
		want := better[b.slot]
		got := combos[b.slot]
		delete(combos, b.slot)
		if len(want) == 0 {
			if len(got) > 0 {
				t.fail("needless-combination", "generation %d: base %d has no better child but is combined", g.n, b.slot)
			}
			t.hit("bases without better child")
			continue
		}
		t.hit("bases with better children")
		if len(got) != 1 {
			t.fail("combination-count", "generation %d: base %d has better children and %d combined members", g.n, b.slot, len(got))
		}
		c := got[0]
		if len(c.pts) != len(b.pts) {
			t.fail("combination-size", "generation %d: the combined member of base %d has %d points, its base %d", g.n, b.slot, len(c.pts), len(b.pts))
		}
		reported := map[int]mutation.Mutation{}
		for _, m := range c.muts {
			if _, dup := reported[m.Index]; dup {
				t.fail("combination-duplicate", "generation %d: the combined member of base %d has two mutations of point %d", g.n, b.slot, m.Index)
			}
			reported[m.Index] = m
		}
		for i := range c.pts {
			cd := want[i]
			m, rep := reported[i]
			if cd == nil {
				if rep || c.pts[i] != b.pts[i] {
					t.fail("combination-extra", "generation %d: the combined member of base %d changes point %d, which no better child touched", g.n, b.slot, i)
				}
				continue
			}
			ok := false
			for _, x := range cd.muts {
				ok = ok || (rep && x == m && c.pts[i] == x.New)
			}
			if len(cd.muts) > 1 {
				t.hit("ties between mutations")
			}
			if !ok {
				t.fail("combination-wrong", "generation %d: the combined member of base %d has %v at point %d (reported %v: %v); the fittest better child (fitness %v) has %v",
					g.n, b.slot, c.pts[i], i, rep, m, cd.fit, cd.muts)
			}
		}
	}
	for b := range combos {
		t.fail("combination-of-unknown", "generation %d: a combined member has base %d, which is not an unmodified member", g.n, b)
	}
}

// ---- C05 ----

func init() {
	scenarios["C05"] = &Scenario{
		gen: func(p *Params, r *rng) {
			genWorld(p, r)
			genMisc(p, r)
			genCheap(p, r)
			if r.chance(60) {
				p.Faults[vsim.DrawRand] = r.pick(1_000, 20_000, 100_000, 300_000)
			}
			p.Mut = r.pick(0, 0, 0, 1, 1, 1, 2, 3)
			p.Amount = r.pick(1, 10, 30, 100, 200, 1000)
		},
		body: func(t *Trial) {
			optimise(t, t.P.perturbed(0), nil, func(w *world, g, prev *genRec) {
				checkChildren(t, g, prev)
				checkAsked(t, w.asked, g)
			})
		},
		rule:  "one optimiser run per case, in half of them the random sources return extreme values; distinct by schedule and event hash; non-trivial if evaluations of at least two tasks interleaved",
		quick: 180000, deep: 15000000, wall: 30,
	}
}

func checkChildren(t *Trial, g, prev *genRec) {
	for _, e := range g.evals {
		if len(e.pts) != t.P.Points {
			t.fail("point-count", "generation %d: member %d has %d points instead of %d", g.n, e.slot, len(e.pts), t.P.Points)
		}
		for i, q := range e.pts {
			if !(q.X >= 0 && q.X <= 1 && q.Y >= 0 && q.Y <= 1) {
				t.fail("outside", "generation %d: member %d has point %d at %v", g.n, e.slot, i, q)
			}
		}
	}
	if prev == nil {
		return
	}
	surv, rest := survivorsOf(g)
	bases := map[int]*eval{}
	kids := map[int]int{}
	for _, e := range surv {
		bases[e.slot] = e
		if len(e.muts) > 0 {
			t.fail("survivor-mutations", "generation %d: member %d is evaluated with %d mutations but without a base", g.n, e.slot, len(e.muts))
		}
	}
	for _, e := range rest {
		b := bases[e.base]
		if b == nil {
			t.fail("parent-unknown", "generation %d: the base of member %d is %d, which is not a survivor", g.n, e.slot, e.base)
		}
		if !e.combo {
			kids[e.base]++
		}
		seen := map[int]bool{}
		for _, m := range e.muts {
			if m.Index < 0 || m.Index >= len(e.pts) || seen[m.Index] {
				t.fail("mutation-index", "generation %d: member %d reports point %d twice or out of range", g.n, e.slot, m.Index)
			}
			seen[m.Index] = true
			if m.Old != b.pts[m.Index] {
				t.fail("mutation-old", "generation %d: member %d reports old value %v for point %d, its parent has %v", g.n, e.slot, m.Old, m.Index, b.pts[m.Index])
			}
			if m.New != e.pts[m.Index] {
				t.fail("mutation-new", "generation %d: member %d reports new value %v for point %d, it has %v", g.n, e.slot, m.New, m.Index, e.pts[m.Index])
			}
		}
		if !samePoints(applyMuts(b.pts, e.muts), e.pts) {
			t.fail("not-derived", "generation %d: member %d is not its parent %d with the reported mutations", g.n, e.slot, e.base)
		}
		t.hit("children checked")
	}
	lo, hi := 1<<30, 0
	for s := range bases {
		if kids[s] < lo {
			lo = kids[s]
		}
		if kids[s] > hi {
			hi = kids[s]
		}
	}
	if hi-lo > 1 {
		t.fail("uneven", "generation %d: one survivor has %d children and another %d", g.n, hi, lo)
	}
}

// checkAsked compares the members that are new in the generation with what the mutation method did.
func checkAsked(t *Trial, s *scribe, g *genRec) {
	var members []string
	for _, e := range g.evals {
		if e.base >= 0 && !e.combo {
			members = append(members, fmt.Sprint(hashPoints(e.pts), e.muts))
		}
	}
	calls := s.calls
	s.calls = nil
	if len(members) != len(calls) {
		t.fail("mutation-calls", "generation %d has %d new members and the mutation method was called %d times", g.n, len(members), len(calls))
	}
	sort.Strings(members)
	sort.Strings(calls)
	for i := range members {
		if members[i] != calls[i] {
			t.fail("mutation-lost", "generation %d has a new member with points and mutations %s, which the mutation method did not make", g.n, members[i])
		}
	}
}

// ---- C06 ----

// trajectory runs the optimiser without checks and returns what it reported.
func trajectory(t *Trial, c vsim.Config, p *Params, after func(i int, w *world)) []point {
	var tr []point
	r := t.run(c, func() {
		w := newWorld(t, p, nil)
		tr = append(tr, w.at())
		for i := 0; i < p.Steps; i++ {
			if after != nil {
				after(i, w)
			}
			w.algo.Step()
			tr = append(tr, w.at())
		}
		if after != nil {
			after(p.Steps, w)
		}
	})
	t.mustFinish(r)
	return tr
}

func diff(a, b []point) string {
	for i := range a {
		if i >= len(b) {
			return "a trajectory ends early"
		}
		if a[i] != b[i] {
			what := "best points"
			if a[i].Fit != b[i].Fit {
				what = fmt.Sprintf("best fitness %v / %v", math.Float64frombits(a[i].Fit), math.Float64frombits(b[i].Fit))
			}
			if a[i].Gen != b[i].Gen {
				what = fmt.Sprintf("generation count %d / %d", a[i].Gen, b[i].Gen)
			}
			return fmt.Sprintf("after step %d they differ in %s", i, what)
		}
	}
	if len(b) > len(a) {
		return "a trajectory ends early"
	}
	return ""
}

func init() {
	scenarios["C06"] = &Scenario{
		gen: func(p *Params, r *rng) {
			genWorld(p, r)
			genMisc(p, r)
			if p.Algo == 0 {
				p.Eval = 2
				p.Wrap = r.pick(0, 1, 2)
				p.Gen = r.pick(0, 1, 3)
			} else if p.Wrap == 3 {
				p.Wrap = 0 // the hostile cache draws in call order
			}
			p.Slow = r.pick(0, 0, 20)
			genSlow(p, r, 3_600_000_000_000)
			p.Steps = r.in(3, 9)
			p.Rate = r.pick(10, 20, 30, 50)
			if r.chance(1) {
				genLong(p, r)
			}
		},
		body: func(t *Trial) {
			var ref []point
			p := *t.P
			tied := false
			// the reference: one worker at a time, no preemption
			r := t.run(t.P.serial(), func() {
				w := newWorld(t, &p, func(w *world, e evaluator.Evaluator) evaluator.Evaluator {
					w.pr = newProbe(t, &p, e, p.Size)
					return w.pr
				})
				ref = append(ref, w.at())
				for i := 0; i < p.Steps; i++ {
					tied = tied || hasTies(w.pr.cur)
					w.pr.next()
					w.algo.Step()
					ref = append(ref, w.at())
				}
				tied = tied || hasTies(w.pr.cur)
			})
			t.mustFinish(r)
			if p.Algo == 0 && tied {
				t.skip("different members tie")
				return
			}
			for k := 0; k < 3; k++ {
				q := p
				q.CPUs = []int{1, 2, 3, 8, 64}[(int(p.Seed%5)+k)%5]
				save := t.P.CPUs
				t.P.CPUs = q.CPUs
				got := trajectory(t, t.P.perturbed(k), &q, nil)
				t.P.CPUs = save
				t.hit("schedules compared")
				if d := diff(ref, got); d != "" {
					t.fail("schedule-dependent", "%s: with schedule %d the run differs from the serial run: %s", describeWorld(&p), k, d)
				}
			}
		},
		rule:  "one reference run and three runs under other schedules and processor counts per case; distinct by schedule and event hash; non-trivial if evaluations of at least two tasks interleaved",
		quick: 100000, deep: 7500000, wall: 30,
	}
}

func hasTies(g *genRec) bool {
	m := map[float64]uint64{}
	for _, e := range g.evals {
		h := hashPoints(e.pts)
		if o, ok := m[e.fit]; ok && o != h {
			return true
		}
		m[e.fit] = h
	}
	return false
}

// ---- C07 ----

func init() {
	scenarios["C07"] = &Scenario{
		gen: func(p *Params, r *rng) {
			genWorld(p, r)
			genRand(p, r)
			genMisc(p, r)
			p.Eval = r.pick(0, 0, 1)
			p.Wrap = r.pick(0, 0, 3)
			p.Cache = r.pick(0, 0, 1, 1, 2, 3, 4, 6, 8, 10)
			p.A = r.pick(0, 1, 2, 5, 11, 14) // the other cache size
			p.B = r.n(4)                     // trajectories, shadow or planted entries
		},
		body: func(t *Trial) {
			p := *t.P
			if p.B == 0 { // the whole trajectory with two cache sizes
				p.Wrap = 0
				a := trajectory(t, p.serial(), &p, nil)
				q := p
				q.Cache = p.A
				b := trajectory(t, p.serial(), &q, nil)
				t.hit("trajectories compared")
				if d := diff(a, b); d != "" {
					t.fail("cache-size-matters", "%s: with cache sizes 2^%d and 2^%d %s", describeWorld(&p), p.Cache, q.Cache, d)
				}
				return
			}
			if p.B == 3 {
				planted(t)
				return
			}
			shadowed(t, t.P.Block, "cached-value", fmt.Sprintf("without a cache, not 2^%d entries,", t.P.Cache))
		},
		rule:  "per case two whole runs with different cache sizes, or one run in which every evaluation is repeated by an uncached function with the same history, or a series of evaluations whose cache holds entries of other, similar shapes planted in any slot; distinct by schedule and event hash; non-trivial if evaluations of at least two tasks interleaved",
		quick: 140000, deep: 11000000, wall: 30,
	}
}

// planted gives fitness functions caches full of entries of other shapes, in any slot: shapes
// with some of the same corners, with corners in another order, and with the same hash.
func planted(t *Trial) {
	p := t.P
	r := newRng(mix64(p.Seed, 733))
	w, h := p.W, p.H
	switch r.n(4) {
	case 0:
		w, h = r.in(9, 30), r.in(100, 260)
	case 1:
		w, h = r.in(100, 260), r.in(9, 30)
	case 2:
		if r.n(6) == 0 { // for shapes that are far apart
			w, h = r.in(200, 600), r.in(9, 20)
			if r.n(2) == 0 {
				w, h = h, w
			}
		} else if r.n(2) == 0 {
			w = min(w, 300)
			h = w
		}
	}
	run := t.run(p.serial(), func() {
		im := newPicture(p.Img, w, h, p.Seed)
		n := r.pick(1, 2, 3, 3, 3, 4, 5, 7)
		type lat struct{ x, y int }
		base := make([]lat, n)
		for i := range base {
			base[i] = lat{r.in(0, w), r.in(0, h)}
		}
		group := func(l []lat) normgeom.NormPointGroup {
			g := make(normgeom.NormPointGroup, len(l))
			for i, q := range l {
				g[i] = normgeom.NormPoint{X: float64(q.x) / float64(w), Y: float64(q.y) / float64(h)}
			}
			return g
		}
		in := func(q lat) bool { return q.x >= 0 && q.y >= 0 && q.x <= w && q.y <= h }
		vary := func() []lat {
			l := append([]lat(nil), base...)
			for k := 1 + r.n(2); k > 0; k-- {
				i, j := r.n(n), r.n(n)
				a, b := l[i], l[j]
				switch r.n(10) {
				case 0: // the hash stays the same
					a.x, a.y = a.x+1, a.y-97
				case 1:
					a.x, a.y = a.x-1, a.y+97
				case 2: // the sum of the coordinates stays the same
					d := r.in(1, 6)
					a.x, b.x = a.x+d, b.x-d
				case 3:
					d := r.in(1, 6)
					a.y, b.y = a.y+d, b.y-d
				case 4:
					a, b = lat{a.x, b.y}, lat{b.x, a.y}
				case 5:
					a, b = b, a
				case 6:
					a = lat{r.in(0, w), r.in(0, h)}
				case 7:
					a.x, a.y = a.x+r.in(0, 2)-1, a.y+r.in(0, 2)-1
				case 8: // the low bits stay the same
					a.x, a.y = a.x+r.pick(-512, -256, -128, -64, 0, 64, 128, 256, 512), a.y+r.pick(-512, -256, -128, 0, 0, 0, 128, 256, 512)
				case 9: // what one coordinate loses the other gains
					d, f := r.in(0, 2)-1, r.pick(7, 31, 37, 64, 101, 128, 131, 256)
					a.x, a.y = a.x+d, a.y-d*f
					if r.n(2) == 0 {
						a.x, a.y = l[i].x-d*f, l[i].y+d
					}
				}
				if in(a) && in(b) {
					l[i] = a
					if i != j {
						l[j] = b
					}
				}
			}
			if r.n(6) == 0 { // cells divided along a line of symmetry
				kind := r.n(4)
				for _, q := range l[:n:n] {
					m := lat{w - q.x, q.y}
					switch kind {
					case 1:
						m = lat{q.x, h - q.y}
					case 2:
						m = lat{q.y * w / h, q.x * h / w}
					case 3:
						m = lat{(h - q.y) * w / h, (w - q.x) * h / w}
					}
					if r.n(3) > 0 || n == 1 {
						l = append(l, m)
					}
				}
			}
			return l
		}
		fns := functions(p, im, 40)
		fn := func() fitness.CacheFunction { f := fns[len(fns)-1]; fns = fns[:len(fns)-1]; return f }
		var entries []fitness.CacheData
		learn := func(g normgeom.NormPointGroup) {
			f := fn()
			f.SetCache(make([]fitness.CacheData, 1<<r.pick(0, 0, 1, 3)))
			f.Calculate(fitness.PointsData{Points: g})
			for _, d := range f.Cache() {
				if d != nil {
					entries = append(entries, d)
				}
			}
		}
		learn(group(base))
		for k := 0; k < 4; k++ {
			learn(group(vary()))
		}
		for k := 0; k < 16; k++ {
			g := group(vary())
			if k == 0 {
				g = group(base)
			}
			ref, f := fn(), fn()
			table := make([]fitness.CacheData, 1<<r.pick(0, 0, 0, 1, 2, 4))
			for i := range table {
				if len(entries) > 0 && r.n(8) > 0 {
					table[i] = entries[r.n(len(entries))]
				}
			}
			ref.SetCache(make([]fitness.CacheData, 1))
			f.SetCache(table)
			want := ref.Calculate(fitness.PointsData{Points: g.Copy()})
			got := f.Calculate(fitness.PointsData{Points: g})
			t.hit("evaluations with planted entries")
			t.note(math.Float64bits(got))
			if math.Float64bits(want) != math.Float64bits(got) {
				t.fail("planted-entry", "%s on a %dx%d image, cache of %d entries: points %v have fitness %v, with entries of other shapes in the cache %v",
					[]string{"triangles", "polygons"}[p.Eval], w, h, len(table), g, want, got)
			}
		}
	})
	t.mustFinish(run)
}

// shadowed compares every evaluation with a function of the same history that has no cache and
// another block size.
func shadowed(t *Trial, block int, class, how string) {
	other := *t.P
	other.Block = block
	var shadows []fitness.CacheFunction
	sh := func(w *world, id int) fitness.CacheFunction {
		if id < 0 {
			t.fail("no-identity", "fitness functions of the parallel evaluator cannot be told apart")
		}
		return shadows[id]
	}
	optimise(t, t.P.perturbed(0), func(w *world) {
		pr := w.pr
		vsim.Atomic(func() {
			shadows = functions(&other, w.im, t.P.Size*3+4)
			for _, s := range shadows {
				s.SetCache(make([]fitness.CacheData, 2))
			}
		})
		pr.onBase = func(i, base int) {
			a, b := sh(w, pr.id(pr.inner.Get(i))), sh(w, pr.id(pr.inner.Get(base)))
			vsim.Atomic(func() { a.SetBase(b) })
		}
		pr.onEnd = func(e *eval) {
			f := sh(w, e.fn)
			var want float64
			vsim.Atomic(func() {
				want = f.Calculate(fitness.PointsData{Points: e.pts.Copy(), Mutations: append([]mutation.Mutation(nil), e.muts...)})
				f.SetCache(make([]fitness.CacheData, 2))
			})
			t.hit("evaluations compared")
			if math.Float64bits(want) != math.Float64bits(e.raw) {
				t.fail(class, "%s, blocks of %d: generation %d, member %d: fitness %v, %s %v", describeWorld(t.P), t.P.Block, w.pr.cur.n, e.slot, e.raw, how, want)
			}
		}
	}, func(w *world, g, prev *genRec) {})
}

// ---- C29 ----

func init() {
	scenarios["C29"] = &Scenario{
		gen: func(p *Params, r *rng) {
			genWorld(p, r)
			genMisc(p, r)
			p.Eval = r.pick(0, 0, 1)
			p.Wrap = 0
			p.Img = r.pick(0, 1, 2, 3, 4, 5)
			if r.chance(30) {
				p.W, p.H = r.in(1, 12), r.in(1, 12)
			}
			p.Points = r.pick(1, 3, 4, 4, 5, 6, 8, 12)
			p.Gen = r.pick(0, 0, 1, 5)
			p.Steps = r.in(1, 4)
			p.Block = r.pick(1, 2, 3, 5, 5, 7, 16, 24)
			p.A = r.pick(1, 1, 2, 4, 6, 8, 11, 17, 20, 33, 64, 100) // the other block size
			p.B = r.n(3)                                            // trajectories or shadow
			cost := func(n int) int { return max(0, p.W-n+1) * max(0, p.H-n+1) * n * n }
			for cost(p.Block) > 1_500_000 || cost(p.A) > 1_500_000 {
				p.W, p.H = p.W*4/5, p.H*4/5
			}
			if r.chance(1) {
				genLong(p, r)
			}
		},
		body: func(t *Trial) {
			p := *t.P
			if p.B > 0 {
				shadowed(t, p.A, "block-value", fmt.Sprintf("in blocks of %d", p.A))
				return
			}
			c := t.P.perturbed(0)
			if p.Algo == 0 { // may depend on the schedule
				c = t.P.serial()
			}
			a := trajectory(t, t.P.serial(), &p, nil)
			q := p
			q.Block = p.A
			b := trajectory(t, c, &q, nil)
			t.hit("trajectories compared")
			if d := diff(a, b); d != "" {
				t.fail("block-matters", "%s: in blocks of %d and of %d %s", describeWorld(&p), p.Block, q.Block, d)
			}
		},
		rule:  "per case two whole runs with different block sizes, or one run in which every evaluation is repeated by an uncached function with another block size and the same history; distinct by schedule and event hash; non-trivial if evaluations of at least two tasks interleaved",
		quick: 140000, deep: 11000000, wall: 30,
	}
}

// ---- C08 ----

func init() {
	scenarios["C08"] = &Scenario{
		gen: func(p *Params, r *rng) {
			genWorld(p, r)
			genRand(p, r)
			genMisc(p, r)
			genCheap(p, r)
			p.Slow = r.pick(0, 0, 30)
			genSlow(p, r, 3_600_000_000_000)
		},
		body: func(t *Trial) {
			optimise(t, t.P.perturbed(0), func(w *world) { w.pr.strict = true }, func(w *world, g, prev *genRec) { checkProtocol(t, w, g, prev) })
		},
		rule:  "one optimiser run per case; distinct by schedule and event hash; non-trivial if evaluations of at least two tasks interleaved",
		quick: 180000, deep: 15000000, wall: 30,
	}
}

func checkProtocol(t *Trial, w *world, g, prev *genRec) {
	want := t.P.Size
	if t.P.Algo == 0 {
		want -= t.P.Cutoff
	}
	par := 0
	seen := map[int]bool{}
	for _, e := range g.evals {
		if e.end == 0 {
			t.fail("left-running", "generation %d: the step ended while member %d was being evaluated", g.n, e.slot)
		}
		if e.updates != 1 {
			t.fail("update-count", "generation %d: member %d was evaluated once and updated %d times", g.n, e.slot, e.updates)
		}
		if seen[e.slot] {
			t.fail("evaluated-twice", "generation %d: member %d was evaluated twice", g.n, e.slot)
		}
		seen[e.slot] = true
		if !e.combo {
			par++
		}
	}
	if par != want {
		t.fail("evaluation-count", "%s: generation %d evaluated %d of %d members", describeWorld(t.P), g.n, par, want)
	}
	if len(g.prepares) != 1 {
		t.fail("prepare-count", "generation %d called Prepare %d times", g.n, len(g.prepares))
	}
	t.hit("generations checked")
}

var _ normgeom.NormPointGroup
