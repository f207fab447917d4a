package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/RH12503/Triangula/mutation"
	"github.com/RH12503/Triangula/normgeom"

	"verifsim/vsim"
)

// ---- C33 ----

// tally counts how often something of a known probability happened.
type tally struct {
	p    float64
	n, k int64
}

func (c *tally) add(yes bool) {
	c.n++
	if yes {
		c.k++
	}
}

// off says whether the count contradicts the probability.
func (c *tally) off() bool {
	mean := c.p * float64(c.n)
	if c.p <= 0 {
		return c.k != 0
	}
	if c.p >= 1 { // a random number between 0 and 1 can be 1 after rounding
		return c.k < c.n-1-c.n/1_000_000
	}
	return math.Abs(float64(c.k)-mean) > 6*math.Sqrt(mean*(1-c.p))+6
}

// gauge surrounds a mutation method and measures what it does.
type gauge struct {
	mutation.Method
	uniform bool
	half    float64 // greatest displacement (uniform) or its standard deviation
	rate    float64
	exact   bool // random numbers are not tampered with
	c       map[string]*tally
	order   []string
	levels  []span
	bad     string
}

// span is a displacement as a multiple of half, with its count in x and in y.
type span struct {
	k  float64
	at [2]tally
}

func newGauge(uniform bool, half, rate float64, exact bool) *gauge {
	g := &gauge{uniform: uniform, half: half, rate: rate, exact: exact, c: map[string]*tally{}}
	for j := -len(levels); j <= len(levels); j++ {
		k := 0.0
		if j > 0 {
			k = levels[j-1]
		} else if j < 0 {
			k = -levels[-j-1]
		}
		if !uniform || math.Abs(k) < 1 { // checked one by one otherwise
			p := tally{p: g.below(k)}
			g.levels = append(g.levels, span{k, [2]tally{p, p}})
		}
	}
	return g
}

var levels = []float64{0.15, 0.3, 0.5, 0.7, 0.9, 0.97, 1, 1.3, 1.7, 2.2, 2.8}

func (g *gauge) count(what string, p float64, yes bool) {
	c := g.c[what]
	if c == nil {
		c = &tally{p: p}
		g.c[what] = c
		g.order = append(g.order, what)
	}
	c.add(yes)
}

// below is the probability of a displacement of at most k times half.
func (g *gauge) below(k float64) float64 {
	if g.uniform {
		return math.Max(0, math.Min(1, (k+1)/2))
	}
	return 0.5 * math.Erfc(-k/math.Sqrt2)
}

func (g *gauge) Mutate(pts normgeom.NormPointGroup, mutated func(mutation.Mutation)) {
	old := pts.Copy()
	hit := make([]bool, len(pts))
	g.Method.Mutate(pts, func(m mutation.Mutation) {
		if m.Index >= 0 && m.Index < len(hit) {
			hit[m.Index] = true
		}
		mutated(m)
	})
	vsim.Atomic(func() { g.measure(old, pts, hit) })
}

func (g *gauge) measure(old, pts normgeom.NormPointGroup, hit []bool) {
	for i := range pts {
		dx, dy := pts[i].X-old[i].X, pts[i].Y-old[i].Y
		if g.uniform && g.bad == "" && math.Max(math.Abs(dx), math.Abs(dy)) > g.half*(1+1e-9)+1e-15 {
			g.bad = fmt.Sprintf("a point moved by (%v, %v), the most is %v", dx, dy, g.half)
		}
		if g.half == 0 && (g.exact || g.uniform) && g.bad == "" && (dx != 0 || dy != 0) {
			g.bad = fmt.Sprintf("a point moved by (%v, %v), the amount is 0", dx, dy)
		}
	}
	if !g.exact {
		return
	}
	n := len(pts)
	for i := range pts {
		g.count("points mutated", g.rate, hit[i])
		if i == 0 {
			g.count("first points mutated", g.rate, hit[i])
		}
		if i == n-1 {
			g.count("last points mutated", g.rate, hit[i])
		}
		if i%2 == 1 {
			g.count("points mutated along with the one before", g.rate*g.rate, hit[i] && hit[i-1])
		}
	}
	if g.half <= 1e-9 {
		return
	}
	side := 0.0
	for i := range pts {
		if !hit[i] {
			continue
		}
		for c := 0; c < 2; c++ {
			o, v := old[i].X, pts[i].X
			if c == 1 {
				o, v = old[i].Y, pts[i].Y
			}
			for j := range g.levels {
				l := &g.levels[j]
				// Constraining the point to the image does not change on which side of this it is.
				if at := o + l.k*g.half; at > 0 && at < 1 {
					l.at[c].add(v <= at)
				}
			}
		}
		dx, dy := pts[i].X-old[i].X, pts[i].Y-old[i].Y
		if in := old[i].X > 0 && old[i].X < 1 && old[i].Y > 0 && old[i].Y < 1; in && dx != 0 && dy != 0 {
			g.count("displacements of equal sign in x and y", 0.5, dx*dy > 0)
			if side != 0 {
				g.count("displacements of equal sign one after the other", 0.5, dx*side > 0)
			}
			side = dy
		} else {
			side = 0
		}
		if m := 0.5 * g.half; math.Min(old[i].X, old[i].Y) > m && math.Max(old[i].X, old[i].Y) < 1-m {
			q := g.below(0.5) - g.below(-0.5)
			g.count("displacements small in both x and y", q*q, math.Abs(dx) <= m && math.Abs(dy) <= m)
		}
	}
}

func init() {
	scenarios["C33"] = &Scenario{
		gen: func(p *Params, r *rng) {
			genWorld(p, r)
			genMisc(p, r)
			if p.Eval != 2 && r.chance(75) {
				p.Eval = 2
				p.Wrap = r.pick(0, 1, 2)
			}
			p.Mut = r.pick(0, 0, 1, 1, 3)
			p.Rate = r.pick(0, 1, 2, 5, 10, 20, 30, 50, 70, 100)
			p.Amount = r.pick(0, 1, 2, 5, 10, 30, 30, 60, 100, 200)
			p.Gen = r.pick(0, 0, 1, 3, 5)
			if p.Eval == 2 {
				p.Points = r.pick(1, 2, 5, 20, 50, 100, 200)
				p.Size = 2*p.Cutoff + r.in(4, 30)
				p.Steps = r.in(3, 12)
				if p.Points < 20 {
					p.Steps = r.in(10, 60)
				}
			}
			if r.chance(1) { // hundreds of thousands of points
				p.Eval, p.Wrap = 2, r.pick(1, 2)
				p.Points, p.Steps = r.pick(100, 200, 400), r.in(20, 60)
				p.Size = 2*p.Cutoff + r.in(20, 60)
				p.Rate = r.pick(30, 100, 100)
			}
			if r.chance(15) {
				genRand(p, r)
			}
		},
		body: func(t *Trial) {
			p := t.P
			half, rate := float64(p.Amount)/100/2, float64(p.Rate)/100
			if p.Mut == 3 {
				half, rate = 0.15, math.Min(1, 2/float64(p.Points))
			}
			g := newGauge(p.Mut == 1, half, rate, p.Faults[vsim.DrawRand] == 0)
			r := t.run(p.perturbed(0), func() {
				w := newWorld(t, p, nil)
				w.asked.on = false
				g.Method = w.asked.Method
				w.asked.Method = g
				for i := 0; i < p.Steps; i++ {
					w.algo.Step()
				}
			})
			t.mustFinish(r)
			what := fmt.Sprintf("%s: %s method with rate %v and amount %v", describeWorld(p), []string{"gaussian", "random", "", "default gaussian"}[p.Mut], g.rate, 2*g.half)
			if g.bad != "" {
				t.fail("too-far", "%s: %s", what, g.bad)
			}
			judge := func(class, k string, c *tally) {
				if c.off() {
					t.fail(class, "%s: %s: %d of %d, expected a share of %.4g", what, k, c.k, c.n, c.p)
				}
				t.add("statistics compared", 1)
				t.add("events counted", c.n)
			}
			for _, k := range g.order {
				class := "displacement"
				if strings.Contains(k, "mutated") {
					class = "rate"
				}
				judge(class, k, g.c[k])
			}
			for i := range g.levels {
				for c := range g.levels[i].at {
					judge("displacement", fmt.Sprintf("displacements in %c of at most %.4g", 'x'+c, g.levels[i].k*g.half), &g.levels[i].at[c])
				}
			}
		},
		rule:  "one search per case whose mutation method is measured; distinct by schedule and event hash; non-trivial if evaluations of at least two tasks interleaved",
		quick: 100000, deep: 8000000, wall: 30,
	}
}
