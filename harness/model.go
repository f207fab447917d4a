package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/RH12503/Triangula/color"
	"github.com/RH12503/Triangula/image"
	"github.com/RH12503/Triangula/mutation"
	"github.com/RH12503/Triangula/normgeom"
	"github.com/RH12503/Triangula/polygonation"
	"github.com/RH12503/Triangula/render"
	"github.com/RH12503/Triangula/triangulation"
	"github.com/RH12503/Triangula/triangulation/incrdelaunay"

	ssync "verifsim/shim/sync"
	"verifsim/vsim"
)

// The reference model of fitness. It shares no code with the functions it judges: the
// triangulation is computed with exact integers, the cells by cutting the image along the
// bisectors, and the pixels of a shape row by row between its left and right side.

// model knows the colours of an image, as bytes.
type model struct {
	w, h int
	px   [][3]byte
}

func newModel(im *picture) *model {
	if im.small != nil {
		return &model{w: im.w, h: im.h, px: im.small}
	}
	m := &model{w: im.w, h: im.h, px: make([][3]byte, len(im.px))}
	for i, c := range im.px {
		m.px[i] = [3]byte{byte(math.Round(c.R * 255)), byte(math.Round(c.G * 255)), byte(math.Round(c.B * 255))}
	}
	return m
}

type sums struct{ n, r, g, b, sq int64 }

func (s *sums) put(c [3]byte, k int64) {
	r, g, b := int64(c[0]), int64(c[1]), int64(c[2])
	s.n += k
	s.r += k * r
	s.g += k * g
	s.b += k * b
	s.sq += k * (r*r + g*g + b*b)
}

// rest is the squared colour error that remains with the best single colour.
func (s *sums) rest() float64 {
	if s.n <= 0 {
		return 0
	}
	r, g, b := float64(s.r), float64(s.g), float64(s.b) // the sum of squares may exceed 64 bits
	return float64(s.sq) - (r*r+g*g+b*b)/float64(s.n)
}

// shape returns the error of a shape painted in its mean colour, and how much of it depends on
// pixels a side of the shape passes exactly. The shape is given in convex parts, each of which
// holds the pixels of the rows from its top to above its bottom, from its left side to before its
// right side, both rounded down.
func (m *model) shape(parts ...[]ipt) (err, slack float64) {
	s, edge := m.contents(parts...)
	err = s.rest()
	for _, e := range edge {
		for _, k := range []int64{-1, 1} {
			o := s
			o.put(e, k)
			slack += 2 * math.Abs(o.rest()-err)
		}
		slack++
	}
	return err, slack
}

// contents returns the sums over a shape and the colours of the pixels that may or may not be in it.
func (m *model) contents(parts ...[]ipt) (s sums, edge [][3]byte) {
	for _, c := range parts {
		edge = m.fill(&s, edge, c)
	}
	return s, edge
}

func (m *model) fill(s *sums, edge [][3]byte, c []ipt) [][3]byte {
	top, bottom := c[0].y, c[0].y
	for _, p := range c {
		top, bottom = min(top, p.y), max(bottom, p.y)
	}
	for y := top; y < bottom; y++ {
		l, r := int64(math.MaxInt64), int64(math.MinInt64)
		for i, a := range c {
			b := c[(i+1)%len(c)]
			if a.y > b.y {
				a, b = b, a
			}
			if a.y == b.y || y < a.y || y >= b.y {
				continue
			}
			num, den := (b.x-a.x)*(y-a.y), b.y-a.y
			x := a.x + num/den
			if num%den < 0 {
				x--
			}
			if num%den == 0 && (b.x-a.x)%den != 0 && num != 0 {
				for _, k := range []int64{x - 1, x} {
					if k >= 0 && k < int64(m.w) {
						edge = append(edge, m.px[y*int64(m.w)+k])
					}
				}
			}
			l, r = min(l, x), max(r, x)
		}
		for x := l; x < r && x < int64(m.w); x++ {
			s.put(m.px[y*int64(m.w)+x], 1)
		}
	}
	return edge
}

const worst = 3 * 255 * 255

// rounding is what is lost when the square of every colour is rounded down to a whole number.
const rounding = 1.01 / worst

// triangles returns the fitness of the points as triangles and its tolerance, or why there is none.
func (m *model) triangles(g normgeom.NormPointGroup) (fit, tol float64, why string) {
	pts := pixels(g, m.w, m.h)
	all, tris := delaunay(pts, m.w, m.h)
	if !unique(all, tris) {
		return 0, 0, "points with several triangulations"
	}
	var diff, slack float64
	area := int64(0)
	for _, t := range tris {
		if max(t[0], t[1], t[2]) >= len(pts) {
			continue
		}
		a, b, c := all[t[0]], all[t[1]], all[t[2]]
		e, s := m.shape([]ipt{a, b, c})
		diff, slack = diff+e, slack+s
		o := orient(a, b, c)
		area += max(o, -o)
	}
	diff += worst * (float64(m.w*m.h) - float64(area)/2)
	return m.score(diff, slack)
}

func (m *model) score(diff, slack float64) (fit, tol float64, why string) {
	all := float64(worst) * float64(m.w*m.h)
	return 1 - diff/all, slack/all + rounding, ""
}

// polygons is the same for cells.
func (m *model) polygons(g normgeom.NormPointGroup) (fit, tol float64, why string) {
	var diff, slack float64
	for _, cell := range m.cells(g) {
		half, beside := m.doubts(cell)
		if beside {
			return 0, 0, "cells with a corner beside the edge of the image"
		}
		if len(half) > 8 {
			return 0, 0, "cells on many rounding boundaries"
		}
		lo, hi := math.Inf(1), math.Inf(-1)
		for combo := 0; combo < 1<<len(half); combo++ {
			for k, x := range half {
				*x = math.Floor(*x) + 0.25 + 0.5*float64(combo>>k&1)
			}
			c := rounded(cell)
			if len(c) < 3 {
				lo, hi = min(lo, 0), max(hi, 0)
				continue
			}
			if convex(c) {
				e, s := m.shape(c)
				lo, hi = min(lo, e-s), max(hi, e+s)
				continue
			}
			for i := range c { // made concave by the rounding: taken apart at some corner
				var parts [][]ipt
				for j := 1; j+1 < len(c); j++ {
					parts = append(parts, []ipt{c[i], c[(i+j)%len(c)], c[(i+j+1)%len(c)]})
				}
				e, s := m.shape(parts...)
				lo, hi = min(lo, e-s), max(hi, e+s)
			}
		}
		diff, slack = diff+(lo+hi)/2, slack+(hi-lo)/2
	}
	return m.score(diff, slack)
}

// cells returns the part of the image that is nearest to each of the distinct points.
func (m *model) cells(g normgeom.NormPointGroup) [][][2]float64 {
	pts := pixels(g, m.w, m.h)
	sites := append([]ipt(nil), pts...)
	st := incrdelaunay.NewSuperTriangle(m.w, m.h)
	for _, p := range []incrdelaunay.Point{st.A, st.B, st.C} {
		sites = append(sites, ipt{int64(p.X), int64(p.Y)})
	}
	w, h := float64(m.w), float64(m.h)
	out := make([][][2]float64, len(pts))
	for i := range pts {
		cell := [][2]float64{{0, 0}, {w, 0}, {w, h}, {0, h}}
		for j := range sites {
			if j != i && len(cell) > 0 {
				cell = halve(cell, sites[i], sites[j])
			}
		}
		out[i] = cell
	}
	return out
}

// doubts returns the coordinates of the cell that may be rounded either way, and whether it is
// doubtful what the edge of the image cuts off.
func (m *model) doubts(cell [][2]float64) (half []*float64, beside bool) {
	for v := range cell {
		for k := range cell[v] {
			x, lim := cell[v][k], []float64{float64(m.w), float64(m.h)}[k]
			if x != 0 && math.Abs(x) < 2e-3 || x != lim && math.Abs(x-lim) < 2e-3 {
				return nil, true
			}
			if f := x - math.Floor(x); math.Abs(f-0.5) < 2e-3 {
				half = append(half, &cell[v][k])
			}
		}
	}
	return half, false
}

func rounded(cell [][2]float64) []ipt {
	var c []ipt
	for _, v := range cell {
		p := ipt{int64(v[0] + 0.5), int64(v[1] + 0.5)}
		if len(c) == 0 || c[len(c)-1] != p {
			c = append(c, p)
		}
	}
	for len(c) > 1 && c[0] == c[len(c)-1] {
		c = c[:len(c)-1]
	}
	return c
}

// halve keeps the part of the cell that is nearer to p than to q.
func halve(cell [][2]float64, p, q ipt) [][2]float64 {
	// (q-p).x <= (|q|²-|p|²)/2
	dx, dy := float64(q.x-p.x), float64(q.y-p.y)
	lim := float64(q.x*q.x+q.y*q.y-p.x*p.x-p.y*p.y) / 2
	var out [][2]float64
	for i, a := range cell {
		b := cell[(i+1)%len(cell)]
		u, v := dx*a[0]+dy*a[1]-lim, dx*b[0]+dy*b[1]-lim
		if u <= 0 {
			out = append(out, a)
		}
		if u < 0 && v > 0 || u > 0 && v < 0 {
			f := u / (u - v)
			out = append(out, [2]float64{a[0] + f*(b[0]-a[0]), a[1] + f*(b[1]-a[1])})
		}
	}
	return out
}

// convex reports whether the sides turn the same way everywhere, once around.
func convex(c []ipt) bool {
	n := len(c)
	for i := range c {
		for j := range c {
			if j != i && j != (i+1)%n && orient(c[i], c[(i+1)%n], c[j]) < 0 {
				return false
			}
		}
	}
	return true
}

// converted is the target image, perhaps after having been an image of a standard type, and
// the model of the image it came from.
func converted(p *Params) (*picture, *model) {
	im := newPicture(p.Img, p.W, p.H, p.Seed)
	if p.Std == 0 {
		return im, newModel(im)
	}
	src, _ := standard(im, p.Std-1, mix64(p.Seed, 131))
	m := &model{w: p.W, h: p.H}
	o := src.Bounds().Min
	for y := 0; y < p.H; y++ {
		for x := 0; x < p.W; x++ {
			r, g, b, _ := src.At(o.X+x, o.Y+y).RGBA()
			m.px = append(m.px, [3]byte{byte(r >> 8), byte(g >> 8), byte(b >> 8)})
		}
	}
	d := image.ToData(src)
	out := &picture{w: p.W, h: p.H}
	for y := 0; y < p.H; y++ {
		for x := 0; x < p.W; x++ {
			out.px = append(out.px, d.RGBAt(x, y))
		}
	}
	return out, m
}

// genHuge makes shapes of millions of bright pixels.
func genHuge(p *Params, r *rng) {
	p.Eval = r.n(2)
	p.Points = 3
	p.W, p.H = r.in(2_500, 8_000), 0
	p.H = 15_000_000/p.W + r.in(1, 20)
	if p.Eval == 1 {
		p.Points = 1
		p.H = 7_500_000/p.W + r.in(1, 20)
	}
	p.Gen, p.Img, p.Std, p.Block, p.Scale, p.Wrap = 8, 5, 0, 1, 0, 0
	p.Cutoff, p.Size, p.Steps = 1, 2, 1
	p.Tick, p.Stall = 1, 0
	p.Policy, p.Gap = int(vsim.PolicyRandom), 300_000
}

// ---- C31 ----

func init() {
	scenarios["C31"] = &Scenario{
		gen: func(p *Params, r *rng) {
			genWorld(p, r)
			genMisc(p, r)
			p.Eval = r.n(2)
			if p.Wrap != 3 {
				p.Wrap = 0
			}
			p.Img = r.pick(0, 1, 2, 3, 4, 5)
			if r.n(8) == 0 {
				p.Gen = 7
			}
			p.Points = max(p.Points, r.pick(1, 3, 4))
			if r.n(12) == 0 { // shapes of tens of thousands of pixels
				p.W, p.H = r.in(240, 520), r.in(240, 520)
				p.Points = r.pick(3, 4, 5, 7)
				p.Gen = r.pick(0, 5, 5)
				p.Img = r.pick(0, 5, 5)
				p.Cutoff, p.Size, p.Steps = 1, r.in(2, 3), r.in(1, 2)
				p.Block = r.pick(1, 2, 3, 5, 9)
			}
			if r.n(3) == 0 {
				p.Std = 1 + r.n(9)
			}
			if p.Prop == "C31" && r.n(1000) == 0 {
				genHuge(p, r)
				return
			}
			p.Scale = r.pick(0, 0, 0, 3, 4, 7, 8)
			if p.Block > 3 && r.n(3) == 0 {
				p.Block = r.pick(2, 4, 7, 9, 16)
			}
			for p.W*p.H*p.Block*p.Block > 7_000_000 {
				p.Block--
			}
		},
		body: func(t *Trial) {
			if t.P.W*t.P.H > 5_000_000 {
				unlock := hugeLock()
				if unlock == nil {
					t.skip("another huge image at the same time")
					return
				}
				defer unlock()
				t.hit("huge images")
			}
			var ref *model
			optimise(t, t.P.perturbed(0), func(w *world) { ref = nil }, func(w *world, g, prev *genRec) {
				if ref == nil {
					vsim.Atomic(func() { _, ref = converted(t.P) })
				}
				judged := map[uint64]bool{}
				for _, e := range g.evals {
					if k := hashPoints(e.pts); judged[k] {
						continue
					} else {
						judged[k] = true
					}
					var want, tol float64
					var why string
					vsim.Atomic(func() {
						if t.P.Eval == 0 {
							want, tol, why = ref.triangles(e.pts)
						} else {
							want, tol, why = ref.polygons(e.pts)
						}
					})
					if why != "" {
						if !(e.raw <= 1+rounding) {
							t.fail("above-one", "%s: generation %d, member %d: fitness %v", describeWorld(t.P), g.n, e.slot, e.raw)
						}
						t.skip(why)
						continue
					}
					t.hit("fitnesses compared")
					if tol < 1e-5 {
						t.hit("compared to five digits")
					}
					if !(math.Abs(want-e.raw) <= tol) {
						t.fail("wrong-fitness", "%s, blocks of %d: generation %d, member %d at %v: the optimiser obtained fitness %.12g, the squared errors of its shapes give %.12g (within %.2g)",
							describeWorld(t.P), t.P.Block, g.n, e.slot, pixels(e.pts, t.P.W, t.P.H), e.raw, want, tol)
					}
				}
			})
		},
		rule:  "one optimiser run per case, every evaluation compared with an independent reference model; distinct by schedule and event hash; non-trivial if evaluations of at least two tasks interleaved",
		quick: 140000, deep: 11000000, wall: 30,
	}
}

// ---- C32 ----

// drawn is a shape of a picture.
type drawn struct {
	c   []ipt
	col color.RGB
}

// paint draws the best result the way the program does.
func paint(p *Params, g normgeom.NormPointGroup, im image.Data) (out []drawn) {
	back := func(q normgeom.NormPoint) ipt {
		return ipt{int64(math.Round(q.X * float64(p.W))), int64(math.Round(q.Y * float64(p.H)))}
	}
	if p.Eval == 0 {
		for _, d := range render.TrianglesOnImage(triangulation.Triangulate(g, p.W, p.H), im) {
			q := d.Triangle.Points
			out = append(out, drawn{[]ipt{back(q[0]), back(q[1]), back(q[2])}, d.Color})
		}
		return out
	}
	for _, d := range render.PolygonsOnImage(polygonation.Polygonate(g, p.W, p.H), im) {
		var c []ipt
		for _, q := range d.Polygon.Points {
			c = append(c, back(q))
		}
		out = append(out, drawn{c, d.Color})
	}
	return out
}

// corners names a shape by its distinct corners.
func corners(c []ipt) string {
	l := append([]ipt(nil), c...)
	sort.Slice(l, func(i, j int) bool { return l[i].x < l[j].x || l[i].x == l[j].x && l[i].y < l[j].y })
	n := 0
	for i := range l {
		if i == 0 || l[i] != l[n-1] {
			l[n] = l[i]
			n++
		}
	}
	return fmt.Sprint(l[:n])
}

// sameOutline tells whether two lists of corners go around the same outline.
func sameOutline(a, b []ipt) bool {
	around := func(c []ipt) (l []ipt) {
		for i, p := range c {
			if p != c[(i+1)%len(c)] {
				l = append(l, p)
			}
		}
		return l
	}
	a, b = around(a), around(b)
	if len(a) != len(b) {
		return false
	}
	n := len(a)
	for o := 0; o < n; o++ {
		fwd, back := true, true
		for i := range a {
			fwd = fwd && a[i] == b[(o+i)%n]
			back = back && a[i] == b[(o+n-i)%n]
		}
		if fwd || back {
			return true
		}
	}
	return n == 0
}

// wrongColour compares the colour of a drawn shape with the mean of the pixels it covers.
func (m *model) wrongColour(d drawn) string {
	s, edge := m.contents(d.c)
	if len(edge) > 0 || !convexEither(d.c) {
		return ""
	}
	if s.n == 0 {
		for _, p := range d.c {
			s.put(m.px[min(p.y, int64(m.h)-1)*int64(m.w)+min(p.x, int64(m.w)-1)], 1)
		}
	}
	n := float64(s.n)
	want := color.RGB{R: float64(s.r) / n / 255, G: float64(s.g) / n / 255, B: float64(s.b) / n / 255}
	if math.Abs(want.R-d.col.R) < 1e-9 && math.Abs(want.G-d.col.G) < 1e-9 && math.Abs(want.B-d.col.B) < 1e-9 {
		return ""
	}
	return fmt.Sprintf("the shape %v has colour %v, the mean of its %d pixels is %v", d.c, d.col, s.n, want)
}

func convexEither(c []ipt) bool {
	r := make([]ipt, len(c))
	for i := range c {
		r[len(c)-1-i] = c[i]
	}
	return convex(c) || convex(r)
}

// judge compares a picture with what the points should give, and with the fitness reported for them.
func (m *model) judge(t *Trial, g normgeom.NormPointGroup, fit float64, shapes []drawn) string {
	for _, d := range shapes {
		if len(d.c) < 3 {
			continue
		}
		if s := m.wrongColour(d); s != "" {
			return s
		}
		t.hit("colours compared")
	}
	have := map[string]int{}
	last := map[string][]ipt{}
	for _, d := range shapes {
		k := corners(d.c)
		have[k]++
		last[k] = d.c
	}
	if t.P.Eval == 1 {
		for _, cell := range m.cells(g) {
			half, beside := m.doubts(cell)
			c := rounded(cell)
			if len(half) > 0 || beside || len(c) < 3 {
				continue
			}
			if have[corners(c)] != 1 {
				return fmt.Sprintf("the cell %v is drawn %d times", c, have[corners(c)])
			}
			if d := last[corners(c)]; !sameOutline(c, d) {
				return fmt.Sprintf("the cell %v is drawn with its corners in another order: %v", c, d)
			}
			t.hit("cells compared")
		}
		return ""
	}
	pts := pixels(g, m.w, m.h)
	all, tris := delaunay(pts, m.w, m.h)
	if !unique(all, tris) {
		t.skip("points with several triangulations")
		return ""
	}
	var diff, slack, area float64
	for _, i := range tris {
		if max(i[0], i[1], i[2]) >= len(pts) {
			continue
		}
		c := []ipt{all[i[0]], all[i[1]], all[i[2]]}
		k := corners(c)
		if have[k] != 1 {
			return fmt.Sprintf("the triangle %v is drawn %d times", c, have[k])
		}
		delete(have, k)
		e, s := m.shape(c)
		diff, slack = diff+e, slack+s
		area += math.Abs(float64(orient(c[0], c[1], c[2]))) / 2
		t.hit("triangles compared")
	}
	for _, d := range shapes {
		if have[corners(d.c)] == 0 {
			continue
		}
		far := orient(d.c[0], d.c[1], d.c[2]) == 0
		for _, s := range all[len(pts):] {
			far = far || inside(d.c[0], d.c[1], d.c[2], s) >= 0
		}
		if !far {
			return fmt.Sprintf("the triangle %v is drawn but was not scored", d.c)
		}
		t.hit("flat triangles on the hull drawn besides")
	}
	want, tol, _ := m.score(diff+worst*(float64(m.w*m.h)-area), slack)
	if !(math.Abs(want-fit) <= tol) {
		return fmt.Sprintf("the picture's squared error corresponds to fitness %.12g (within %.2g), the reported best fitness is %.12g", want, tol, fit)
	}
	t.hit("pictures compared with the best fitness")
	return ""
}

func init() {
	scenarios["C32"] = &Scenario{
		gen: func(p *Params, r *rng) {
			scenarios["C31"].gen(p, r)
			p.Scale = 0
			p.A = r.pick(0, 0, 1) // points are drawn before the next step begins
		},
		body: func(t *Trial) {
			p := t.P
			type view struct {
				g      normgeom.NormPointGroup
				fit    float64
				gen    int
				shapes []drawn
			}
			var views []*view
			run := t.run(p.perturbed(0), func() {
				views = nil
				w := newWorld(t, p, nil)
				var ref *model
				vsim.Atomic(func() { _, ref = converted(p) })
				var wg ssync.WaitGroup
				show := func() {
					st := w.algo.Stats()
					v := &view{g: w.algo.Best().Copy(), fit: st.BestFitness, gen: st.Generation}
					views = append(views, v)
					wg.Add(1)
					vsim.Spawn(func() {
						defer wg.Done()
						v.shapes = paint(p, v.g, w.im)
					})
					if p.A == 1 {
						wg.Wait()
					}
				}
				show()
				for i := 0; i < p.Steps; i++ {
					w.algo.Step()
					x := w.at()
					t.note(x.Best, x.Fit)
					show()
				}
				wg.Wait()
				for _, v := range views {
					var s string
					vsim.Atomic(func() { s = ref.judge(t, v.g, v.fit, v.shapes) })
					if s != "" {
						t.fail("wrong-picture", "%s: best result of generation %d at %v: %s", describeWorld(p), v.gen, pixels(v.g, p.W, p.H), s)
					}
					t.hit("pictures judged")
				}
			})
			t.mustFinish(run)
		},
		rule:  "one optimiser run per case whose best results are drawn by other tasks; distinct by schedule and event hash; non-trivial if evaluations of at least two tasks interleaved",
		quick: 140000, deep: 11000000, wall: 30,
	}
}

// ---- what the mutation method was asked for ----

// scribe remembers what its mutation method reported, call by call.
type scribe struct {
	mutation.Method
	on    bool
	calls []string
}

func (s *scribe) Mutate(g normgeom.NormPointGroup, mutated func(mutation.Mutation)) {
	if !s.on {
		s.Method.Mutate(g, mutated)
		return
	}
	var l []mutation.Mutation
	s.Method.Mutate(g, func(m mutation.Mutation) {
		l = append(l, m)
		mutated(m)
	})
	s.calls = append(s.calls, fmt.Sprint(hashPoints(g), l))
}
