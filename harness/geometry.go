package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/RH12503/Triangula/triangulation/incrdelaunay"

	ssync "verifsim/shim/sync"
	"verifsim/vsim"
)

// tess is a triangulation or polygon tessellation with the points it should hold.
type tess struct {
	d   *incrdelaunay.Delaunay
	v   *incrdelaunay.IVoronoi
	pts []ipt // the model: a multiset
}

func newTess(voronoi bool, w, h int) *tess {
	if voronoi {
		return &tess{v: incrdelaunay.NewVoronoi(w, h)}
	}
	return &tess{d: incrdelaunay.NewDelaunay(w, h)}
}

func ip(p ipt) incrdelaunay.Point { return incrdelaunay.Point{X: int16(p.x), Y: int16(p.y)} }

func (x *tess) insert(p ipt) {
	if x.v != nil {
		x.v.Insert(ip(p))
	} else {
		x.d.Insert(ip(p))
	}
	x.pts = append(x.pts, p)
}

func (x *tess) remove(i int) {
	p := x.pts[i]
	if x.v != nil {
		x.v.Remove(ip(p))
	} else {
		x.d.Remove(ip(p))
	}
	x.pts = append(append([]ipt(nil), x.pts[:i]...), x.pts[i+1:]...)
}

func (x *tess) set(o *tess) {
	if x.v != nil {
		x.v.Set(o.v)
	} else {
		x.d.Set(o.d)
	}
	x.pts = append([]ipt(nil), o.pts...)
}

// answers is everything a tessellation says about itself.
type answers struct {
	tris  []string
	at    [][3]incrdelaunay.Point
	polys [][]incrdelaunay.FloatPoint
	n     int
}

func (x *tess) ask() answers {
	var a answers
	if x.v != nil {
		x.v.IterPolygons(func(ps []incrdelaunay.FloatPoint) {
			a.polys = append(a.polys, append([]incrdelaunay.FloatPoint(nil), ps...))
		})
		return a
	}
	x.d.IterTriangles(func(t incrdelaunay.Triangle) {
		v := []incrdelaunay.Point{t.A, t.B, t.C}
		sort.Slice(v, func(i, j int) bool { return v[i].X < v[j].X || v[i].X == v[j].X && v[i].Y < v[j].Y })
		a.tris = append(a.tris, fmt.Sprint(v))
		a.at = append(a.at, [3]incrdelaunay.Point{v[0], v[1], v[2]})
	})
	sort.Strings(a.tris)
	a.n = x.d.NumPoints()
	return a
}

// exactly returns a difference between two sets of answers.
func exactly(a, b answers) string {
	if a.n != b.n {
		return fmt.Sprintf("%d points against %d", a.n, b.n)
	}
	if len(a.tris) != len(b.tris) {
		return fmt.Sprintf("%d triangles against %d", len(a.tris), len(b.tris))
	}
	for i := range a.tris {
		if a.tris[i] != b.tris[i] {
			return fmt.Sprintf("triangle %s against %s", a.tris[i], b.tris[i])
		}
	}
	if len(a.polys) != len(b.polys) {
		return fmt.Sprintf("%d polygons against %d", len(a.polys), len(b.polys))
	}
	x, y := polyKeys(a.polys), polyKeys(b.polys)
	for i := range x {
		if x[i] != y[i] {
			return fmt.Sprintf("polygon %s against %s", x[i], y[i])
		}
	}
	return ""
}

func polyKeys(ps [][]incrdelaunay.FloatPoint) []string {
	out := make([]string, len(ps))
	for i, p := range ps {
		out[i] = fmt.Sprint(p)
	}
	sort.Strings(out)
	return out
}

// roughly compares polygons up to rounding.
func roughly(a, b [][]incrdelaunay.FloatPoint) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d polygons against %d", len(a), len(b))
	}
	used := make([]bool, len(b))
	covers := func(p, q []incrdelaunay.FloatPoint) bool {
		for _, u := range p {
			ok := false
			for _, v := range q {
				if math.Abs(u.X-v.X) < 1e-4 && math.Abs(u.Y-v.Y) < 1e-4 {
					ok = true
					break
				}
			}
			if !ok {
				return false
			}
		}
		return true
	}
	for _, p := range a {
		ok := false
		for j, q := range b {
			if !used[j] && covers(p, q) && covers(q, p) {
				used[j], ok = true, true
				break
			}
		}
		if !ok {
			return fmt.Sprintf("polygon %v has no counterpart", p)
		}
	}
	return ""
}

// edgy reports whether a vertex of the cells is so close to an edge or corner of the image that
// rounding decides what is clipped.
func edgy(polys [][]incrdelaunay.FloatPoint, centres [][2]float64, w, h int) bool {
	near := func(v, k float64) bool { return math.Abs(v-k) < 1e-3 }
	for _, c := range centres {
		if near(c[0], 0) || near(c[0], float64(w)) || near(c[1], 0) || near(c[1], float64(h)) {
			return true
		}
	}
	for _, ps := range polys {
		for _, p := range ps {
			for i, c := range []float64{p.X, p.Y} {
				lim := float64([]int{w, h}[i])
				if c != 0 && near(c, 0) || c != lim && near(c, lim) {
					return true
				}
			}
		}
	}
	return false
}

func distinct(pts []ipt) []ipt {
	var out []ipt
	seen := map[ipt]bool{}
	for _, p := range pts {
		if !seen[p] {
			seen[p] = true
			out = append(out, p)
		}
	}
	return out
}

// cornerTie reports whether two points are equally close to a corner of the image.
func cornerTie(pts []ipt, w, h int) bool {
	for _, c := range []ipt{{0, 0}, {int64(w), 0}, {0, int64(h)}, {int64(w), int64(h)}} {
		best, n := int64(math.MaxInt64), 0
		for _, p := range pts {
			d := (p.x-c.x)*(p.x-c.x) + (p.y-c.y)*(p.y-c.y)
			if d < best {
				best, n = d, 1
			} else if d == best {
				n++
			}
		}
		if n > 1 {
			return true
		}
	}
	return false
}

func init() {
	scenarios["C14"] = &Scenario{
		gen: func(p *Params, r *rng) {
			p.W, p.H = r.in(9, 60), r.in(9, 60)
			switch r.n(4) {
			case 0:
				p.W, p.H = r.in(60, 400), r.in(60, 400)
			case 1:
				p.W, p.H = r.in(9, 20), r.in(200, 900)
			case 2:
				if r.chance(30) { // up to the largest image that 16-bit positions allow
					p.W, p.H = r.pick(r.in(1, 1000), r.in(1000, 7700), r.in(7700, 8191)), r.pick(r.in(1, 1000), r.in(1000, 7700), r.in(7700, 8191))
				} else if r.chance(20) {
					p.W, p.H = r.in(1, 9), r.in(1, 9)
				}
			}
			p.Eval = r.pick(0, 0, 0, 1, 1)
			p.Points = r.pick(0, 1, 2, 3, 5, 8, 12, 20, 28)
			p.Gen = r.pick(0, 0, 0, 0, 1, 2, 3, 4, 5, 6)
			p.A = r.pick(2, 2, 3, 4)     // tessellations
			p.B = r.pick(1, 2, 4, 8, 14) // edits per round
			p.C = r.in(1, 4)             // rounds
			p.D = r.pick(0, 30, 60, 100) // percent of aborted updates
			p.E = r.pick(30, 50, 70)     // percent of removals
			if r.chance(5) {             // many points
				p.Points = r.pick(60, 90, 140)
				p.W, p.H = r.in(30, 500), r.in(30, 500)
				p.A = 2
				p.C = r.in(1, 2)
				p.B = r.pick(4, 14, 40)
				if r.chance(15) { // as many as the documentation allows for
					p.Points = r.pick(300, 800, 2000)
					p.W, p.H = r.in(30, 3000), r.in(30, 3000)
				}
			}
			if max(p.W, p.H) > 2000 && r.chance(60) {
				p.Gen = r.pick(2, 5, 6, 6, 6)
				p.Points = r.pick(8, 20, 28, 40)
			}
			if r.chance(2) { // many rounds
				p.A, p.B, p.C = 2, r.pick(2, 8, 14), r.pick(20, 60, 150)
				p.Points = r.pick(1, 3, 5, 8)
			} else if r.chance(2) { // hundreds at the same place
				p.W, p.H, p.A, p.Gen = r.in(1, 2), r.in(1, 2), 2, 0
				p.Points = r.pick(600, 1100, 3000)
				p.B = r.pick(4, 40, 100)
			}
			genSchedule(p, r)
			if r.n(2500) == 0 { // as many as 16-bit indices of triangles allow
				p.Points = r.pick(16_000, 17_000, 20_000, 32_000)
				p.W, p.H = r.in(1_000, 8_191), r.in(1_000, 8_191)
				p.Eval, p.Gen = 0, 0
			}
		},
		body: func(t *Trial) {
			p := t.P
			if p.Points > 10_000 {
				t.mustFinish(t.run(p.serial(), func() { vsim.Atomic(func() { huge(t, p) }) }))
				return
			}
			r := t.run(p.perturbed(0), func() {
				base := newRng(mix64(p.Seed, 701))
				kind := []string{"triangulation", "tessellation"}[p.Eval]
				xs := make([]*tess, p.A)
				for i := range xs {
					xs[i] = newTess(p.Eval == 1, p.W, p.H)
				}
				for i := 0; i < p.Points; i++ {
					xs[0].insert(place(p, base, xs[0].pts))
				}
				for i := base.n(p.B + 1); i > 0; i-- {
					edit(p, xs[0], base)
				}
				for i := 1; i < p.A; i++ { // what the copies hold beforehand
					for n := base.pick(0, 3, p.Points+12, 40); n > 0; n-- {
						edit(p, xs[i], base)
					}
				}
				for round := 0; round < p.C; round++ {
					b := 0
					if round > 0 {
						b = base.n(p.A)
					}
					src := xs[b]
					before := src.ask()
					var wg ssync.WaitGroup
					for i := range xs {
						if i == b {
							continue
						}
						i := i
						rr := newRng(mix64(p.Seed, uint64(800+round*10+i)))
						wg.Add(1)
						vsim.Spawn(func() {
							defer wg.Done()
							x := xs[i]
							if rr.chance(p.D) && abandon(t, p, x, src, rr) {
								t.hit("updates abandoned")
							}
							x.set(src)
							t.hit("copies taken")
							got := x.ask()
							if d := exactly(before, got); d != "" {
								t.fail("copy", "%dx%d: a copy of a %s of %d points differs: %s", p.W, p.H, kind, len(src.pts), d)
							}
							if p.Eval == 0 {
								sameQueries(t, p, src, x, rr)
							}
							for n := rr.n(p.B + 1); n > 0; n-- {
								edit(p, x, rr)
							}
						})
					}
					wg.Wait()
					if d := exactly(before, src.ask()); d != "" {
						t.fail("original-changed", "%dx%d: editing copies changed the original %s of %d points: %s", p.W, p.H, kind, len(src.pts), d)
					}
					for _, x := range xs {
						if x.pts != nil || x == src {
							scratch(t, p, x, kind)
						}
						t.note(uint64(len(x.pts)), uint64(len(x.ask().tris)))
					}
				}
			})
			t.mustFinish(r)
		},
		rule:  "two to four tessellations per case that take turns at being copied by the others on concurrent goroutines and edited, some after an update abandoned midway; distinct by schedule and event hash; non-trivial if at least three task switches happened",
		quick: 240000, deep: 20000000, wall: 30,
	}
}

func place(p *Params, r *rng, have []ipt) ipt {
	w, h := int64(p.W), int64(p.H)
	if len(have) > 0 && r.chance(10) { // a duplicate
		return have[r.n(len(have))]
	}
	rx, ry := int64(r.n(p.W+1)), int64(r.n(p.H+1))
	switch p.Gen {
	case 1: // coarse
		return ipt{rx / 4 * 4, ry / 4 * 4}
	case 2: // border
		switch r.n(4) {
		case 0:
			rx = 0
		case 1:
			rx = w
		case 2:
			ry = 0
		default:
			ry = h
		}
		return ipt{rx, ry}
	case 3: // cluster
		return ipt{min(w, max(0, w/2+rx%5-2)), min(h, max(0, h/2+ry%5-2))}
	case 4: // few
		return ipt{rx % 3 * (w / 3), ry % 3 * (h / 3)}
	case 5: // around the boxes that the search is divided into
		return ipt{min(w, max(0, rx%11*w/10+rx/11%3-1)), min(h, max(0, ry%11*h/10+ry/11%3-1))}
	case 6: // close together on the border
		if r.chance(50) {
			return ipt{rx % 2 * w, min(h, max(0, h/2+ry%24-12))}
		}
		return ipt{min(w, max(0, w/2+rx%24-12)), ry % 2 * h}
	}
	return ipt{rx, ry}
}

func edit(p *Params, x *tess, r *rng) {
	if len(x.pts) > 0 && (r.chance(p.E) || len(x.pts) > 45 && len(x.pts) > p.Points+20) {
		x.remove(r.n(len(x.pts)))
		return
	}
	x.insert(place(p, r, x.pts))
}

// abandon begins an update that is aborted by a panic before it has finished.
func abandon(t *Trial, p *Params, x, src *tess, r *rng) (aborted bool) {
	vsim.PanicAfter(int64(1 + r.n(r.pick(5, 30, 200))))
	defer func() {
		if e := recover(); e != nil {
			if e != any(vsim.Injected) {
				panic(e)
			}
			aborted = true
		}
		vsim.PanicAfter(0)
	}()
	if r.n(3) == 0 {
		x.set(src)
	}
	for n := 0; n < 3; n++ {
		edit(p, x, r)
	}
	return false
}

// sameQueries asks both triangulations about points.
func sameQueries(t *Trial, p *Params, a, b *tess, r *rng) {
	for n := 0; n < 12; n++ {
		q := ipt{int64(r.n(p.W)), int64(r.n(p.H))}
		if n%2 == 0 && len(b.pts) > 0 {
			q = b.pts[r.n(len(b.pts))]
		}
		x, y := a.d.HasPoint(ip(q)), b.d.HasPoint(ip(q))
		if x != y {
			t.fail("copy", "%dx%d: the copy says %v and the original %v when asked for point %v", p.W, p.H, y, x, q)
		}
		c, d := a.d.GetClosestTo(ip(q)), b.d.GetClosestTo(ip(q))
		if c != d && c.DistSq(ip(q)) != d.DistSq(ip(q)) {
			t.fail("copy", "%dx%d: the point closest to %v is %v in the copy and %v in the original", p.W, p.H, q, d, c)
		}
	}
}

func some(pts []ipt) string {
	if len(pts) > 60 {
		return fmt.Sprintf("%v and %d more", pts[:60], len(pts)-60)
	}
	return fmt.Sprint(pts)
}

// delaunayError checks reported triangles against the points with exact arithmetic. Where several
// triangulations exist, every triangle has to be part of one and no two may overlap at an edge.
func delaunayError(got [][3]incrdelaunay.Point, pts []ipt, w, h int, amb bool) string {
	if !amb {
		all, tris := delaunay(pts, w, h)
		want := map[[3]ipt]bool{}
		n := 0
		for _, t := range tris {
			if max(t[0], t[1], t[2]) < len(pts) {
				want[sorted(all[t[0]], all[t[1]], all[t[2]])] = true
				n++
			}
		}
		for _, t := range got {
			k := sorted(pt(t[0]), pt(t[1]), pt(t[2]))
			if !want[k] {
				return fmt.Sprintf("it has triangle %v", k)
			}
			delete(want, k)
		}
		if n != len(got) {
			return fmt.Sprintf("it has %d triangles instead of %d", len(got), n)
		}
		return ""
	}
	at := make(map[ipt]int, len(pts))
	for i, q := range pts {
		at[q] = i
	}
	sides := map[[2]ipt]bool{} // directed, with the triangle on the left
	for _, t := range got {
		a, b, c := pt(t[0]), pt(t[1]), pt(t[2])
		o := orient(a, b, c)
		if o == 0 {
			return fmt.Sprintf("triangle %v is flat", t)
		}
		if o < 0 {
			b, c = c, b
		}
		for _, q := range []ipt{a, b, c} {
			if _, ok := at[q]; !ok {
				return fmt.Sprintf("triangle %v has a vertex that is not a point", t)
			}
		}
		for _, q := range pts {
			if inside(a, b, c, q) > 0 {
				return fmt.Sprintf("point %v is inside the circle through triangle %v", q, t)
			}
		}
		for _, e := range [][2]ipt{{a, b}, {b, c}, {c, a}} {
			if sides[e] {
				return fmt.Sprintf("two triangles are on the same side of edge %v", e)
			}
			sides[e] = true
		}
	}
	return ""
}

// huge edits and copies triangulations of a great many points.
func huge(t *Trial, p *Params) {
	r := newRng(mix64(p.Seed, 719))
	src, x := newTess(false, p.W, p.H), newTess(false, p.W, p.H)
	for i := 0; i < p.Points; i++ {
		q := ipt{int64(r.n(p.W + 1)), int64(r.n(p.H + 1))}
		src.d.Insert(ip(q))
		src.pts = append(src.pts, q)
	}
	for i := 0; i < 20; i++ {
		edit(p, x, r)
	}
	x.set(src)
	before := src.ask()
	if d := exactly(before, x.ask()); d != "" {
		t.fail("copy", "%dx%d: a copy of a triangulation of %d points differs: %s", p.W, p.H, len(src.pts), d)
	}
	for i := 0; i < 40; i++ {
		x.remove(r.n(len(x.pts)))
		x.insert(ipt{int64(r.n(p.W + 1)), int64(r.n(p.H + 1))})
	}
	if d := exactly(before, src.ask()); d != "" {
		t.fail("original-changed", "%dx%d: editing a copy changed the original triangulation of %d points: %s", p.W, p.H, len(src.pts), d)
	}
	for _, x := range []*tess{src, x} {
		got := x.ask()
		if d := locallyDelaunay(got, x.pts); d != "" {
			t.fail("not-delaunay", "%dx%d: the triangulation of %d points is not their Delaunay triangulation: %s", p.W, p.H, len(x.pts), d)
		}
		for i := 0; i < 50; i++ {
			if q := x.pts[r.n(len(x.pts))]; !x.d.HasPoint(ip(q)) {
				t.fail("membership", "%dx%d: the triangulation does not contain point %v, which was inserted", p.W, p.H, q)
			}
		}
	}
	t.hit("triangulations of 16000 points and more")
}

// locallyDelaunay checks that neighbouring triangles fit together, that the circle of each is empty of the other's
// corner, and that no point is left out.
func locallyDelaunay(got answers, pts []ipt) string {
	if got.n != len(pts) {
		return fmt.Sprintf("it says it has %d points", got.n)
	}
	in := make(map[ipt]bool, len(pts))
	for _, q := range pts {
		in[q] = true
	}
	n := len(in)
	third := make(map[[2]ipt]ipt, 3*len(got.at)) // of the triangle on the left
	used := make(map[ipt]bool, n)
	for _, t := range got.at {
		a, b, c := pt(t[0]), pt(t[1]), pt(t[2])
		o := orient(a, b, c)
		if o == 0 {
			return fmt.Sprintf("triangle %v is flat", t)
		}
		if o < 0 {
			b, c = c, b
		}
		for _, e := range [][3]ipt{{a, b, c}, {b, c, a}, {c, a, b}} {
			if !in[e[0]] {
				return fmt.Sprintf("triangle %v has a vertex that is not a point", t)
			}
			used[e[0]] = true
			k := [2]ipt{e[0], e[1]}
			if _, ok := third[k]; ok {
				return fmt.Sprintf("two triangles are on the same side of edge %v", k)
			}
			third[k] = e[2]
		}
	}
	border := 0
	for k, c := range third {
		d, ok := third[[2]ipt{k[1], k[0]}]
		if !ok {
			border++
		} else if inside(k[0], k[1], c, d) > 0 {
			return fmt.Sprintf("point %v is inside the circle through %v, %v and %v", d, k[0], k[1], c)
		}
	}
	// Euler: as many triangles as the points and the border demand, if nothing is missing inside
	if len(used)+5 < n || len(got.at) != 2*len(used)-2-border {
		return fmt.Sprintf("%d of %d points have triangles, of which there are %d, with %d sides at the border", len(used), n, len(got.at), border)
	}
	return ""
}

func pt(p incrdelaunay.Point) ipt { return ipt{int64(p.X), int64(p.Y)} }

func sorted(a, b, c ipt) [3]ipt {
	v := []ipt{a, b, c}
	sort.Slice(v, func(i, j int) bool { return v[i].x < v[j].x || v[i].x == v[j].x && v[i].y < v[j].y })
	return [3]ipt{v[0], v[1], v[2]}
}

// closest asks for the points closest to others.
func closest(t *Trial, p *Params, x *tess, pts []ipt) {
	r := newRng(mix64(p.Seed, uint64(len(pts))+77))
	for i := 0; i < 4 && len(pts) > 0; i++ {
		q := ipt{int64(r.n(p.W + 1)), int64(r.n(p.H + 1))}
		best := int64(-1)
		for _, o := range pts {
			if d := distSq(o, q); best < 0 || d < best {
				best = d
			}
		}
		c := pt(x.d.GetClosestTo(ip(q)))
		if distSq(c, q) == best {
			for _, o := range pts {
				if o == c {
					t.hit("closest points asked for")
					best = -1
					break
				}
			}
		}
		if best >= 0 {
			t.fail("closest", "%dx%d: the point closest to %v is said to be %v, at a squared distance of %d; the triangulation has one at %d: %s", p.W, p.H, q, c, distSq(c, q), best, some(pts))
		}
	}
}

func distSq(a, b ipt) int64 { return (a.x-b.x)*(a.x-b.x) + (a.y-b.y)*(a.y-b.y) }

// scratch compares a tessellation with one made from nothing of the same points.
func scratch(t *Trial, p *Params, x *tess, kind string) {
	pts := distinct(x.pts)
	amb, centres := ambiguous(pts, p.W, p.H)
	got := x.ask()
	if p.Eval == 0 {
		closest(t, p, x, pts)
		if got.n != len(x.pts) {
			t.fail("points", "%dx%d: a triangulation of %d points says it has %d", p.W, p.H, len(x.pts), got.n)
		}
		if d := delaunayError(got.at, pts, p.W, p.H, amb); d != "" {
			t.fail("not-delaunay", "%dx%d: the triangulation of the points %s is not their Delaunay triangulation: %s", p.W, p.H, some(pts), d)
		}
		t.hit("triangulations checked against exact geometry")
	}
	if amb {
		t.hit("not compared with a new one: several triangulations exist")
		return
	}
	var want answers
	vsim.Atomic(func() {
		y := newTess(p.Eval == 1, p.W, p.H)
		for _, q := range x.pts {
			y.insert(q)
		}
		want = y.ask()
	})
	if p.Eval == 0 {
		if d := exactly(want, got); d != "" {
			t.fail("scratch", "%dx%d: a %s that was edited differs from a new one of the same %d points %s: %s", p.W, p.H, kind, len(x.pts), some(x.pts), d)
		}
		model := map[ipt]bool{}
		for _, q := range x.pts {
			model[q] = true
			if !x.d.HasPoint(ip(q)) {
				t.fail("membership", "%dx%d: the triangulation does not contain point %v, which was inserted", p.W, p.H, q)
			}
		}
		r := newRng(mix64(p.Seed, uint64(len(x.pts))))
		for i := 0; i < 6; i++ {
			q := ipt{int64(r.n(p.W)), int64(r.n(p.H))}
			if !model[q] && x.d.HasPoint(ip(q)) {
				t.fail("membership", "%dx%d: the triangulation contains point %v, which is not in it", p.W, p.H, q)
			}
		}
	} else {
		if edgy(want.polys, centres, p.W, p.H) || cornerTie(distinct(x.pts), p.W, p.H) {
			t.hit("not compared with a new one: clipping depends on rounding")
			return
		}
		if d := roughly(want.polys, got.polys); d != "" {
			t.fail("scratch", "%dx%d: a %s that was edited differs from a new one of the same %d points %s: %s", p.W, p.H, kind, len(x.pts), some(x.pts), d)
		}
	}
	t.hit("compared with a new one")
}
