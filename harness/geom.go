package main

import (
	"math"
	"sort"

	"github.com/RH12503/Triangula/normgeom"
	"github.com/RH12503/Triangula/triangulation/incrdelaunay"

	"verifsim/vsim"
)

type ipt struct{ x, y int64 }

// pixels returns the distinct pixel positions of the points.
func pixels(g normgeom.NormPointGroup, w, h int) []ipt {
	var out []ipt
	seen := map[ipt]bool{}
	for _, p := range g {
		q := ipt{int64(p.X*float64(w) + 0.5), int64(p.Y*float64(h) + 0.5)}
		if !seen[q] {
			seen[q] = true
			out = append(out, q)
		}
	}
	return out
}

func orient(a, b, c ipt) int64 { return (b.x-a.x)*(c.y-a.y) - (b.y-a.y)*(c.x-a.x) }

// inside is positive if d is strictly inside the circle through a, b, c, zero if on it.
func inside(a, b, c, d ipt) int64 {
	ax, ay := a.x-d.x, a.y-d.y
	bx, by := b.x-d.x, b.y-d.y
	cx, cy := c.x-d.x, c.y-d.y
	v := (ax*ax+ay*ay)*(bx*cy-cx*by) - (bx*bx+by*by)*(ax*cy-cx*ay) + (cx*cx+cy*cy)*(ax*by-bx*ay)
	if orient(a, b, c) < 0 {
		v = -v
	}
	return v
}

// delaunay triangulates the points, which are distinct, and the corners of the super triangle
// with exact arithmetic. The corners come last in all.
func delaunay(pts []ipt, w, h int) (all []ipt, tris [][3]int) {
	st := incrdelaunay.NewSuperTriangle(w, h)
	all = append([]ipt(nil), pts...)
	for _, p := range []incrdelaunay.Point{st.A, st.B, st.C} {
		all = append(all, ipt{int64(p.X), int64(p.Y)})
	}
	n := len(pts)
	tris = [][3]int{{n, n + 1, n + 2}}
	var hole [][2]int
	for i, p := range pts {
		hole = hole[:0]
		for j := 0; j < len(tris); {
			t := tris[j]
			if inside(all[t[0]], all[t[1]], all[t[2]], p) <= 0 {
				j++
				continue
			}
			tris[j] = tris[len(tris)-1]
			tris = tris[:len(tris)-1]
		sides:
			for k := range t {
				u, v := t[k], t[(k+1)%3]
				if u > v {
					u, v = v, u
				}
				for m, e := range hole {
					if e == [2]int{u, v} {
						hole[m] = hole[len(hole)-1]
						hole = hole[:len(hole)-1]
						continue sides
					}
				}
				hole = append(hole, [2]int{u, v})
			}
		}
		for _, e := range hole {
			tris = append(tris, [3]int{e[0], e[1], i})
		}
	}
	return all, tris
}

// unique reports whether no other triangulation of the points is Delaunay.
func unique(all []ipt, tris [][3]int) bool {
	third := make(map[[2]int]int, 3*len(tris))
	for _, t := range tris {
		for k := range t {
			u, v, x := t[k], t[(k+1)%3], t[(k+2)%3]
			if u > v {
				u, v = v, u
			}
			if y, ok := third[[2]int{u, v}]; !ok {
				third[[2]int{u, v}] = x
			} else if inside(all[u], all[v], all[y], all[x]) == 0 {
				return false
			}
		}
	}
	return true
}

// ambiguous reports whether the points, with the super triangle's corners, have more than
// one Delaunay triangulation, and returns the circumcentres of the triangles otherwise.
func ambiguous(pts []ipt, w, h int) (bool, [][2]float64) {
	all, tris := delaunay(pts, w, h)
	if !unique(all, tris) {
		return true, nil
	}
	centres := make([][2]float64, 0, len(tris))
	for _, t := range tris {
		a, b, c := all[t[0]], all[t[1]], all[t[2]]
		d := 2 * float64(orient(a, b, c))
		a2, b2, c2 := float64(a.x*a.x+a.y*a.y), float64(b.x*b.x+b.y*b.y), float64(c.x*c.x+c.y*c.y)
		centres = append(centres, [2]float64{
			(a2*float64(b.y-c.y) + b2*float64(c.y-a.y) + c2*float64(a.y-b.y)) / d,
			(a2*float64(c.x-b.x) + b2*float64(a.x-c.x) + c2*float64(b.x-a.x)) / d})
	}
	return false, centres
}

// touchy reports whether a coordinate of the tessellation's polygons is so close to a
// rounding boundary or to an edge or corner of the image that the last bits decide.
func touchy(g normgeom.NormPointGroup, w, h int) bool {
	near := func(v, k float64) bool { return math.Abs(v-k) < 2e-3 }
	bad := false
	vsim.Atomic(func() {
		v := incrdelaunay.NewVoronoi(w, h)
		for _, p := range pixels(g, w, h) {
			v.Insert(incrdelaunay.Point{X: int16(p.x), Y: int16(p.y)})
		}
		v.IterPolygons(func(ps []incrdelaunay.FloatPoint) {
			for _, p := range ps {
				for i, c := range []float64{p.X, p.Y} {
					lim := float64([]int{w, h}[i])
					if near(c-math.Floor(c), 0.5) || (c != 0 && near(c, 0)) || (c != lim && near(c, lim)) {
						bad = true
					}
				}
			}
		})
	})
	return bad
}

// undecided reports whether the fitness of the points is not a function of the points
// alone, because they have several triangulations or sit on a rounding boundary.
func undecided(p *Params, g normgeom.NormPointGroup) bool {
	if p.Eval == 2 {
		return false
	}
	amb, centres := ambiguous(pixels(g, p.W, p.H), p.W, p.H)
	if amb {
		return true
	}
	if p.Eval == 1 {
		for _, c := range centres { // a corner of the image exactly on a cell boundary or vertex
			for _, x := range []float64{0, float64(p.W)} {
				for _, y := range []float64{0, float64(p.H)} {
					if math.Abs(c[0]-x) < 2e-3 && math.Abs(c[1]-y) < 2e-3 {
						return true
					}
				}
			}
		}
		return touchy(g, p.W, p.H)
	}
	return false
}

func sortedFits(es []*eval) []float64 {
	fs := make([]float64, len(es))
	for i, e := range es {
		fs[i] = e.fit
	}
	sort.Sort(sort.Reverse(sort.Float64Slice(fs)))
	return fs
}
