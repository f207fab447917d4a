package main

import (
	"fmt"
	"image"
	"image/color"
	"image/draw"
	"math"
	"runtime/debug"

	"github.com/RH12503/Triangula/algorithm"
	"github.com/RH12503/Triangula/algorithm/evaluator"
	rgb "github.com/RH12503/Triangula/color"
	"github.com/RH12503/Triangula/fitness"
	"github.com/RH12503/Triangula/generator"
	"github.com/RH12503/Triangula/geom"
	imageData "github.com/RH12503/Triangula/image"
	"github.com/RH12503/Triangula/normgeom"
	"github.com/RH12503/Triangula/polygonation"
	"github.com/RH12503/Triangula/random"
	"github.com/RH12503/Triangula/rasterize"
	"github.com/RH12503/Triangula/render"
	"github.com/RH12503/Triangula/triangulation"
	"github.com/RH12503/Triangula/triangulation/incrdelaunay"
	"github.com/RH12503/Triangula/utils"

	ssync "verifsim/shim/sync"
	"verifsim/vsim"
)

// rgba is a picture as a standard image.
func rgba(p *picture) *image.RGBA {
	im := image.NewRGBA(image.Rect(0, 0, p.w, p.h))
	b := func(v float64) uint8 { return uint8(math.Round(v * 255)) }
	for y := 0; y < p.h; y++ {
		for x := 0; x < p.w; x++ {
			c := p.RGBAt(x, y)
			im.SetRGBA(x, y, color.RGBA{b(c.R), b(c.G), b(c.B), 255})
		}
	}
	return im
}

// standard is a picture as a standard image of another type or with other bounds, and its pixels.
func standard(p *picture, kind int, seed uint64) (image.Image, []byte) {
	r := newRng(seed)
	switch kind {
	case 1, 4: // 4: with transparent parts
		im := image.NewNRGBA(image.Rect(0, 0, p.w, p.h))
		copy(im.Pix, rgba(p).Pix)
		for i := 3; i < len(im.Pix) && kind == 4; i += 4 {
			im.Pix[i] = byte(r.pick(0, 255, 255, r.n(256)))
		}
		return im, im.Pix
	case 2, 3: // part of a larger image, or with an origin of its own
		x, y := r.in(-9, 9), r.in(-9, 9)
		b := image.Rect(x, y, x+p.w, y+p.h)
		outer := b
		if kind == 2 {
			outer = image.Rect(x-r.n(5), y-r.n(5), x+p.w+r.n(5), y+p.h+r.n(5))
		}
		im := image.NewRGBA(outer)
		for i := range im.Pix {
			im.Pix[i] = byte(r.next())
		}
		draw.Draw(im, b, rgba(p), image.Point{}, draw.Src)
		return im.SubImage(b), im.Pix
	case 5:
		x := r.in(-3, 3)
		im := image.NewGray(image.Rect(x, 0, x+p.w, p.h))
		for i := range im.Pix {
			im.Pix[i] = byte(p.px[i].G * 255)
		}
		return im, im.Pix
	case 6: // a photograph, perhaps a part of a larger one, with an origin of its own
		ratio := image.YCbCrSubsampleRatio420
		b := image.Rect(0, 0, p.w, p.h)
		outer := b
		if r.n(2) == 0 {
			ratio = image.YCbCrSubsampleRatio(r.n(6))
		}
		if r.n(2) == 0 {
			b = b.Add(image.Pt(r.in(5, 12), r.in(5, 12))) // chroma planes have no negative coordinates
			outer = image.Rect(b.Min.X-r.n(5), b.Min.Y-r.n(5), b.Max.X+r.n(5), b.Max.Y+r.n(5))
		}
		im := image.NewYCbCr(outer, ratio)
		for i := range im.Y {
			im.Y[i] = byte(r.next())
		}
		for i := range im.Cb {
			im.Cb[i], im.Cr[i] = byte(r.next()), byte(r.next())
		}
		return im.SubImage(b), im.Y
	case 7:
		im := image.NewPaletted(image.Rect(0, 0, p.w, p.h), color.Palette{color.Black, color.White, color.RGBA{200, 10, 30, 255}, color.RGBA{0, 80, 90, 255}})
		for i := range im.Pix {
			im.Pix[i] = byte(r.n(4))
		}
		return im, nil
	case 8:
		im := image.NewRGBA64(image.Rect(0, -1, p.w, p.h-1))
		for i := range im.Pix {
			im.Pix[i] = byte(r.next()) // with alpha 65535
			if i%8 > 5 {
				im.Pix[i] = 255
			}
		}
		return im, im.Pix
	case 9:
		kind, b := r.n(6), image.Rect(0, 0, p.w, p.h)
		if b = b.Add(image.Pt(r.in(-5, 5), r.in(-5, 5))); kind == 4 {
			b = b.Add(image.Pt(5, 5))
		}
		var im image.Image
		var pix []byte
		switch kind {
		case 0:
			m := image.NewGray16(b)
			im, pix = m, m.Pix
		case 1:
			m := image.NewNRGBA64(b)
			im, pix = m, m.Pix
		case 2:
			m := image.NewCMYK(b)
			im, pix = m, m.Pix
		case 3:
			m := image.NewAlpha(b)
			im, pix = m, m.Pix
		case 4:
			m := image.NewNYCbCrA(b, image.YCbCrSubsampleRatio(r.n(6)))
			im, pix = m, m.Y
			for i := range m.Cb {
				m.Cb[i], m.Cr[i] = byte(r.next()), byte(r.next())
			}
			for i := range m.A {
				m.A[i] = byte(r.pick(255, 255, r.n(256)))
			}
		case 5:
			m := image.NewNRGBA(b)
			im, pix = m, m.Pix
		}
		for i := range pix {
			pix[i] = byte(r.next())
		}
		if r.n(2) == 0 && p.w > 2 && p.h > 2 {
			c := image.Rect(b.Min.X+r.n(2), b.Min.Y+r.n(2), b.Max.X-r.n(2), b.Max.Y-r.n(2))
			im = im.(interface {
				SubImage(image.Rectangle) image.Image
			}).SubImage(c)
		}
		return im, pix
	}
	im := rgba(p)
	return im, im.Pix
}

// conversions converts images of all kinds in some goroutines, each of which repaints its image
// afterwards.
func conversions(t *Trial) {
	r := newRng(mix64(t.P.Seed, 977))
	tasks := r.pick(1, 2, 3)
	problems := make([]string, tasks)
	var wg ssync.WaitGroup
	for k := 0; k < tasks; k++ {
		k, seed := k, r.next()
		wg.Add(1)
		vsim.Spawn(func() {
			defer wg.Done()
			problems[k] = convert(newRng(seed))
		})
	}
	wg.Wait()
	t.add("images converted", int64(tasks*3))
	for _, s := range problems {
		if s != "" {
			t.fail("conversion", "%s", s)
		}
	}
}

func convert(r *rng) string {
	type conversion struct {
		want *picture
		got  imageData.RGBData
		name string
	}
	var all []conversion
	for i := 0; i < 3; i++ {
		w, h := r.in(1, 17), r.in(1, 17)
		if r.n(20) == 0 {
			w, h = r.in(1, 70), r.in(1, 70)
		}
		im, pix := standard(newPicture(r.pick(0, 1, 2, 4), w, h, r.next()), r.n(10), r.next())
		c := conversion{want: pictureOf(im), name: fmt.Sprintf("%T with bounds %v", im, im.Bounds())}
		c.got = imageData.ToData(im)
		for i := range pix {
			pix[i] ^= byte(1 + i*3)
		}
		all = append(all, c)
	}
	for _, c := range all {
		if w, h := c.got.Size(); w != c.want.w || h != c.want.h {
			return fmt.Sprintf("a %s was converted to an image of %dx%d", c.name, w, h)
		}
		for i, want := range c.want.px {
			x, y := i%c.want.w, i/c.want.w
			if got := c.got.RGBAt(x, y); math.Abs(got.R-want.R)+math.Abs(got.G-want.G)+math.Abs(got.B-want.B) > 1e-9 {
				return fmt.Sprintf("pixel (%d, %d) of a %s is %v and was converted to %v", x, y, c.name, want, got)
			}
		}
	}
	return ""
}

// pictureOf returns the pixels of a standard image.
func pictureOf(im image.Image) *picture {
	b := im.Bounds()
	p := &picture{w: b.Dx(), h: b.Dy()}
	for y := b.Min.Y; y < b.Max.Y; y++ {
		for x := b.Min.X; x < b.Max.X; x++ {
			r, g, b, _ := im.At(x, y).RGBA()
			p.px = append(p.px, rgb.RGB{R: float64(r>>8) / 255, G: float64(g>>8) / 255, B: float64(b>>8) / 255})
		}
	}
	return p
}

// digest accumulates a result.
type digest struct {
	h uint64
	n int
}

func (d *digest) add(vs ...int) {
	for _, v := range vs {
		d.h = mix64(d.h, uint64(v))
		d.n++
	}
}
func (d *digest) float(vs ...float64) {
	for _, v := range vs {
		d.h = mix64(d.h, math.Float64bits(v))
		d.n++
	}
}

// ---- C27 ----

// shared is what concurrent one-shot operations have in common.
type shared struct {
	p      *Params
	pts    normgeom.NormPointGroup
	src    *image.RGBA
	im     imageData.RGBData
	tris   []geom.Triangle
	polys  []geom.Polygon
	del    *incrdelaunay.Delaunay
	ipts   []ipt
	before uint64
}

func (s *shared) sum() uint64 {
	d := digest{h: hashPoints(s.pts)}
	for _, t := range s.tris {
		for _, q := range t.Points {
			d.add(q.X, q.Y)
		}
	}
	for _, t := range s.polys {
		for _, q := range t.Points {
			d.add(q.X, q.Y)
		}
	}
	for _, b := range s.src.Pix {
		d.add(int(b))
	}
	for y := 0; y < s.p.H; y++ {
		for x := 0; x < s.p.W; x++ {
			c := s.im.RGBAt(x, y)
			d.float(c.R, c.G, c.B)
		}
	}
	s.del.IterTriangles(func(t incrdelaunay.Triangle) {
		d.add(int(t.A.X), int(t.A.Y), int(t.B.X), int(t.B.Y), int(t.C.X), int(t.C.Y))
	})
	d.add(s.del.NumPoints())
	return d.h
}

var opNames = []string{"triangulate and render", "polygonate and render", "rasterise", "convert the image", "build and edit a triangulation",
	"build and edit a tessellation", "query a triangulation", "evaluate triangles", "evaluate polygons", "render shared triangles", "render shared polygons", "copy points and shapes"}

func (d *digest) triangleData(ts []render.TriangleData) {
	for _, t := range ts {
		for _, q := range t.Triangle.Points {
			d.float(q.X, q.Y)
		}
		d.float(t.Color.R, t.Color.G, t.Color.B)
	}
}

func (d *digest) polygonData(ts []render.PolygonData) {
	for _, t := range ts {
		d.add(len(t.Polygon.Points))
		for _, q := range t.Polygon.Points {
			d.float(q.X, q.Y)
		}
		d.float(t.Color.R, t.Color.G, t.Color.B)
	}
}

// fill makes what the operations work on.
func (s *shared) fill() *rng {
	p := s.p
	s.src = rgba(newPicture(p.Img, p.W, p.H, p.Seed))
	s.pts = solid(p, mix64(p.Seed, 61))
	s.im = imageData.ToData(s.src)
	s.tris = triangulation.Triangulate(s.pts, p.W, p.H)
	rr := newRng(mix64(p.Seed, 62))
	for i := 0; i < 3+rr.n(3); i++ {
		var g geom.Polygon
		for k := 3 + rr.n(3); k > 0; k-- {
			g.Points = append(g.Points, geom.Point{X: rr.n(p.W), Y: rr.n(p.H)})
		}
		s.polys = append(s.polys, g)
	}
	x := newTess(false, p.W, p.H)
	for i := 0; i < p.Points; i++ {
		x.insert(place(p, rr, x.pts))
	}
	s.del = x.d
	return rr
}

// do performs one operation and returns what it gave.
func (s *shared) do(op int, pts normgeom.NormPointGroup, seed uint64, alone bool) (out string) {
	d := &digest{}
	ended := false
	defer func() {
		if !ended && vsim.Active() {
			if e := recover(); e != nil {
				out = fmt.Sprintf("panic: %v", e)
			}
		}
	}()
	p, r := s.p, newRng(seed)
	block := r.pick(p.Block, p.Block, 1, 2, 3, 5)
	im := s.im
	if op != 3 && op != 6 && op < 9 && r.n(5) == 0 { // an image of another size
		q := *p
		p = &q
		if p.W, p.H = p.H, p.W; r.n(2) == 0 {
			p.W, p.H = r.in(9, 40), r.in(9, 40)
		}
		im = imageData.ToData(rgba(newPicture(r.n(5), p.W, p.H, seed)))
	} else if op != 3 && op != 6 && r.n(4) == 0 { // another image of the same size
		im = imageData.ToData(rgba(newPicture(r.n(5), p.W, p.H, seed)))
	}
	switch op {
	case 0:
		d.triangleData(render.TrianglesOnImage(triangulation.Triangulate(pts, p.W, p.H), im))
	case 1:
		d.polygonData(render.PolygonsOnImage(polygonation.Polygonate(pts, p.W, p.H), im))
	case 2:
		span := func(a, b, y int) { d.add(a, b, y) }
		cell := func(x, y int) { d.add(x, y) }
		for _, t := range triangulation.Triangulate(pts, p.W, p.H) {
			rasterize.DDATriangle(t, cell)
			rasterize.DDATriangleLines(t, span)
			rasterize.DDATriangleBlocks(t, block, span, cell)
		}
	case 3:
		src := s.src
		if r.n(3) == 0 { // an image that is painted and converted again
			src = rgba(newPicture(r.n(5), p.W, p.H, seed))
			if !alone {
				d.add(imageSum(imageData.ToData(src)))
				*d = digest{}
			}
			for i := r.n(40); i < len(src.Pix); i += 4 * r.in(1, 40) {
				src.Pix[i] ^= 0x5a
			}
		}
		c := imageData.ToData(src)
		w, h := c.Size()
		d.add(w, h, imageSum(c))
	case 4, 5:
		x := newTess(op == 5, p.W, p.H)
		for n := 4 + r.n(14); n > 0; n-- {
			edit(p, x, r)
		}
		a := x.ask()
		d.add(a.n)
		d.h = mix64(d.h, hashStrings(a.tris))
		d.h = mix64(d.h, hashStrings(polyKeys(a.polys)))
		d.n += len(a.tris) + len(a.polys)
		if op == 4 {
			incrdelaunay.Voronoi(x.d, func(ps []incrdelaunay.FloatPoint) {
				for _, q := range ps {
					d.float(q.X, q.Y)
				}
			}, p.W, p.H)
		}
	case 6:
		for n := 0; n < 6; n++ {
			q := ip(ipt{int64(r.n(p.W)), int64(r.n(p.H))})
			if s.del.HasPoint(q) {
				d.add(1)
			}
			c := s.del.GetClosestTo(q)
			d.add(int(c.X), int(c.Y))
		}
		s.del.IterTriangles(func(t incrdelaunay.Triangle) {
			d.add(int(t.A.X), int(t.A.Y), int(t.B.X), int(t.B.Y), int(t.C.X), int(t.C.Y))
		})
		incrdelaunay.Voronoi(s.del, func(ps []incrdelaunay.FloatPoint) {
			for _, q := range ps {
				d.float(q.X, q.Y)
			}
		}, p.W, p.H)
		d.add(s.del.NumPoints())
	case 7:
		d.float(fitness.NewTrianglesImageFunction(im, block).Calculate(fitness.PointsData{Points: pts}))
	case 8:
		d.float(fitness.PolygonsImageFunctions(im, block, 1)[0].Calculate(fitness.PointsData{Points: pts}))
	case 9:
		d.triangleData(render.TrianglesOnImage(s.tris, im))
	case 10:
		d.polygonData(render.PolygonsOnImage(s.polys, im))
	case 11:
		c := pts.Copy()
		for _, q := range c {
			q.X += 3
			q.Constrain()
			d.float(q.X, q.Y)
		}
		c.Set(pts)
		for _, q := range c {
			d.float(q.X, q.Y)
		}
		for _, t := range s.polys {
			for _, q := range t.ToNorm(p.W, p.H).Points {
				d.float(q.X, q.Y)
			}
			t.Triangulate(func(u geom.Triangle) { d.add(u.Points[0].X, u.Points[1].Y) })
			rasterize.DDAPolygon(t, func(x, y int) { d.add(x, y) })
			rasterize.DDAPolygonBlocks(t, block, func(a, b, y int) { d.add(a, b, y) }, func(x, y int) { d.add(x, y) })
		}
		for _, t := range s.tris {
			u := t.ToNorm(p.W, p.H)
			d.float(u.Points[0].X, u.Points[2].Y)
		}
	}
	ended = true
	return fmt.Sprintf("%d values, digest %x", d.n, d.h)
}

func imageSum(c imageData.RGBData) int {
	d := &digest{}
	w, h := c.Size()
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			v := c.RGBAt(x, y)
			d.float(v.R, v.G, v.B)
		}
	}
	return int(d.h)
}

func hashStrings(ss []string) uint64 {
	h := uint64(len(ss))
	for _, s := range ss {
		for i := 0; i < len(s); i++ {
			h = mix64(h, uint64(s[i]))
		}
	}
	return h
}

// solid returns points that are not all on one line.
func solid(p *Params, seed uint64) normgeom.NormPointGroup {
	return makePoints(p.Gen, p.Points, newRng(seed))
}

func init() {
	scenarios["C27"] = &Scenario{
		race: true,
		gen: func(p *Params, r *rng) {
			genMisc(p, r)
			genSchedule(p, r)
			p.W, p.H = r.in(9, 36), r.in(9, 36)
			p.Block = r.pick(1, 2, 3, 5)
			p.Points = r.pick(3, 4, 6, 9, 14)
			p.Gen = r.pick(0, 0, 0, 3, 5, 2)
			p.E = 45
			p.Img = r.pick(0, 1, 2, 4)
			p.Cutoff = r.in(1, 2)
			p.Size = p.Cutoff + r.in(1, 4)
			p.Rate, p.Amount = 30, 30
			p.Cache = r.pick(1, 3, 6)
			p.Algo, p.Eval, p.Mut, p.MutKinds = 1, r.n(2), 2, 1
			p.A = r.in(2, 4)         // goroutines
			p.B = r.in(1, 3)         // operations of each
			p.C = r.pick(0, 0, 1, 2) // generations of a search beside them
			p.D = r.n(2)             // same operation everywhere
			p.Faults[vsim.DrawWake] = 0
		},
		body: func(t *Trial) {
			p := t.P
			type result struct {
				op   int
				pts  normgeom.NormPointGroup
				seed uint64
				out  string
			}
			s := &shared{p: p}
			got := make([][]result, p.A+1)
			r := t.run(p.perturbed(0), func() {
				rr := s.fill()
				vsim.Atomic(func() { s.before = s.sum() })
				var wg ssync.WaitGroup
				same := rr.n(len(opNames))
				for k := 0; k < p.A; k++ {
					k := k
					r := newRng(mix64(p.Seed, 900+uint64(k)))
					wg.Add(1)
					vsim.Spawn(func() {
						defer wg.Done()
						for i := 0; i < p.B; i++ {
							q := result{op: r.n(len(opNames)), pts: s.pts, seed: r.next()}
							if p.D == 1 {
								q.op = same
							}
							if r.n(3) == 0 {
								q.pts = solid(p, r.next())
							}
							q.out = s.do(q.op, q.pts, q.seed, false)
							got[k] = append(got[k], q)
						}
					})
				}
				if p.C > 0 {
					wr := newRng(mix64(p.Seed, 11))
					a := build(p, func() normgeom.NormPointGroup { return makePoints(p.Gen, p.Points, wr) }, func(n int) evaluator.Evaluator {
						if p.Eval == 0 {
							return evaluator.NewParallel(fitness.TrianglesImageFunctions(s.im, p.Block, n), p.Cache)
						}
						return evaluator.NewParallel(fitness.PolygonsImageFunctions(s.im, p.Block, n), p.Cache)
					}, newMutator(p))
					for i := 0; i < p.C; i++ {
						c := a.Best().Copy()
						wg.Add(1)
						q := &result{op: p.Eval, pts: c}
						vsim.Spawn(func() {
							defer wg.Done()
							q.out = s.do(q.op, q.pts, 0, false)
						})
						a.Step()
						wg.Wait()
						got[p.A] = append(got[p.A], *q)
						t.hit("generations beside other operations")
					}
				}
				wg.Wait()
			})
			t.mustFinish(r)
			if s.sum() != s.before {
				t.fail("inputs-changed", "%dx%d, %d points: operations changed the points, shapes, image or triangulation they were given", p.W, p.H, p.Points)
			}
			for k := range got {
				for _, q := range got[k] {
					// every run begins with newly initialised packages
					alone := ""
					r = t.run(p.serial(), func() { alone = s.do(q.op, q.pts, q.seed, true) })
					t.mustFinish(r)
					if alone != q.out {
						t.fail("interference", "%dx%d, %d points: %q gave %s beside other operations and %s alone", p.W, p.H, len(q.pts), opNames[q.op], q.out, alone)
					}
					t.hit("compared: " + opNames[q.op])
				}
			}
			if s.sum() != s.before {
				t.fail("inputs-changed", "%dx%d, %d points: operations changed the points, shapes, image or triangulation they were given", p.W, p.H, p.Points)
			}
		},
		rule:  "per case one run of two to four goroutines performing operations on shared inputs, in half of the cases beside a search on the same image, under the race detector, and a repetition of every operation alone; distinct by schedule and event hash; non-trivial if at least three task switches happened",
		quick: 120000, deep: 6000000, wall: 30,
	}
}

// ---- C25 ----

func init() {
	scenarios["C25"] = &Scenario{
		race: true,
		gen: func(p *Params, r *rng) {
			genSchedule(p, r)
			p.A = r.in(1, 4) // goroutines
			p.B = r.in(1, 4) // groups of each
			p.C = r.n(3)     // spreading of the points is checked
			if p.C > 0 {
				p.Faults[vsim.DrawRand] = r.pick(0, 1_000, 30_000, 300_000, 1_000_000)
			}
		},
		body: func(t *Trial) {
			if t.P.C == 0 {
				spread(t)
				return
			}
			p := t.P
			r := t.run(p.perturbed(0), func() {
				type group struct {
					g    normgeom.NormPointGroup
					n    int
					sum  uint64
					name string
				}
				all := make([][]group, p.A)
				rs := newRng(mix64(p.Seed, 71))
				both := []generator.Generator{generator.RandomGenerator{}, generator.NewSpacedGenerator(rs.pick(0, 1, 5, 30))}
				var wg ssync.WaitGroup
				for k := 0; k < p.A; k++ {
					k := k
					r := newRng(mix64(p.Seed, 900+uint64(k)))
					wg.Add(1)
					vsim.Spawn(func() {
						defer wg.Done()
						for i := 0; i < p.B; i++ {
							var g generator.Generator
							name := "random"
							switch r.n(4) {
							case 0:
								g = generator.RandomGenerator{}
							case 1:
								it := r.pick(0, 1, 2, 10, 40)
								g, name = generator.NewSpacedGenerator(it), fmt.Sprintf("spaced(%d)", it)
							default:
								x := r.n(2)
								g, name = both[x], []string{"shared random", "shared spaced"}[x]
							}
							n := r.pick(1, 1, 2, 3, 5, 8, 13, 30)
							if r.chance(3) {
								n = r.pick(64, 100, 129)
							}
							if name == "random" && r.chance(4) {
								n = r.pick(257, 1000, 3000)
							}
							q := group{g: g.Generate(n), n: n, name: name}
							if len(q.g) != n {
								t.fail("count", "the %s generator returned %d points instead of %d", name, len(q.g), n)
							}
							for _, pt := range q.g {
								if !(pt.X >= 0 && pt.X <= 1 && pt.Y >= 0 && pt.Y <= 1) {
									t.fail("range", "the %s generator returned the point %v", name, pt)
								}
							}
							// the caller owns the group
							for j := range q.g {
								q.g[j].X = float64(k*1000+i*100+j) / 4096
							}
							_ = append(q.g, normgeom.NormPoint{X: 3, Y: 3})
							q.sum = hashPoints(q.g)
							all[k] = append(all[k], q)
						}
					})
				}
				wg.Wait()
				for _, gs := range all {
					for _, q := range gs {
						t.hit("groups checked")
						if hashPoints(q.g) != q.sum {
							t.fail("shared", "a group of %d points from the %s generator changed after it was returned", q.n, q.name)
						}
					}
				}
			})
			t.mustFinish(r)
		},
		rule:  "per case one run of one to four goroutines generating groups with own and shared generators under extreme random streams, or one comparison of spaced with random groups; distinct by schedule and event hash; non-trivial if at least three task switches happened",
		quick: 200000, deep: 10000000, wall: 20,
	}
}

// nearest returns the mean distance of a point to the closest other one.
func nearest(g normgeom.NormPointGroup) float64 {
	sum := 0.
	for i := range g {
		best := 9.
		for j := range g {
			if i != j {
				best = math.Min(best, math.Hypot(g[i].X-g[j].X, g[i].Y-g[j].Y))
			}
		}
		sum += best
	}
	return sum / float64(len(g))
}

// spreadOf lists numbers of points, iterations, the expected distance to the closest other of as
// many uniform points, and how much further apart spaced points are at least.
var spreadOf = []struct {
	n, iterations int
	ref, factor   float64
}{{12, 400, 0.165, 1.15}, {12, 400, 0.165, 1.15}, {25, 900, 0.1097, 1.25}, {40, 1200, 0.085, 1.25}}

// spread compares the spacing of spaced and of random points over several goroutines' groups.
func spread(t *Trial) {
	p := t.P
	rr := newRng(mix64(p.Seed, 83))
	c := spreadOf[rr.n(len(spreadOf))]
	shared, earlier := rr.n(3) > 0, rr.pick(0, 0, 1, 3)
	const groups = 3
	sums := make([][2]float64, groups)
	r := t.run(p.perturbed(0), func() {
		g := generator.NewSpacedGenerator(c.iterations)
		for i := 0; i < earlier; i++ {
			g.Generate(1 + i*5)
		}
		var wg ssync.WaitGroup
		for k := 0; k < groups; k++ {
			k := k
			wg.Add(1)
			vsim.Spawn(func() {
				defer wg.Done()
				g := g
				if !shared {
					g = generator.NewSpacedGenerator(c.iterations)
				}
				sums[k][0] = nearest((generator.RandomGenerator{}).Generate(c.n))
				sums[k][1] = nearest(g.Generate(c.n))
			})
		}
		wg.Wait()
	})
	t.mustFinish(r)
	a, b := 0., 0.
	for _, s := range sums {
		a, b = a+s[0]/groups, b+s[1]/groups
	}
	t.hit("spacings compared")
	if b < c.factor*c.ref {
		t.fail("spread", "the closest other point is on average %.4f away in %d spaced groups of %d points after %d iterations (%.4f in random ones)", b, groups, c.n, c.iterations, a)
	}
}

// ---- C28 ----

func init() {
	scenarios["C28"] = &Scenario{
		gen: func(p *Params, r *rng) {
			genMisc(p, r)
			genSchedule(p, r)
			p.W, p.H = r.in(9, 24), r.in(9, 24)
			p.Points = r.pick(1, 2, 3, 4, 6, 9)
			p.Steps = r.in(1, 2)
			switch r.n(20) {
			case 0, 1:
				p.W, p.H = r.in(1, 9), r.in(1, 9)
			case 2:
				p.W, p.H = r.in(9, 100), r.in(9, 100)
			case 3:
				p.Points = r.pick(15, 25, 50)
				p.Steps = 1
			}
			p.D = r.pick(0, 0, 1, 2, 2, 3, 4, 5, 6, 6, 7, 8, 9) // type of the image
			p.Img = r.pick(0, 1, 2, 4)
			p.Gap = r.pick(300, 3000, 30000, 300000)
			p.Est = 20_000_000
			genRand(p, r)
			p.A = r.pick(0, 0, 1) // compared with another schedule
			p.B = r.pick(0, 0, 0, 1)
			p.C = r.pick(p.Points, 3, 5)
		},
		body: func(t *Trial) {
			p := t.P
			debug.SetMemoryLimit(1 << 30)
			pic := newPicture(p.Img, p.W, p.H, p.Seed)
			given, _ := standard(pic, p.D, mix64(p.Seed, 17))
			target := pictureOf(given)
			size := *p
			size.W, size.H = target.w, target.h
			var bests []normgeom.NormPointGroup
			var fits []float64
			before := p.Seed%2 == 0 && p.B == 1
			once := func(check bool, scribble bool) (tr []point) {
				random.Seed(int64(mix64(p.Seed, 3) >> 1))
				im, pix := standard(pic, p.D, mix64(p.Seed, 17))
				if scribble && before { // the same image was used with other contents before
					now := append([]byte(nil), pix...)
					for i := range pix {
						pix[i] ^= byte(i)
					}
					utils.DefaultAlgorithm(p.C, im)
					copy(pix, now)
					random.Seed(int64(mix64(p.Seed, 3) >> 1))
				}
				a := utils.DefaultAlgorithm(p.Points, im)
				if scribble { // the picture is the caller's again
					for i := range pix {
						pix[i] = byte(i)
					}
				}
				last := math.Inf(-1)
				for i := 0; i <= p.Steps; i++ {
					if i > 0 {
						a.Step()
					}
					tr = append(tr, point{hashPoints(a.Best()), math.Float64bits(a.Stats().BestFitness), a.Stats().Generation})
					if check {
						last = checkDefault(t, p, a, i, last)
						bests, fits = append(bests, a.Best().Copy()), append(fits, last)
					}
				}
				return
			}
			var got, want []point
			r := t.run(p.perturbed(0), func() {
				conversions(t)
				got = once(true, p.Seed%2 == 0)
			})
			t.mustFinish(r)
			// a new run, with newly initialised packages
			r = t.run(p.serial(), func() {
				for i, b := range bests {
					want := fitness.NewTrianglesImageFunction(target, 5).Calculate(fitness.PointsData{Points: b})
					if math.Abs(want-fits[i]) <= 1e-9 {
						t.hit("results checked")
					} else if !math.IsNaN(fits[i]) && undecided(&size, b) {
						t.skip("points with several triangulations")
					} else {
						t.fail("fitness", "default optimiser, %d points %v, %dx%d: the best fitness is reported as %v and is %v for the image it was given", p.Points, b, p.W, p.H, fits[i], want)
					}
				}
			})
			t.mustFinish(r)
			if before || p.A == 0 || p.Faults[vsim.DrawRand] > 0 {
				return
			}
			r = t.run(p.serial(), func() { want = once(false, false) })
			t.mustFinish(r)
			if d := diff(want, got); d != "" {
				t.fail("schedule", "default optimiser, %d points, %dx%d: another schedule gives other results: %s", p.Points, p.W, p.H, d)
			}
			t.hit("trajectories compared")
		},
		rule:  "per case one run of the default optimiser with its 400 members, in a third of the cases compared with a run under another schedule; distinct by schedule and event hash; non-trivial if at least three task switches happened",
		quick: 4000, deep: 200000, wall: 40,
	}
}

func checkDefault(t *Trial, p *Params, a algorithm.Algorithm, step int, last float64) float64 {
	b, s := a.Best(), a.Stats()
	if len(b) != p.Points {
		t.fail("count", "default optimiser: the best result has %d points instead of %d", len(b), p.Points)
	}
	for _, q := range b {
		if !(q.X >= 0 && q.X <= 1 && q.Y >= 0 && q.Y <= 1) {
			t.fail("range", "default optimiser, %d points: the best result has the point %v", p.Points, q)
		}
	}
	if s.Generation != step {
		t.fail("generation", "default optimiser: the generation is %d after %d steps", s.Generation, step)
	}
	if s.BestFitness < last-1e-12 {
		t.fail("worse", "default optimiser, %d points, %dx%d: the best fitness falls from %v to %v in step %d", p.Points, p.W, p.H, last, s.BestFitness, step)
	}
	return s.BestFitness
}
