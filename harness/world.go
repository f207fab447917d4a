package main

import (
	"math"

	"github.com/RH12503/Triangula/algorithm"
	"github.com/RH12503/Triangula/algorithm/evaluator"
	"github.com/RH12503/Triangula/color"
	"github.com/RH12503/Triangula/fitness"
	"github.com/RH12503/Triangula/generator"
	"github.com/RH12503/Triangula/mutation"
	"github.com/RH12503/Triangula/normgeom"
	"github.com/RH12503/Triangula/random"
	"github.com/panjf2000/ants/v2"

	"verifsim/vsim"
)

// ---- target images ----

// picture is an image.Data made of plain values.
type picture struct {
	small [][3]byte // of huge images
	w, h  int
	px    []color.RGB
}

func (i *picture) RGBAt(x, y int) color.RGB {
	if i.small != nil {
		c := i.small[y*i.w+x]
		return color.RGB{R: float64(c[0]) / 255, G: float64(c[1]) / 255, B: float64(c[2]) / 255}
	}
	return i.px[y*i.w+x]
}
func (i *picture) Size() (int, int) { return i.w, i.h }

func newPicture(kind, w, h int, seed uint64) *picture {
	r := newRng(mix64(seed, 31))
	if w*h > 5_000_000 {
		p := &picture{w: w, h: h, small: make([][3]byte, w*h)}
		for i := range p.small {
			p.small[i] = [3]byte{255, 255 - byte(r.next()&3), 240 + byte(i&15)}
		}
		return p
	}
	p := &picture{w: w, h: h, px: make([]color.RGB, w*h)}
	c := func(v int) float64 { return float64(v&255) / 255 }
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			k := r.next()
			var v color.RGB
			switch kind {
			case 0: // noise
				v = color.RGB{R: c(int(k)), G: c(int(k >> 8)), B: c(int(k >> 16))}
			case 1: // gradient
				v = color.RGB{R: c(x * 255 / w), G: c(y * 255 / h), B: c((x + y) * 3)}
			case 2: // patches
				b := mix64(seed, uint64(x*4/w*7+y*4/h))
				v = color.RGB{R: c(int(b)), G: c(int(b >> 8)), B: c(int(b >> 16))}
			case 3: // flat
				v = color.RGB{R: c(200), G: c(100), B: c(50)}
			case 4: // patches with noise
				b := mix64(seed, uint64(x*3/w*7+y*3/h))
				v = color.RGB{R: c(int(b)), G: c(int(b>>8)&^15 + int(k&15)), B: c(int(b >> 16))}
			case 5: // bright
				v = color.RGB{R: c(255), G: c(255 - int(k&3)), B: c(240 + int(k>>8&15))}
			}
			p.px[y*w+x] = v
		}
	}
	return p
}

// ---- points ----

func makePoints(kind, n int, r *rng) normgeom.NormPointGroup {
	g := make(normgeom.NormPointGroup, n)
	switch kind {
	case 1:
		return (generator.RandomGenerator{}).Generate(n)
	case 3: // cluster
		cx, cy, d := r.f(), r.f(), 0.02+0.2*r.f()
		for i := range g {
			g[i] = unit(cx+(r.f()-0.5)*d, cy+(r.f()-0.5)*d)
		}
	case 2: // coarse grid, many duplicates and cocircular points
		k := r.in(2, 6)
		for i := range g {
			g[i] = unit(float64(r.n(k+1))/float64(k), float64(r.n(k+1))/float64(k))
		}
	case 4: // all the same
		x, y := r.f(), r.f()
		for i := range g {
			g[i] = unit(x, y)
		}
	case 5: // corners and edges
		for i := range g {
			x, y := r.f(), r.f()
			switch r.n(4) {
			case 0:
				x = 0
			case 1:
				x = 1
			case 2:
				y = 0
			case 3:
				y = 1
			}
			if r.n(3) == 0 {
				x, y = math.Round(x), math.Round(y)
			}
			g[i] = unit(x, y)
		}
	case 8: // in corners
		for i, k := 0, r.n(4); i < n; i, k = i+1, k+1 {
			g[i] = unit(float64(k/2%2), float64((k+1)/2%2))
		}
	case 6: // on a line
		x := r.f()
		for i := range g {
			g[i] = unit(x, r.f())
		}
	default:
		for i := range g {
			g[i] = unit(r.f(), r.f())
		}
	}
	return g
}

// halfway places points exactly between pixels.
func halfway(p *Params, r *rng) normgeom.NormPointGroup {
	g := make(normgeom.NormPointGroup, p.Points)
	at := func(n int) float64 {
		k := float64(r.n(n)) + 0.5
		if v := k / float64(n); r.n(4) > 0 && v*float64(n) == k {
			return v
		}
		return r.f()
	}
	for i := range g {
		g[i] = unit(at(p.W), at(p.H))
	}
	return g
}

func unit(x, y float64) normgeom.NormPoint {
	return normgeom.NormPoint{X: math.Min(1, math.Max(0, x)), Y: math.Min(1, math.Max(0, y))}
}

// ownMutator is a mutation method with its own source and unusual moves.
type ownMutator struct {
	r     *rng
	rate  float64
	kinds int
}

func (m *ownMutator) Mutate(points normgeom.NormPointGroup, mutated func(mutation.Mutation)) {
	for i := 0; i < len(points); i++ {
		if m.r.f() >= m.rate {
			continue
		}
		old := points[i]
		k := m.r.n(10)
		if m.kinds == 1 {
			k = 0
		}
		switch k {
		default:
			points[i] = unit(m.r.f(), m.r.f())
		case 5, 6:
			points[i] = unit(old.X+(m.r.f()-0.5)*0.1, old.Y+(m.r.f()-0.5)*0.1)
		case 7: // onto another point
			points[i] = points[m.r.n(len(points))]
		case 8: // onto a corner
			points[i] = unit(float64(m.r.n(2)), float64(m.r.n(2)))
		case 9: // nowhere
		}
		mutated(mutation.Mutation{Old: old, New: points[i], Index: i})
	}
}

// ---- synthetic fitness functions ----

// synth is a pure function of the points without ties in practice.
func synth(g normgeom.NormPointGroup, seed uint64) float64 {
	a, b := 3+float64(seed%7), 5+float64(seed%11)
	v := 0.
	for i, p := range g {
		w := 1 + float64(i)*0.37
		v += math.Sin(a*p.X+w) + math.Cos(b*p.Y*w) + p.X*p.Y
	}
	return v / float64(4*len(g)+1)
}

// work consumes simulated work that depends on the points only.
func work(g normgeom.NormPointGroup, p *Params) {
	h := hashPoints(g)
	for n := h % 97; n > 0; n-- {
		vsim.Y()
	}
	if p.Slow > 0 && int(h>>20%100) < p.Slow {
		max := uint64(4_000_000_000)
		if p.SlowMax > 0 {
			max = uint64(p.SlowMax)
		}
		vsim.Sleep(int64(h>>17%max) + 1)
	}
}

// pure is the plain synthetic function.
type pure struct{ p *Params }

func (f *pure) Calculate(d fitness.PointsData) float64 {
	work(d.Points, f.p)
	return synth(d.Points, f.p.Seed)
}

// mirror is a synthetic function with the same protocol as the image functions: it keeps
// its own idea of the points and, when it has a base, derives it from the base and the
// reported mutations only.
type mirror struct {
	p     *Params
	state normgeom.NormPointGroup
	base  *mirror
	has   bool
	cache []fitness.CacheData
}

func (f *mirror) Calculate(d fitness.PointsData) float64 {
	if !f.has {
		f.state = d.Points.Copy()
		f.has = true
	} else if f.base != nil {
		f.state = append(f.state[:0], f.base.state...)
		for _, m := range d.Mutations {
			if m.Index >= 0 && m.Index < len(f.state) {
				f.state[m.Index] = m.New
			}
		}
	}
	f.base = nil
	work(f.state, f.p)
	return synth(f.state, f.p.Seed)
}
func (f *mirror) SetBase(o fitness.CacheFunction) { f.base = o.(*mirror) }
func (f *mirror) Cache() []fitness.CacheData      { return nil }
func (f *mirror) SetCache(c []fitness.CacheData)  { f.cache = c }

// ---- an evaluator with a hostile cache ----

// chaos follows the protocol of the parallel evaluator, but loses, keeps, duplicates and
// moves cache entries at will.
type chaos struct {
	fns  []fitness.CacheFunction
	size int
	pool []fitness.CacheData
	r    *rng
	all  []fitness.CacheData
}

func (c *chaos) Get(i int) fitness.Function { return c.fns[i] }
func (c *chaos) Prepare() {
	for i := range c.pool {
		if c.r.n(3) == 0 {
			c.pool[i] = nil
		}
	}
}
func (c *chaos) Update(i int) {
	for _, d := range c.fns[i].Cache() {
		if d == nil {
			continue
		}
		if c.r.n(4) != 0 {
			c.pool[int(d.CachedHash())%c.size] = d
		}
		if len(c.all) < 4000 {
			c.all = append(c.all, d)
		}
	}
	s := make([]fitness.CacheData, c.size)
	for j := range s {
		switch c.r.n(4) {
		case 0:
		case 1:
			if len(c.all) > 0 {
				s[j] = c.all[c.r.n(len(c.all))]
			}
		default:
			s[j] = c.pool[j]
		}
	}
	c.fns[i].SetCache(s)
}
func (c *chaos) SetBase(i, b int) { c.fns[i].SetBase(c.fns[b]) }
func (c *chaos) Swap(i, j int)    { c.fns[i], c.fns[j] = c.fns[j], c.fns[i] }

// ---- construction ----

// functions returns n fresh fitness functions of the trial's kind.
func functions(p *Params, im *picture, n int) []fitness.CacheFunction {
	switch p.Eval {
	case 0:
		return fitness.TrianglesImageFunctions(im, p.Block, n)
	case 1:
		return fitness.PolygonsImageFunctions(im, p.Block, n)
	}
	fns := make([]fitness.CacheFunction, n)
	for i := range fns {
		fns[i] = &mirror{p: p}
	}
	return fns
}

func newEvaluator(p *Params, im *picture, n int) evaluator.Evaluator {
	switch p.Wrap {
	case 1:
		return evaluator.NewMany(func() fitness.Function { return &pure{p} }, n)
	case 2:
		return evaluator.NewOne(&pure{p})
	case 3:
		size := 1 << p.Cache
		return &chaos{fns: functions(p, im, n), size: size, pool: make([]fitness.CacheData, size), r: newRng(mix64(p.Seed, 91))}
	}
	return evaluator.NewParallel(functions(p, im, n), p.Cache)
}

func newMutator(p *Params) mutation.Method {
	rate, amount := float64(p.Rate)/100, float64(p.Amount)/100
	switch p.Mut {
	case 0:
		return mutation.NewGaussianMethod(rate, amount)
	case 1:
		return mutation.NewRandomMethod(rate, amount)
	case 3:
		return mutation.DefaultGaussianMethod(p.Points)
	}
	return &ownMutator{r: newRng(mix64(p.Seed, 47)), rate: rate, kinds: p.MutKinds}
}

// world is one optimiser with everything around it.
type world struct {
	t    *Trial
	p    *Params
	im   *picture
	algo algorithm.Algorithm
	pr   *probe

	asked *scribe
}

// newWorld seeds the random sources and builds the optimiser. wrap, if set, surrounds the
// evaluator.
func newWorld(t *Trial, p *Params, wrap func(w *world, e evaluator.Evaluator) evaluator.Evaluator) *world {
	w := &world{t: t, p: p}
	w.im, _ = converted(p)
	random.Seed(int64(mix64(p.Seed, 3) >> 1))
	r := newRng(mix64(p.Seed, 11))
	factory := func() normgeom.NormPointGroup {
		if p.Gen == 7 {
			return halfway(p, r)
		}
		return makePoints(p.Gen, p.Points, r)
	}
	evals := func(n int) evaluator.Evaluator {
		e := newEvaluator(p, w.im, n)
		if wrap != nil {
			e = wrap(w, e)
		}
		return e
	}
	w.asked = &scribe{Method: newMutator(p), on: p.Prop == "C05"}
	w.algo = build(p, factory, evals, w.asked)
	return w
}

func build(p *Params, factory func() normgeom.NormPointGroup, evals func(n int) evaluator.Evaluator, m mutation.Method) algorithm.Algorithm {
	poolTrouble(p)
	if p.Algo == 0 {
		return algorithm.NewModifiedGenetic(factory, p.Size, p.Cutoff, evals, m)
	}
	return algorithm.NewSimple(factory, p.Size, p.Cutoff, evals, m)
}

// poolTrouble is another part of the program closing the shared worker pool.
func poolTrouble(p *Params) {
	switch p.PoolOff {
	case 1:
		ants.Release()
	case 2, 3:
		r := newRng(mix64(p.Seed, 1301))
		vsim.Spawn(func() {
			for i := 0; i < 3; i++ {
				for n := r.n(r.pick(100, 3_000, 60_000)); n > 0; n-- {
					vsim.Y()
				}
				ants.Release()
				if p.PoolOff == 2 {
					return
				}
				ants.Reboot()
			}
		})
	}
}

func hashPoints(g normgeom.NormPointGroup) uint64 {
	h := uint64(len(g))
	for _, p := range g {
		h = mix64(h^math.Float64bits(p.X), math.Float64bits(p.Y))
	}
	return h
}

func samePoints(a, b normgeom.NormPointGroup) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// point is the trajectory entry after a step.
type point struct {
	Best uint64
	Fit  uint64
	Gen  int
}

func (w *world) at() point {
	s := w.algo.Stats()
	return point{hashPoints(w.algo.Best()), math.Float64bits(s.BestFitness), s.Generation}
}
