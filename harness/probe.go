package main

import (
	"math"
	"reflect"

	"github.com/RH12503/Triangula/algorithm/evaluator"
	"github.com/RH12503/Triangula/fitness"
	"github.com/RH12503/Triangula/mutation"
	"github.com/RH12503/Triangula/normgeom"
)

// eval is one evaluation as seen by the evaluator's fitness function.
type eval struct {
	slot    int
	fn      int // identity of the fitness function, -1 if it has none
	base    int // slot given to SetBase in this generation, -1 if none
	setSeq  int // when SetBase was called
	pts     normgeom.NormPointGroup
	muts    []mutation.Mutation
	raw     float64 // as the function returned it
	fit     float64 // as the algorithm got it
	start   int     // sequence numbers
	end     int     // 0: not finished
	updates int
	updSeq  int
	combo   bool
}

// genRec is one generation.
type genRec struct {
	n        int
	evals    []*eval
	base     map[int]int
	baseSeq  map[int]int
	basePts  map[int]normgeom.NormPointGroup // what the base's function last evaluated
	prepares []int
	firstRun int
	running  int
	swaps    int
	updates  int
	late     map[int]bool // SetBase was called in the second phase
}

// bySlot returns the last evaluation of a slot.
func (g *genRec) bySlot(s int) *eval {
	for i := len(g.evals) - 1; i >= 0; i-- {
		if g.evals[i].slot == s {
			return g.evals[i]
		}
	}
	return nil
}

// probe surrounds an evaluator and records what the algorithm does with it.
type probe struct {
	t      *Trial
	p      *Params
	inner  evaluator.Evaluator
	n      int
	gens   []*genRec
	cur    *genRec
	seq    int
	ids    map[any]int
	last   map[int]normgeom.NormPointGroup // by function identity
	moving bool                            // functions move with the members
	strict bool                            // report protocol errors (C08)

	onBegin func(e *eval)
	onEnd   func(e *eval)
	onBase  func(i, base int)
}

func newProbe(t *Trial, p *Params, inner evaluator.Evaluator, n int) *probe {
	pr := &probe{t: t, p: p, inner: inner, n: n, ids: map[any]int{}, last: map[int]normgeom.NormPointGroup{},
		moving: p.Wrap == 0 || p.Wrap == 3}
	pr.next()
	return pr
}

// next starts the record of a generation.
func (pr *probe) next() {
	pr.cur = &genRec{n: len(pr.gens), base: map[int]int{}, baseSeq: map[int]int{}, basePts: map[int]normgeom.NormPointGroup{}, late: map[int]bool{}}
	pr.gens = append(pr.gens, pr.cur)
}

func (pr *probe) tick() int { pr.seq++; return pr.seq }

// secondPhase returns whether the generation's members that are not combinations have been
// evaluated.
func (pr *probe) secondPhase() bool {
	if pr.cur.updates > 0 {
		return true
	}
	n := pr.p.Size
	if pr.p.Algo == 0 {
		n -= pr.p.Cutoff
	}
	return pr.cur.running == 0 && len(pr.cur.evals) >= n
}

func (pr *probe) id(f fitness.Function) int {
	if !pr.moving || f == nil || reflect.TypeOf(f).Kind() != reflect.Ptr {
		return -1
	}
	k, ok := pr.ids[f]
	if !ok {
		k = len(pr.ids)
		pr.ids[f] = k
	}
	return k
}

func (pr *probe) runningFn(fn int) *eval {
	if fn < 0 {
		return nil
	}
	for _, e := range pr.cur.evals {
		if e.fn == fn && e.end == 0 {
			return e
		}
	}
	return nil
}

func (pr *probe) runningSlot(s int) *eval {
	for _, e := range pr.cur.evals {
		if e.slot == s && e.end == 0 {
			return e
		}
	}
	return nil
}

func (pr *probe) proto(class, format string, a ...any) {
	if pr.strict {
		pr.t.fail(class, format, a...)
	}
}

func (pr *probe) Get(i int) fitness.Function {
	return &probeFn{pr: pr, slot: i, inner: pr.inner.Get(i)}
}

func (pr *probe) Prepare() {
	pr.cur.prepares = append(pr.cur.prepares, pr.tick())
	pr.inner.Prepare()
}

func (pr *probe) Update(i int) {
	e := pr.cur.bySlot(i)
	switch {
	case e == nil:
		pr.proto("update-unevaluated", "generation %d: Update(%d) for a member that was not evaluated", pr.cur.n, i)
	case e.end == 0:
		pr.proto("update-running", "generation %d: Update(%d) while its evaluation is running", pr.cur.n, i)
	case len(pr.cur.prepares) == 0:
		pr.proto("update-before-prepare", "generation %d: Update(%d) before Prepare", pr.cur.n, i)
	}
	pr.cur.updates++
	if e != nil {
		e.updates++
		e.updSeq = pr.tick()
	}
	pr.inner.Update(i)
}

func (pr *probe) SetBase(i, base int) {
	if pr.runningSlot(i) != nil {
		pr.proto("setbase-running", "generation %d: SetBase(%d, %d) while member %d is being evaluated", pr.cur.n, i, base, i)
	}
	if pr.runningSlot(base) != nil {
		pr.proto("setbase-base-running", "generation %d: SetBase(%d, %d) while its base is being evaluated", pr.cur.n, i, base)
	}
	if _, ok := pr.cur.base[i]; ok {
		pr.proto("setbase-twice", "generation %d: SetBase(%d) called twice", pr.cur.n, i)
	}
	pr.cur.base[i] = base
	pr.cur.late[i] = pr.secondPhase()
	pr.cur.baseSeq[i] = pr.tick()
	if pr.moving {
		pr.cur.basePts[i] = pr.last[pr.id(pr.inner.Get(base))]
	}
	if pr.onBase != nil {
		pr.onBase(i, base)
	}
	pr.inner.SetBase(i, base)
}

func (pr *probe) Swap(i, j int) {
	pr.cur.swaps++
	if pr.cur.running > 0 {
		pr.proto("swap-running", "generation %d: Swap(%d, %d) while evaluations are running", pr.cur.n, i, j)
	}
	pr.inner.Swap(i, j)
}

type probeFn struct {
	pr    *probe
	slot  int
	inner fitness.Function
}

func (f *probeFn) Calculate(d fitness.PointsData) float64 {
	pr := f.pr
	g := pr.cur
	e := &eval{slot: f.slot, fn: pr.id(f.inner), base: -1, pts: d.Points.Copy(), muts: append([]mutation.Mutation(nil), d.Mutations...)}
	if b, ok := g.base[f.slot]; ok {
		e.base, e.setSeq = b, g.baseSeq[f.slot]
		e.combo = g.late[f.slot]
	}
	if o := pr.runningFn(e.fn); o != nil {
		pr.proto("overlap", "generation %d: two evaluations of the same fitness function overlap (members %d and %d)", g.n, o.slot, f.slot)
	}
	if pr.strict {
		if o := g.bySlot(f.slot); o != nil {
			pr.proto("evaluated-twice", "generation %d: member %d is evaluated twice", g.n, f.slot)
		}
		if e.fn >= 0 && g.n > 0 {
			if e.base >= 0 {
				if bp, ok := g.basePts[f.slot]; ok && !samePoints(applyMuts(bp, e.muts), e.pts) {
					pr.proto("function-moved", "generation %d: member %d is evaluated with a base function that did not evaluate its parent", g.n, f.slot)
				}
			} else if lp, ok := pr.last[e.fn]; ok && !samePoints(lp, e.pts) {
				pr.proto("function-moved", "generation %d: member %d is re-evaluated by a function that last evaluated other points", g.n, f.slot)
			}
		}
	}
	e.start = pr.tick()
	if g.firstRun == 0 {
		g.firstRun = e.start
	}
	g.evals = append(g.evals, e)
	g.running++
	if pr.onBegin != nil {
		pr.onBegin(e)
	}
	e.raw = f.inner.Calculate(d)
	e.fit = scaleFit(pr.p.Scale, e.raw)
	if !samePoints(e.pts, d.Points) {
		pr.proto("changed-meanwhile", "generation %d: the points of member %d changed during its evaluation", g.n, f.slot)
	}
	if e.fn >= 0 {
		pr.last[e.fn] = e.pts
	}
	if pr.onEnd != nil {
		pr.onEnd(e)
	}
	g.running--
	e.end = pr.tick()
	return e.fit
}

func applyMuts(g normgeom.NormPointGroup, muts []mutation.Mutation) normgeom.NormPointGroup {
	r := g.Copy()
	for _, m := range muts {
		if m.Index >= 0 && m.Index < len(r) {
			r[m.Index] = m.New
		}
	}
	return r
}

// scaleFit moves fitnesses to other scales.
func scaleFit(k int, v float64) float64 {
	switch k {
	case 1:
		return v - 1
	case 2:
		return 0
	case 3:
		return -v
	case 4:
		return math.Floor(v*16) / 16
	case 5:
		return v * 1e6
	case 6:
		return v*1e-9 - 3
	case 7:
		return -1
	case 8:
		return math.Floor(v*4)/4 - 2
	}
	return v
}
