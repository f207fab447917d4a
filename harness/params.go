package main

import "verifsim/vsim"

// genWorld draws the parameters of an optimisation.
func genWorld(p *Params, r *rng) {
	p.Algo = r.n(2)
	p.Eval = r.pick(0, 0, 0, 1, 1, 2)
	if p.Eval == 2 {
		p.Wrap = r.pick(0, 0, 1, 2, 3)
	} else {
		p.Wrap = r.pick(0, 0, 0, 3)
	}
	p.Cutoff = r.pick(1, 1, 2, 2, 3, 4, 5)
	p.Size = 2*p.Cutoff + r.in(0, 9)
	if p.Algo == 1 && r.chance(40) {
		p.Size = p.Cutoff + r.in(0, 8)
	}
	p.Points = r.pick(1, 2, 3, 4, 5, 6, 8, 10, 12, 16, 20)
	p.W, p.H = r.in(9, 70), r.in(9, 70)
	if r.chance(15) {
		p.W, p.H = r.in(70, 160), r.in(20, 120)
	}
	p.Block = r.pick(1, 2, 3, 3, 5, 5)
	p.Cache = r.pick(1, 1, 2, 3, 4, 6, 8, 10, 12)
	p.Steps = r.in(2, 7)
	p.Mut = r.pick(0, 0, 1, 2, 2, 2, 3)
	p.MutKinds = r.n(2)
	p.Rate = r.pick(5, 10, 20, 30, 50, 100)
	p.Amount = r.pick(1, 5, 10, 30, 100, 200)
	p.Gen = r.pick(0, 0, 0, 0, 1, 1, 3, 5, 2)
	p.Img = r.pick(0, 1, 2, 2, 4, 4, 3)
	if r.chance(5) {
		genBig(p, r)
	} else if r.chance(4) { // images smaller than a block
		p.W, p.H = r.in(1, 8), r.in(1, 8)
	}
	genSchedule(p, r)
}

// genBig makes one dimension of the optimisation much larger than usual.
func genBig(p *Params, r *rng) {
	switch r.n(4) {
	case 0: // points
		p.Points = r.pick(33, 40, 65, 90, 130)
		p.Cutoff = r.pick(1, 1, 2)
		p.Size = 2*p.Cutoff + r.in(1, 4)
		p.Steps = r.in(1, 4)
		p.Rate = r.pick(1, 5, 10, 30)
		if r.chance(15) { // hundreds at the same place
			p.Points = r.pick(270, 600, 1100)
			p.W, p.H = r.in(1, 3), r.in(1, 3)
			p.Size, p.Steps = p.Cutoff+r.in(1, 2)+p.Cutoff*(1-p.Algo), r.in(1, 3)
		}
	case 1: // members
		p.Eval = 2
		p.Wrap = r.pick(0, 0, 1, 2)
		p.Points = r.pick(1, 2, 3, 5)
		p.Cutoff = r.pick(1, 6, 8, 12, 17)
		p.Size = 2*p.Cutoff + r.in(0, 40)
		p.Steps = r.in(1, 4)
	case 2: // steps
		p.Points = r.pick(3, 5, 8)
		p.Cutoff = r.pick(1, 1, 2)
		p.Size = 2*p.Cutoff + r.in(1, 3)
		p.Steps = r.in(12, 40)
		if r.chance(12) {
			genLong(p, r)
		}
	case 3: // image
		p.W, p.H = r.pick(r.in(9, 60), r.in(100, 500)), r.pick(r.in(9, 60), r.in(100, 500))
		p.Points = r.pick(3, 6, 10)
		p.Cutoff = 1
		p.Size = r.in(2, 5)
		p.Steps = r.in(1, 3)
		if r.chance(10) { // as long as images may be
			p.W, p.H = r.pick(2_500, 5_000, 8_000), r.in(5, 12)
			if r.chance(50) {
				p.W, p.H = p.H, p.W
			}
			p.Block = r.pick(1, 3)
		}
	}
}

// genLong makes the history very long and everything else small.
func genLong(p *Params, r *rng) {
	p.Steps = r.pick(70, 130, 260, 270, 520)
	p.Points = r.pick(1, 2, 3, 4)
	p.Cutoff = r.pick(1, 1, 2, 3)
	p.Size = 2*p.Cutoff + r.in(0, 2)
	p.W, p.H = r.in(5, 16), r.in(5, 16)
	p.Block = r.pick(1, 3)
	p.Cache = r.pick(1, 2, 6)
}

// genCheap uses a synthetic fitness most of the time, for properties that do not depend on what it is.
func genCheap(p *Params, r *rng) {
	if p.Eval != 2 && r.chance(60) {
		p.Eval = 2
		p.Wrap = r.pick(0, 0, 1, 2, 3)
	}
	if p.Eval == 2 && r.chance(10) {
		p.Points = r.pick(17, 33, 64, 65, 70, 90, 130, 200)
		p.Rate = r.pick(1, 2, 5, 10, 30, 100)
	}
}

// genSchedule draws the scheduling parameters.
func genSchedule(p *Params, r *rng) {
	p.Policy = r.pick(int(vsim.PolicyRandom), int(vsim.PolicyRandom), int(vsim.PolicyRandom), int(vsim.PolicyPriority),
		int(vsim.PolicyPriority), int(vsim.PolicySync), int(vsim.PolicyShuffle), int(vsim.PolicyNewest))
	p.Gap = r.pick(3, 10, 30, 100, 300, 1000, 5000, 30000)
	p.Changes = r.in(1, 12)
	p.Est = r.pick(3_000, 30_000, 300_000, 1_000_000)
	if r.chance(30) {
		p.Stall = r.pick(20, 100, 300)
		p.StallLen = r.pick(1_000, 30_000, 300_000)
	}
	p.CPUs = r.pick(1, 2, 4, 8, 64)
	p.Tick = r.pick(1, 20, 20, 300, 5000)
}

// genRand lets the random sources produce extreme values.
func genRand(p *Params, r *rng) {
	if r.chance(25) {
		p.Faults[vsim.DrawRand] = r.pick(1_000, 20_000, 200_000)
	}
}

func genMisc(p *Params, r *rng) {
	if r.chance(40) {
		p.Faults[vsim.DrawPool] = r.pick(50_000, 500_000)
	}
	if r.chance(40) {
		p.Faults[vsim.DrawClock] = r.pick(20_000, 300_000)
	}
	p.Faults[vsim.DrawSelect] = 300_000
	p.Faults[vsim.DrawWake] = r.pick(0, 0, 300_000)
	p.Faults[vsim.DrawMap] = 300_000
	if r.chance(8) {
		p.PoolOff = r.pick(1, 1, 2, 3)
	}
}

// genSlow draws how slow slow evaluations are.
func genSlow(p *Params, r *rng, max int) {
	if p.Slow == 0 || r.chance(70) {
		return
	}
	p.SlowMax = r.pick(1_000_000, 90_000_000_000, 2_000_000_000_000)
	if r.chance(4) {
		p.SlowMax = max
	}
}
