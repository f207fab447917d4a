package main

// rng is the generator of trial parameters and harness-side inputs.
type rng struct{ s uint64 }

func newRng(seed uint64) *rng { return &rng{seed} }

func (r *rng) next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *rng) n(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.next() % uint64(n))
}

// in returns a value between lo and hi inclusive.
func (r *rng) in(lo, hi int) int { return lo + r.n(hi-lo+1) }

func (r *rng) f() float64 { return float64(r.next()>>11) / (1 << 53) }

func (r *rng) chance(percent int) bool { return r.n(100) < percent }

func (r *rng) pick(v ...int) int { return v[r.n(len(v))] }
