// Package rand is the simulated counterpart of math/rand: a seeded source that now and then
// returns the extreme values its functions allow.
package rand

import (
	"math"
	real "math/rand"
	"unsafe"

	"verifsim/vsim"
)

// Rand wraps the standard generator.
type Rand struct{ r *real.Rand }

var global = New(real.NewSource(1))

func init() {
	vsim.RegisterInit("math/rand", func() { global = New(real.NewSource(int64(vsim.WorldSeed))) })
}

var seq byte

// lock and unlock stand for the standard library's own protection of the global source.
func lock()   { vsim.RaceAcquire(unsafe.Pointer(&seq)) }
func unlock() { vsim.RaceRelease(unsafe.Pointer(&seq)) }

func ext() int64 { return vsim.Draw(vsim.DrawRand, 3) }

func New(src Source) *Rand { return &Rand{real.New(src)} }

func (r *Rand) Seed(s int64) { r.r.Seed(s) }
func (r *Rand) Int63() int64 {
	v := r.r.Int63()
	switch ext() {
	case 1:
		return 0
	case 2:
		return math.MaxInt64
	}
	return v
}
func (r *Rand) Uint32() uint32 { return uint32(r.Int63() >> 31) }
func (r *Rand) Uint64() uint64 { return uint64(r.Int63())>>31 | uint64(r.Int63())<<32 }
func (r *Rand) Int31() int32   { return int32(r.Int63() >> 32) }
func (r *Rand) Int() int       { return int(r.Int63()) }
func bound(v, n int64) int64 {
	switch ext() {
	case 1:
		return 0
	case 2:
		return n - 1
	}
	return v
}
func (r *Rand) Int63n(n int64) int64 { return bound(r.r.Int63n(n), n) }
func (r *Rand) Int31n(n int32) int32 { return int32(bound(int64(r.r.Int31n(n)), int64(n))) }
func (r *Rand) Intn(n int) int       { return int(bound(int64(r.r.Intn(n)), int64(n))) }
func (r *Rand) Float64() float64 {
	v := r.r.Float64()
	switch ext() {
	case 1:
		return 0
	case 2:
		return 1 - 1.0/(1<<53)
	}
	return v
}
func (r *Rand) Float32() float32 {
	v := r.r.Float32()
	switch ext() {
	case 1:
		return 0
	case 2:
		return 1 - 1.0/(1<<24)
	}
	return v
}
func (r *Rand) NormFloat64() float64 {
	v := r.r.NormFloat64()
	switch ext() {
	case 1:
		return -9
	case 2:
		return 9
	}
	return v
}
func (r *Rand) ExpFloat64() float64                { return r.r.ExpFloat64() }
func (r *Rand) Perm(n int) []int                   { return r.r.Perm(n) }
func (r *Rand) Shuffle(n int, swap func(i, j int)) { r.r.Shuffle(n, swap) }
func (r *Rand) Read(p []byte) (int, error)         { return r.r.Read(p) }

func Seed(s int64)                       { lock(); defer unlock(); global.Seed(s) }
func Int63() int64                       { lock(); defer unlock(); return global.Int63() }
func Uint32() uint32                     { lock(); defer unlock(); return global.Uint32() }
func Uint64() uint64                     { lock(); defer unlock(); return global.Uint64() }
func Int31() int32                       { lock(); defer unlock(); return global.Int31() }
func Int() int                           { lock(); defer unlock(); return global.Int() }
func Int63n(n int64) int64               { lock(); defer unlock(); return global.Int63n(n) }
func Int31n(n int32) int32               { lock(); defer unlock(); return global.Int31n(n) }
func Intn(n int) int                     { lock(); defer unlock(); return global.Intn(n) }
func Float64() float64                   { lock(); defer unlock(); return global.Float64() }
func Float32() float32                   { lock(); defer unlock(); return global.Float32() }
func NormFloat64() float64               { lock(); defer unlock(); return global.NormFloat64() }
func ExpFloat64() float64                { lock(); defer unlock(); return global.ExpFloat64() }
func Perm(n int) []int                   { lock(); defer unlock(); return global.Perm(n) }
func Shuffle(n int, swap func(i, j int)) { lock(); defer unlock(); global.Shuffle(n, swap) }
func Read(p []byte) (int, error)         { lock(); defer unlock(); return global.Read(p) }
func NewZipf(r *Rand, s, v float64, imax uint64) *real.Zipf {
	return real.NewZipf(r.r, s, v, imax)
}
