// Package runtime is the simulated counterpart of the standard package.
package runtime

import (
	real "runtime"

	"verifsim/vsim"
)

func Gosched() { vsim.Gosched() }
func GC()      { vsim.SyncPoint() }
func NumGoroutine() int {
	return vsim.LiveTasks()
}
func GOMAXPROCS(n int) int { return vsim.SimCPUs }
func NumCPU() int          { return vsim.SimCPUs }
func ReadMemStats(m *MemStats) {
	*m = MemStats{Alloc: 8 << 20, TotalAlloc: 16 << 20, Sys: 32 << 20, NumGC: 3, PauseTotalNs: 1000}
}
func LockOSThread()             {}
func UnlockOSThread()           {}
func SetFinalizer(obj, fin any) {}
func Goexit()                   { real.Goexit() }
