//go:build race

package vsim

import (
	"runtime"
	"unsafe"
)

// RaceMode reports whether the race detector is compiled in.
const RaceMode = true

//go:norace
func raceOff() { runtime.RaceDisable() }

//go:norace
func raceOn() { runtime.RaceEnable() }

// RaceAcquire and RaceRelease tell the race detector about synchronisation that the
// program under simulation performs through emulated primitives.
//
//go:norace
func RaceAcquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }

//go:norace
func RaceRelease(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }

// RaceErrors is the number of races found so far in this process.
func RaceErrors() int { return runtime.RaceErrors() }
