//go:build !race

package vsim

import "unsafe"

// RaceMode reports whether the race detector is compiled in.
const RaceMode = false

func raceOff()                     {}
func raceOn()                      {}
func RaceAcquire(p unsafe.Pointer) {}
func RaceRelease(p unsafe.Pointer) {}

// RaceErrors is the number of races found so far in this process.
func RaceErrors() int { return 0 }
