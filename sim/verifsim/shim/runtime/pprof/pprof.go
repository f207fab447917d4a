// Package pprof is the simulated counterpart of runtime/pprof: the CPU profiler is a stub
// that produces deterministic bytes the way the real one does (at the end, ignoring errors).
package pprof

import (
	"fmt"
	"io"

	"verifsim/vsim"
)

func StartCPUProfile(w io.Writer) error {
	vsim.SyncPoint()
	if vsim.CPU.Running {
		return fmt.Errorf("cpu profiling already in use")
	}
	if vsim.Draw(vsim.DrawUser1, 2) == 1 {
		return fmt.Errorf("cpu profiling cannot start")
	}
	vsim.CPU.Begin(w)
	return nil
}

func StopCPUProfile() { vsim.CPU.End() }
