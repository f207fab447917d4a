// Package trace is the simulated counterpart of runtime/trace: a stub tracer writes
// deterministic bytes from its own goroutine while tracing is on, as the real one does.
package trace

import (
	"fmt"
	"io"

	"verifsim/vsim"
)

func Start(w io.Writer) error {
	vsim.SyncPoint()
	if vsim.Tracer.Running {
		return fmt.Errorf("tracing is already enabled")
	}
	if vsim.Draw(vsim.DrawUser1, 2) == 1 {
		return fmt.Errorf("tracing cannot start")
	}
	vsim.Tracer.Begin(w)
	return nil
}

func Stop()           { vsim.Tracer.End() }
func IsEnabled() bool { return vsim.Tracer.Running }
