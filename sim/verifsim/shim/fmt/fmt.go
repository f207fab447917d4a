// Package fmt is the simulated counterpart of the standard package: terminal output is captured.
package fmt

import (
	real "fmt"

	"verifsim/vsim"
)

func out(s string) (int, error) { return vsim.Output(1, []byte(s)) }

func Print(a ...any) (int, error)                 { return out(real.Sprint(a...)) }
func Printf(format string, a ...any) (int, error) { return out(real.Sprintf(format, a...)) }
func Println(a ...any) (int, error)               { return out(real.Sprintln(a...)) }
