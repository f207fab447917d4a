// Code generated by vtool alias. DO NOT EDIT.

package runtime

import real "runtime"

const Compiler = real.Compiler
const GOARCH = real.GOARCH
const GOOS = real.GOOS

type BlockProfileRecord = real.BlockProfileRecord
type Cleanup = real.Cleanup
type Error = real.Error
type Frame = real.Frame
type Frames = real.Frames
type Func = real.Func
type MemProfileRecord = real.MemProfileRecord
type MemStats = real.MemStats
type PanicNilError = real.PanicNilError
type Pinner = real.Pinner
type StackRecord = real.StackRecord
type TypeAssertionError = real.TypeAssertionError

var BlockProfile = real.BlockProfile
var Breakpoint = real.Breakpoint
var CPUProfile = real.CPUProfile
var Caller = real.Caller
var Callers = real.Callers
var CallersFrames = real.CallersFrames
var FuncForPC = real.FuncForPC
var GOROOT = real.GOROOT
var GoroutineProfile = real.GoroutineProfile
var KeepAlive = real.KeepAlive
var MemProfile = real.MemProfile
var MemProfileRate = real.MemProfileRate
var MutexProfile = real.MutexProfile
var NumCgoCall = real.NumCgoCall
var ReadTrace = real.ReadTrace
var SetBlockProfileRate = real.SetBlockProfileRate
var SetCPUProfileRate = real.SetCPUProfileRate
var SetCgoTraceback = real.SetCgoTraceback
var SetDefaultGOMAXPROCS = real.SetDefaultGOMAXPROCS
var SetMutexProfileFraction = real.SetMutexProfileFraction
var Stack = real.Stack
var StartTrace = real.StartTrace
var StopTrace = real.StopTrace
var ThreadCreateProfile = real.ThreadCreateProfile
var Version = real.Version
