// Code generated by vtool alias. DO NOT EDIT.

package trace

import real "runtime/trace"

type FlightRecorder = real.FlightRecorder
type FlightRecorderConfig = real.FlightRecorderConfig
type Region = real.Region
type Task = real.Task

var Log = real.Log
var Logf = real.Logf
var NewFlightRecorder = real.NewFlightRecorder
var NewTask = real.NewTask
var StartRegion = real.StartRegion
var WithRegion = real.WithRegion
