// Code generated by vtool alias. DO NOT EDIT.

package pprof

import real "runtime/pprof"

type LabelSet = real.LabelSet
type Profile = real.Profile

var Do = real.Do
var ForLabels = real.ForLabels
var Label = real.Label
var Labels = real.Labels
var Lookup = real.Lookup
var NewProfile = real.NewProfile
var Profiles = real.Profiles
var SetGoroutineLabels = real.SetGoroutineLabels
var WithLabels = real.WithLabels
var WriteHeapProfile = real.WriteHeapProfile
