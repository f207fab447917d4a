// Code generated by vtool alias. DO NOT EDIT.

package fmt

import real "fmt"

type Formatter = real.Formatter
type GoStringer = real.GoStringer
type ScanState = real.ScanState
type Scanner = real.Scanner
type State = real.State
type Stringer = real.Stringer

var Append = real.Append
var Appendf = real.Appendf
var Appendln = real.Appendln
var Errorf = real.Errorf
var FormatString = real.FormatString
var Fprint = real.Fprint
var Fprintf = real.Fprintf
var Fprintln = real.Fprintln
var Fscan = real.Fscan
var Fscanf = real.Fscanf
var Fscanln = real.Fscanln
var Scan = real.Scan
var Scanf = real.Scanf
var Scanln = real.Scanln
var Sprint = real.Sprint
var Sprintf = real.Sprintf
var Sprintln = real.Sprintln
var Sscan = real.Sscan
var Sscanf = real.Sscanf
var Sscanln = real.Sscanln
