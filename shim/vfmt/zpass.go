// Code generated by tools/genpass; DO NOT EDIT.

package vfmt

import "fmt"

var Append = fmt.Append
var Appendf = fmt.Appendf
var Appendln = fmt.Appendln
var Errorf = fmt.Errorf
var FormatString = fmt.FormatString

type Formatter = fmt.Formatter

var Fprint = fmt.Fprint
var Fprintf = fmt.Fprintf
var Fprintln = fmt.Fprintln
var Fscan = fmt.Fscan
var Fscanf = fmt.Fscanf
var Fscanln = fmt.Fscanln

type GoStringer = fmt.GoStringer

var Scan = fmt.Scan

type ScanState = fmt.ScanState

var Scanf = fmt.Scanf
var Scanln = fmt.Scanln

type Scanner = fmt.Scanner

var Sprint = fmt.Sprint
var Sprintf = fmt.Sprintf
var Sprintln = fmt.Sprintln
var Sscan = fmt.Sscan
var Sscanf = fmt.Sscanf
var Sscanln = fmt.Sscanln

type State = fmt.State
type Stringer = fmt.Stringer
