// Code generated by tools/genpass; DO NOT EDIT.

package vlog

import "log"

var Default = log.Default
var Flags = log.Flags

const LUTC = log.LUTC
const Ldate = log.Ldate
const Llongfile = log.Llongfile
const Lmicroseconds = log.Lmicroseconds
const Lmsgprefix = log.Lmsgprefix

type Logger = log.Logger

const Lshortfile = log.Lshortfile
const LstdFlags = log.LstdFlags
const Ltime = log.Ltime

var New = log.New
var Prefix = log.Prefix
var SetFlags = log.SetFlags
var SetPrefix = log.SetPrefix
var Writer = log.Writer
