// Package vlog stands in for log: printing is dropped, Fatal and Panic end the
// execution visibly.
package vlog

import (
	"fmt"
	"io"
)

// FatalError is what Fatal panics with instead of ending the process.
type FatalError struct{ Msg string }

func (e FatalError) Error() string { return "log.Fatal: " + e.Msg }

func Print(v ...any)                 {}
func Printf(format string, v ...any) {}
func Println(v ...any)               {}
func Output(calldepth int, s string) error {
	return nil
}
func Fatal(v ...any)                 { panic(FatalError{fmt.Sprint(v...)}) }
func Fatalf(format string, v ...any) { panic(FatalError{fmt.Sprintf(format, v...)}) }
func Fatalln(v ...any)               { panic(FatalError{fmt.Sprintln(v...)}) }
func Panic(v ...any)                 { panic(fmt.Sprint(v...)) }
func Panicf(format string, v ...any) { panic(fmt.Sprintf(format, v...)) }
func Panicln(v ...any)               { panic(fmt.Sprintln(v...)) }
func SetOutput(w io.Writer)          {}
