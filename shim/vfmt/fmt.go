// Package vfmt stands in for fmt: writing to standard output is dropped.
package vfmt

import "fmt"

func Print(a ...any) (int, error)                 { return len(fmt.Sprint(a...)), nil }
func Println(a ...any) (int, error)               { return len(fmt.Sprintln(a...)), nil }
func Printf(format string, a ...any) (int, error) { return len(fmt.Sprintf(format, a...)), nil }
