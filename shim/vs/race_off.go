//go:build !race

package vs

import "unsafe"

const RaceEnabled = false

func raceDisable()                      {}
func raceEnable()                       {}
func RaceAcquire(p unsafe.Pointer)      {}
func RaceRelease(p unsafe.Pointer)      {}
func RaceReleaseMerge(p unsafe.Pointer) {}
func RaceWriteRange(b []byte)           {}
func RaceReadRange(b []byte)            {}
func RaceErrors() int                   { return 0 }
