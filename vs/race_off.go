//go:build !race

package vs

import "unsafe"

// RaceBuild tells whether the happens-before race detector is compiled in.
const RaceBuild = false

func raceDisable()                      {}
func raceEnable()                       {}
func raceAcquire(p unsafe.Pointer)      {}
func raceRelease(p unsafe.Pointer)      {}
func raceReleaseMerge(p unsafe.Pointer) {}
func raceErrors() int                   { return 0 }
func newTok() unsafe.Pointer            { return nil }
