//go:build race

package vs

import (
	"runtime"
	"unsafe"
)

// RaceBuild tells whether the happens-before race detector is compiled in.
const RaceBuild = true

func raceDisable() { runtime.RaceDisable() }
func raceEnable()  { runtime.RaceEnable() }
func raceAcquire(p unsafe.Pointer) {
	if p != nil {
		runtime.RaceAcquire(p)
	}
}
func raceRelease(p unsafe.Pointer)      { runtime.RaceRelease(p) }
func raceReleaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
func raceErrors() int                   { return runtime.RaceErrors() }
func newTok() unsafe.Pointer            { return unsafe.Pointer(new([2]int64)) }
