//go:build race

package rt

import (
	"runtime"
	"unsafe"
)

// RaceBuild tells whether this binary carries the race detector.
const RaceBuild = true

//go:norace
func raceAcquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }

//go:norace
func raceRelease(p unsafe.Pointer) { runtime.RaceRelease(p) }

//go:norace
func raceReleaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }

//go:norace
func raceDisable() { runtime.RaceDisable() }

//go:norace
func raceEnable() { runtime.RaceEnable() }

// RaceErrors is the number of data races reported so far.
func RaceErrors() int { return runtime.RaceErrors() }
