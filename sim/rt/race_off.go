//go:build !race

package rt

import "unsafe"

// RaceBuild tells whether this binary carries the race detector.
const RaceBuild = false

func raceAcquire(p unsafe.Pointer)      {}
func raceRelease(p unsafe.Pointer)      {}
func raceReleaseMerge(p unsafe.Pointer) {}
func raceDisable()                      {}
func raceEnable()                       {}

// RaceErrors is the number of data races reported so far.
func RaceErrors() int { return 0 }
