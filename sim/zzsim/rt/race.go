//go:build race

package rt

import (
	"runtime"
	"unsafe"
)

const RaceEnabled = true

//go:norace
func raceDisable() { runtime.RaceDisable() }

//go:norace
func raceEnable() { runtime.RaceEnable() }

//go:norace
func raceAcquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }

//go:norace
func raceReleaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }

// Acquire, Release annotate happens-before edges of simulated sync objects.
//
//go:norace
func Acquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }

//go:norace
func Release(p unsafe.Pointer) { runtime.RaceRelease(p) }

//go:norace
func ReleaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }

func RaceErrors() int { return runtime.RaceErrors() }
