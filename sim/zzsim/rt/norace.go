//go:build !race

package rt

import "unsafe"

const RaceEnabled = false

func raceDisable()                      {}
func raceEnable()                       {}
func raceAcquire(p unsafe.Pointer)      {}
func raceReleaseMerge(p unsafe.Pointer) {}
func Acquire(p unsafe.Pointer)          {}
func Release(p unsafe.Pointer)          {}
func ReleaseMerge(p unsafe.Pointer)     {}
func RaceErrors() int                   { return 0 }
