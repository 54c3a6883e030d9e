//go:build go1.23 && !race

package vs

import "unsafe"

const raceEnabled = false

func raceDisable()                  {}
func raceEnable()                   {}
func acquire(p unsafe.Pointer)      {}
func release(p unsafe.Pointer)      {}
func releaseMerge(p unsafe.Pointer) {}
func raceErrors() int               { return 0 }

// RaceEnabled reports whether this is a race build.
const RaceEnabled = false

func Acquire(p unsafe.Pointer)      {}
func Release(p unsafe.Pointer)      {}
func ReleaseMerge(p unsafe.Pointer) {}
func RaceOff()                      {}
func RaceOn()                       {}
func RaceReadBytes(b []byte)        {}
func RaceWriteBytes(b []byte)       {}
