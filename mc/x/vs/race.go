//go:build go1.23 && race

package vs

import (
	"runtime"
	"unsafe"
)

const raceEnabled = true

func raceDisable()                  { runtime.RaceDisable() }
func raceEnable()                   { runtime.RaceEnable() }
func acquire(p unsafe.Pointer)      { runtime.RaceAcquire(p) }
func release(p unsafe.Pointer)      { runtime.RaceRelease(p) }
func releaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
func raceErrors() int               { return runtime.RaceErrors() }

// RaceEnabled reports whether this is a race build.
const RaceEnabled = true

func Acquire(p unsafe.Pointer)      { runtime.RaceAcquire(p) }
func Release(p unsafe.Pointer)      { runtime.RaceRelease(p) }
func ReleaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }

// RaceOff hides synchronisation of the current goroutine from the detector.
func RaceOff() { runtime.RaceDisable() }

// RaceOn ends RaceOff.
func RaceOn() { runtime.RaceEnable() }

// RaceReadBytes reports a read of b by the current goroutine.
func RaceReadBytes(b []byte) {
	if len(b) > 0 {
		runtime.RaceReadRange(unsafe.Pointer(&b[0]), len(b))
	}
}

// RaceWriteBytes reports a write of b by the current goroutine.
func RaceWriteBytes(b []byte) {
	if len(b) > 0 {
		runtime.RaceWriteRange(unsafe.Pointer(&b[0]), len(b))
	}
}
