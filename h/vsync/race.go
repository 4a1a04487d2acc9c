//go:build race

package vsync

import (
	"runtime"
	"unsafe"
)

// Race tells whether the race detector is on.
const Race = true

func raceAcquire(p *byte)      { runtime.RaceAcquire(unsafe.Pointer(p)) }
func raceRelease(p *byte)      { runtime.RaceRelease(unsafe.Pointer(p)) }
func raceReleaseMerge(p *byte) { runtime.RaceReleaseMerge(unsafe.Pointer(p)) }
func raceDisable()             { runtime.RaceDisable() }
func raceEnable()              { runtime.RaceEnable() }

// RaceErrors returns number of found data races.
func RaceErrors() int { return runtime.RaceErrors() }

// RaceRead marks that the bytes are read by this thread.
func RaceRead(p []byte) {
	if len(p) > 0 {
		runtime.RaceReadRange(unsafe.Pointer(&p[0]), len(p))
	}
}

// RaceWrite marks that the bytes are written by this thread.
func RaceWrite(p []byte) {
	if len(p) > 0 {
		runtime.RaceWriteRange(unsafe.Pointer(&p[0]), len(p))
	}
}
