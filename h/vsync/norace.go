//go:build !race

package vsync

// Race tells whether the race detector is on.
const Race = false

func raceAcquire(p *byte)      {}
func raceRelease(p *byte)      {}
func raceReleaseMerge(p *byte) {}
func raceDisable()             {}
func raceEnable()              {}

// RaceErrors returns number of found data races.
func RaceErrors() int { return 0 }

// RaceRead marks that the bytes are read by this thread.
func RaceRead(p []byte) {}

// RaceWrite marks that the bytes are written by this thread.
func RaceWrite(p []byte) {}
