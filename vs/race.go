//go:build race

package vs

import "runtime"

// Race reports whether the race detector is on.
const Race = true

// The scheduler's own hand-overs must not order the threads for the race detector.
func raceOff() { runtime.RaceDisable() }
func raceOn()  { runtime.RaceEnable() }
