//go:build !race

package vs

// Race reports whether the race detector is on.
const Race = false

func raceOff() {}
func raceOn()  {}
