//go:build !race

package simrt

// RaceBuild reports whether the race detector is compiled in.
const RaceBuild = false

func raceOff() {}
func raceOn()  {}
