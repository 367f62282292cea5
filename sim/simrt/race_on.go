//go:build race

package simrt

import "runtime"

// RaceBuild reports whether the race detector is compiled in.
const RaceBuild = true

func raceOff() { runtime.RaceDisable() }
func raceOn()  { runtime.RaceEnable() }
