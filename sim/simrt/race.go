//go:build race

package simrt

import "runtime"

// RaceBuild tells whether this is a build with the race detector.
const RaceBuild = true

func raceOff() { runtime.RaceDisable() }
func raceOn()  { runtime.RaceEnable() }
