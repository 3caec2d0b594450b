//go:build !race

package simrt

// RaceBuild tells whether this is a build with the race detector.
const RaceBuild = false

func raceOff() {}
func raceOn()  {}
