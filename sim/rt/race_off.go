//go:build !race

package rt

// RaceBuild tells whether the race detector watches this run.
const RaceBuild = false

func raceOff()        {}
func raceOn()         {}
func RaceErrors() int { return 0 }
