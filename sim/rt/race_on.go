//go:build race

package rt

import "runtime"

// RaceBuild tells whether the race detector watches this run.
const RaceBuild = true

func raceOff()        { runtime.RaceDisable() }
func raceOn()         { runtime.RaceEnable() }
func RaceErrors() int { return runtime.RaceErrors() }
