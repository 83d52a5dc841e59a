//go:build race

package sched

import "runtime"

// RaceBuild tells that data races are monitored.
const RaceBuild = true

func raceOff()        { runtime.RaceDisable() }
func raceOn()         { runtime.RaceEnable() }
func RaceErrors() int { return runtime.RaceErrors() }
