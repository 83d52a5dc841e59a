//go:build !race

package sched

// RaceBuild tells that data races are monitored.
const RaceBuild = false

func raceOff()        {}
func raceOn()         {}
func RaceErrors() int { return 0 }
