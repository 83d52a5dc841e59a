package sched

func getg() int64

// goid tells goroutines apart.
//
//go:norace
func goid() int64 { return getg() }
