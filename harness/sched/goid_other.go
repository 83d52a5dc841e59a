//go:build !amd64

package sched

import "runtime"

// goid tells goroutines apart.
//
//go:norace
func goid() int64 {
	var b [40]byte
	n := runtime.Stack(b[:], false)
	var id int64
	for i := len("goroutine "); i < n && b[i] >= '0' && b[i] <= '9'; i++ {
		id = id*10 + int64(b[i]-'0')
	}
	return id
}
