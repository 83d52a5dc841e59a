// Package sched runs a handful of goroutines one at a time, passing control only at the points the
// instrumented code announces, so that every interleaving up to a preemption bound can be enumerated.
//
// The hand-over is hidden from the race detector: what it reports is what the code under test does not order itself.
package sched

import (
	"fmt"
	"time"
)

// Max is the largest number of threads.
const Max = 4

// MaxSteps bounds the points of one execution.
const MaxSteps = 1 << 16

const (
	ready = iota
	blocked
	finished
)

// Step is one point of an execution: who could run, who did.
type Step struct {
	Cur    int8 // who was running (-1: nobody)
	Chosen int8
	Ready  uint8 // bit set
}

var st struct {
	active  bool
	n       int
	cur     int
	goid    [Max]int64
	state   [Max]int
	on      [Max]uintptr // what a blocked thread waits for
	resume  [Max]chan struct{}
	plan    []int8
	steps   [MaxSteps]Step
	nsteps  int
	dead    bool
	free    bool // the controller has given up control
	over    bool // more points than MaxSteps
	diverge bool
	panics  [Max]string
	done    chan int
}

//go:norace
func me() int {
	g := goid()
	for i := 0; i < st.n; i++ {
		if st.goid[i] == g {
			return i
		}
	}
	return -1
}

// Level says which points count: 0 only synchronisation, 1 also function entries, 2 also every statement.
var Level = 2

// P is a scheduling point before a statement.
//
//go:norace
func P() {
	if Level >= 2 {
		S()
	}
}

// F is a scheduling point at the entry of a function.
//
//go:norace
func F() {
	if Level == 1 {
		S()
	}
}

// S is a scheduling point at a synchronisation.
//
//go:norace
func S() {
	if !st.active || st.free {
		return
	}
	t := me()
	if t < 0 || t != st.cur {
		return
	}
	raceOff()
	transfer(t)
	raceOn()
}

// choose decides who runs next; -1: nobody can.
//
//go:norace
func choose(cur int) int {
	var rs uint8
	k := 0
	for i := 0; i < st.n; i++ {
		if st.state[i] == ready {
			rs |= 1 << i
			k++
		}
	}
	if k == 0 {
		return -1
	}
	pick := -1
	if cur >= 0 && rs>>cur&1 == 1 {
		pick = cur
	} else {
		for i := 0; i < st.n; i++ {
			if rs>>i&1 == 1 {
				pick = i
				break
			}
		}
	}
	if k > 1 {
		if st.nsteps >= MaxSteps {
			st.over = true
			return pick
		}
		if st.nsteps < len(st.plan) {
			if p := int(st.plan[st.nsteps]); rs>>p&1 == 1 {
				pick = p
			} else {
				st.diverge = true
			}
		}
		c := int8(-1)
		if cur >= 0 && rs>>cur&1 == 1 {
			c = int8(cur)
		}
		st.steps[st.nsteps] = Step{c, int8(pick), rs}
		st.nsteps++
	}
	return pick
}

// transfer gives control to whoever is chosen; returns when t runs again.
//
//go:norace
func transfer(t int) {
	p := choose(t)
	if p == t {
		return
	}
	if p < 0 {
		st.dead = true
		st.done <- -1
		<-st.resume[t] // for ever, or until the controller gives up
		return
	}
	st.cur = p
	st.resume[p] <- struct{}{}
	<-st.resume[t]
}

// Block waits until Wake(key); it returns false when the caller has to wait for real.
//
//go:norace
func Block(key uintptr) bool {
	if !st.active || st.free {
		return false
	}
	t := me()
	if t < 0 {
		return false
	}
	raceOff()
	st.state[t] = blocked
	st.on[t] = key
	transfer(t)
	raceOn()
	return !st.free
}

// Wake makes those waiting for key runnable.
//
//go:norace
func Wake(key uintptr) {
	if !st.active || st.free {
		return
	}
	for i := 0; i < st.n; i++ {
		if st.state[i] == blocked && st.on[i] == key {
			st.state[i] = ready
		}
	}
}

// Controlled tells whether the caller is a scheduled thread.
//
//go:norace
func Controlled() bool { return st.active && !st.free && me() >= 0 }

//go:norace
func enter(t int) {
	raceOff()
	st.goid[t] = goid()
	st.done <- -2 // registered
	<-st.resume[t]
	raceOn()
}

//go:norace
func leave(t int, msg string) {
	st.panics[t] = msg
	raceOff()
	if !st.free {
		st.state[t] = finished
		left := 0
		for i := 0; i < st.n; i++ {
			if st.state[i] != finished {
				left++
			}
		}
		if left > 0 {
			p := choose(-1)
			if p < 0 {
				st.dead = true
				raceOn()
				st.done <- -1
				return
			}
			st.cur = p
			st.resume[p] <- struct{}{}
		}
	}
	raceOn()
	st.done <- t // ordered for the race detector: whoever looks at the results has joined
}

// Result of one execution.
type Result struct {
	Steps                     []Step
	Deadlock, Freed, Diverged bool
	Over                      bool
	Panics                    []string
	Races                     int
}

// Run executes the threads under the plan (the choices at the points with more than one runnable thread; after its end the
// running thread goes on).
//
//go:norace
func Run(plan []int8, threads []func()) (r Result) {
	races := RaceErrors()
	st.n = len(threads)
	st.plan = plan
	st.nsteps = 0
	st.dead, st.free, st.over, st.diverge = false, false, false, false
	st.done = make(chan int, 2*Max)
	for i := range threads {
		st.state[i] = ready
		st.on[i] = 0
		st.goid[i] = 0
		st.panics[i] = ""
		st.resume[i] = make(chan struct{}, 1)
	}
	for i := range threads {
		i, f := i, threads[i]
		go func() {
			enter(i)
			msg := "x"
			defer func() {
				if e := recover(); e != nil {
					msg = fmt.Sprint("panic: ", e)
				}
				leave(i, msg)
			}()
			f()
			msg = ""
		}()
	}
	for range threads {
		<-st.done
	}
	st.active = true
	p := choose(-1)
	st.cur = p
	st.resume[p] <- struct{}{}
	left := len(threads)
	limit := time.NewTimer(20 * time.Second)
	for left > 0 {
		select {
		case t := <-st.done:
			if t >= 0 {
				left--
				continue
			}
			r.Deadlock = true
			left = 0
		case <-limit.C:
			// blocked in something the scheduler does not see: let everybody run
			if r.Freed {
				r.Deadlock = true
				left = 0
				break
			}
			r.Freed = true
			st.free = true
			for i := range threads {
				select {
				case st.resume[i] <- struct{}{}:
				default:
				}
			}
			limit.Reset(20 * time.Second)
		}
	}
	limit.Stop()
	st.active = false
	r.Steps = append(r.Steps, st.steps[:st.nsteps]...)
	r.Over, r.Diverged = st.over, st.diverge
	for i := range threads {
		r.Panics = append(r.Panics, st.panics[i])
	}
	r.Races = RaceErrors() - races
	return
}

// Explore enumerates every schedule with at most bound preemptions. mk prepares one execution: the threads and the
// check of the outcome. It stops when stop returns true.
func Explore(bound int, mk func() (threads []func(), check func(Result, []int8)), stop func() bool) (executions, points int, maxPoints int) {
	type job struct {
		plan []int8
		used int
	}
	work := []job{{nil, 0}}
	for len(work) > 0 {
		if stop() {
			return
		}
		j := work[len(work)-1]
		work = work[:len(work)-1]
		ths, check := mk()
		r := Run(j.plan, ths)
		executions++
		points += len(r.Steps)
		if len(r.Steps) > maxPoints {
			maxPoints = len(r.Steps)
		}
		check(r, j.plan)
		if r.Deadlock || r.Freed {
			continue
		}
		for i := len(j.plan); i < len(r.Steps); i++ {
			s := r.Steps[i]
			for t := int8(0); t < Max; t++ {
				if s.Ready>>t&1 == 0 || t == s.Chosen {
					continue
				}
				used := j.used
				if s.Cur >= 0 && t != s.Cur {
					used++
				}
				if used > bound {
					continue
				}
				np := make([]int8, i+1)
				for k := 0; k < i; k++ {
					np[k] = r.Steps[k].Chosen
				}
				np[i] = t
				work = append(work, job{np, used})
			}
		}
	}
	return
}
