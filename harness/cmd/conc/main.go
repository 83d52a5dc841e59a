// Command conc decides C15: every interleaving up to a preemption bound of small concurrent programs over the
// instrumented package, each execution monitored for data races and compared with the sequential results.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"strconv"
	"strings"
	"sync"
	"time"

	. "verif/harness/core"
	"verif/harness/sched"
)

// scenario is one concurrent program.
type scenario struct {
	kind  string
	name  string
	bound int
	level int // which points count, see sched.Level
	// mk prepares one execution; digest is what must not depend on the schedule ("" prefix "!" reports a violated invariant).
	mk func() (threads []func(), digest func() string)
}

// line is what a shard reports.
type line struct {
	Kind, Sig, Detail, Replay string
	Execs, Points, Max        int
	State                     string
	Name                      string
	Freed, MS                 int
	Done, Next                bool
}

func planString(p []int8) string {
	var s []string
	last := int8(-1)
	n := 0
	flush := func() {
		if n > 0 {
			s = append(s, fmt.Sprintf("%d:%d", last, n))
		}
	}
	for _, x := range p {
		if x != last {
			flush()
			last, n = x, 0
		}
		n++
	}
	flush()
	return strings.Join(s, " ")
}

func chosen(r sched.Result) []int8 {
	var p []int8
	for _, s := range r.Steps {
		p = append(p, s.Chosen)
	}
	return p
}

func raceLog() string {
	pre := os.Getenv("VERIF_RACELOG")
	if pre == "" {
		return ""
	}
	b, _ := os.ReadFile(fmt.Sprintf("%s.%d", pre, os.Getpid()))
	s := string(b)
	if i := strings.LastIndex(s, "WARNING: DATA RACE"); i >= 0 {
		s = s[i:]
	}
	return Trunc(s, 2500)
}

// raceSite names the two functions of the last report.
func raceSite(log string) string {
	var f []string
	ls := strings.Split(log, "\n")
	for i, l := range ls {
		if strings.Contains(l, " by goroutine ") || strings.Contains(l, " by main goroutine") {
			for _, x := range ls[i+1:] {
				x = strings.TrimSpace(x)
				if x == "" {
					break
				}
				if strings.Contains(x, "go-docx.") && strings.HasSuffix(x, ")") {
					x = x[strings.LastIndex(x, "go-docx.")+8:]
					f = append(f, strings.TrimSuffix(x, "()"))
					break
				}
			}
		}
	}
	return strings.Join(f, " / ")
}

// wanted is the scenarios to run.
func wanted(thorough bool) (out []scenario) {
	f := os.Getenv("VERIF_ONLY")
	for _, sc := range scenarios(thorough) {
		if f == "" || strings.Contains(sc.kind+" "+sc.name, f) {
			out = append(out, sc)
		}
	}
	return
}

// shard runs the scenarios whose numbers it reads from its input.
func shard(thorough bool) {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(400)
	out := bufio.NewWriter(os.Stdout)
	defer out.Flush()
	emit := func(l line) {
		b, _ := json.Marshal(l)
		out.Write(b)
		out.WriteByte(0x0a)
		out.Flush()
	}
	// sanity of the monitor itself: an unordered increment must be seen (or no claim of monitoring is made)
	scs := wanted(thorough)
	in := bufio.NewScanner(os.Stdin)
	for {
		emit(line{Next: true})
		if !in.Scan() {
			break
		}
		k, err := strconv.Atoi(in.Text())
		if err != nil || k < 0 || k >= len(scs) {
			break
		}
		sc := scs[k]
		fails := 0
		rep := func(sig, detail string, plan []int8) {
			fails++
			if fails <= 3 {
				emit(line{Kind: sc.kind, Sig: sig, Detail: detail, Replay: sc.name + " :: schedule (thread:points) " + planString(plan)})
			}
		}
		// the sequential result
		ths, dg := sc.mk()
		func() {
			defer func() {
				if e := recover(); e != nil {
					rep("sequential panic: "+sc.kind, fmt.Sprint(e), nil)
				}
			}()
			for _, f := range ths {
				f()
			}
		}()
		if fails > 0 {
			continue
		}
		want := dg()
		if strings.HasPrefix(want, "!") {
			rep(sc.kind+": sequentially wrong", want, nil)
			continue
		}
		seen := map[string]bool{}
		freed := 0
		t0 := time.Now()
		sched.Level = sc.level
		ex, pts, max := sched.Explore(sc.bound, func() ([]func(), func(sched.Result, []int8)) {
			ths, dg := sc.mk()
			return ths, func(r sched.Result, plan []int8) {
				p := chosen(r)
				if r.Freed {
					freed++
				}
				if r.Deadlock {
					rep(sc.kind+": the threads block each other", "deadlock", p)
					return
				}
				for t, m := range r.Panics {
					if m != "" {
						rep(sc.kind+": panic", fmt.Sprintf("thread %d: %s", t, m), p)
						return
					}
				}
				if r.Races > 0 {
					l := raceLog()
					rep(sc.kind+": data race: "+raceSite(l), l, p)
				}
				got := dg()
				if !seen[got] {
					seen[got] = true
					emit(line{State: sc.name + got})
				}
				if got != want {
					rep(sc.kind+": result differs from the sequential one", FirstDiff(want, got), p)
				}
			}
		}, func() bool { return fails > 2 })

		emit(line{Name: sc.kind + ": " + sc.name, Execs: ex, Points: pts, Max: max, Freed: freed, Kind: sc.kind, MS: int(time.Since(t0).Milliseconds())})
	}
	emit(line{Done: true})
}

func main() {
	thorough := os.Getenv("VERIF_TIER") == "thorough"
	if s := os.Getenv("VERIF_SHARD"); s != "" {
		a, _, _ := strings.Cut(s, "/")
		if f := os.Getenv("VERIF_PROF"); f != "" {
			w, _ := os.Create(f + "." + a)
			pprof.StartCPUProfile(w)
			defer pprof.StopCPUProfile()
		}
		shard(thorough)
		return
	}
	c := NewCtx("C15", "model_checking")
	c.Rule = "every schedule with at most the bound of preemptions of every concurrent program; a scheduling point before every statement, lock and atomic operation of the package; state = distinct outcome"
	dir, err := os.MkdirTemp("", "c15")
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	defer os.RemoveAll(dir)
	n := runtime.NumCPU()
	total := len(wanted(thorough))
	next := 0
	var mu sync.Mutex
	var wg sync.WaitGroup
	execs := map[string]int{}
	bad := ""
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			cmd := exec.Command(os.Args[0])
			cmd.Env = append(os.Environ(), fmt.Sprintf("VERIF_SHARD=%d/%d", i, n), "VERIF_RACELOG="+filepath.Join(dir, "race"),
				"GORACE=halt_on_error=0 exitcode=0 history_size=3 log_path="+filepath.Join(dir, "race"))
			var eb bytes.Buffer
			cmd.Stderr = &eb
			o, err := cmd.StdoutPipe()
			var give io.WriteCloser
			if err == nil {
				give, err = cmd.StdinPipe()
			}
			if err == nil {
				err = cmd.Start()
			}
			if err != nil {
				mu.Lock()
				bad = err.Error()
				mu.Unlock()
				return
			}
			done := false
			sc := bufio.NewScanner(o)
			sc.Buffer(nil, 1<<24)
			for sc.Scan() {
				var l line
				if json.Unmarshal(sc.Bytes(), &l) != nil {
					continue
				}
				switch {
				case l.Next:
					mu.Lock()
					k := next
					next++
					mu.Unlock()
					if k >= total {
						k = -1
					}
					fmt.Fprintln(give, k)
				case l.Done:
					done = true
				case l.Sig != "":
					c.Fail(l.Sig, l.Detail, l.Replay)
				case l.State != "":
					c.State(l.State)
				default:
					mu.Lock()
					execs[l.Kind] += l.Execs
					mu.Unlock()
					if os.Getenv("VERIF_MS") != "" {
						fmt.Println("MS", l.MS, l.Execs, l.Max, l.Name)
					}
					c.Trans(l.Points)
					for k := 0; k < l.Execs; k++ {
						c.Trace()
					}
					c.AddExtra("programs", 1)
					c.AddExtra("schedules", l.Execs)
					c.AddExtra("executions_left_uncontrolled", l.Freed)
					c.Sample(l.Kind, fmt.Sprintf("%s: %d schedules, up to %d points", l.Name, l.Execs, l.Max))
				}
			}
			err = cmd.Wait()
			if !done {
				// the process died: a fatal error of the runtime (concurrent map writes) is a finding, too
				t := eb.String()
				if strings.Contains(t, "fatal error: concurrent map") {
					c.Fail("concurrent map access", Trunc(t, 1500), "")
					return
				}
				mu.Lock()
				bad = fmt.Sprint("a shard did not finish: ", err, " ", Trunc(t, 1500))
				mu.Unlock()
			}
		}(i)
	}
	wg.Wait()
	c.Extra("schedules_by_kind", execs)
	c.Extra("race_monitor", sched.RaceBuild)
	c.Assume("sequential consistency between scheduling points; what two threads do without ordering is left to the race monitor (compiled in, running on every explored schedule)",
		"preemptions only at statements, locks and atomic operations of the package; library calls run to completion unless they call back",
		"additions of links, pictures, tables and paragraphs to one document from several threads are not claimed (documented as not thread safe)")
	if bad != "" && len(execs) == 0 {
		fmt.Println(bad)
		os.RemoveAll(dir)
		os.Exit(2)
	}
	if bad != "" {
		fmt.Println("note:", bad)
		os.RemoveAll(dir)
		os.Exit(2)
	}
	rc := c.Finish()
	os.RemoveAll(dir)
	os.Exit(rc)
}
