// Command check decides one property on the current working tree of /repo.
package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"runtime/debug"
	"runtime/pprof"
	"strings"
	"sync"

	. "verif/harness/core"
)

type check struct {
	level string
	run   func(*Ctx)
}

var checks = map[string]check{}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: check ID")
		os.Exit(2)
	}
	k, ok := checks[os.Args[1]]
	if !ok {
		fmt.Println("unknown check", os.Args[1])
		os.Exit(2)
	}
	f := os.Getenv("VERIF_PROF")
	if f == "" && os.Getenv("VERIF_CHILD") == "" {
		os.Exit(supervise())
	}
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(5 << 30) // more in use than the watch allows is then really in use
	c := NewCtx(os.Args[1], k.level)
	if f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
		k.run(c)
		c.Finish()
		return
	}
	c.Watch()
	k.run(c)
	os.Exit(c.Finish())
}

// tail passes what is written on and keeps the start and the end of it.
type tail struct {
	mu         sync.Mutex
	head, last []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.head) < 1<<16 {
		t.head = append(t.head, p...)
	}
	t.last = append(t.last, p...)
	if len(t.last) > 1<<17 {
		t.last = append([]byte{}, t.last[len(t.last)-1<<16:]...)
	}
	return os.Stderr.Write(p)
}

// supervise runs the check in a process of its own: some things a library can do end the whole process (a stack that
// overflows, a lock released twice, a map written by two at once), which no recover can catch.
func supervise() int {
	cmd := exec.Command(os.Args[0], os.Args[1:]...)
	cmd.Env = append(os.Environ(), "VERIF_CHILD=1")
	cmd.Stdout = os.Stdout
	t := &tail{}
	cmd.Stderr = t
	err := cmd.Run()
	if err == nil {
		return 0
	}
	e, ok := err.(*exec.ExitError)
	if !ok {
		fmt.Println(err)
		return 2
	}
	if e.ExitCode() == 1 {
		return 1
	}
	b := t.head
	i := bytes.Index(b, []byte("fatal error: "))
	if j := bytes.Index(b, []byte("panic: ")); i < 0 || j >= 0 && j < i {
		i = j
	}
	if i < 0 {
		return 2
	}
	b = b[i:]
	msg, _, _ := strings.Cut(string(b), "\n")
	site := LibSite(b)
	if site == "" || strings.Contains(msg, "out of memory") {
		return 2 // not the library's doing
	}
	c := NewCtx(os.Args[1], checks[os.Args[1]].level)
	c.Exhaustive = false
	c.Rule = "the exploration ended early: the process died in the library"
	c.Fail("process dies: "+msg+" @ "+site, Trunc(string(b), 6000), "see the stack: the harness frame names the operation")
	if c.Finish() == 0 {
		return 2 // a listed finding must not end the exploration
	}
	return 1
}
