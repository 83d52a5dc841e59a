package core

import (
	"bufio"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Root is the /verif directory (the working directory of the checks).
var Root = func() string {
	if r := os.Getenv("VERIF_ROOT"); r != "" {
		return r
	}
	return "/verif"
}()

// Ctx records what one check explored.
type Ctx struct {
	ID    string
	Tier  string
	Seed  int
	Level string
	Start time.Time

	mu          sync.Mutex
	states      [256]map[uint64]struct{}
	stMu        [256]sync.Mutex
	transitions int64
	traces      int64
	evals       int64
	nstates     int64
	samples     []string
	samplesBy   map[string]int
	extra       map[string]interface{}
	assume      []string
	fails       map[string]*Failure
	nfails      int64
	known       map[string]string
	knownHit    map[string]int
	notes       []string
	Rule        string
	Exhaustive  bool
}

// Failure is one violation (first occurrence per signature).
type Failure struct {
	Sig    string
	Detail string
	Replay string
	Count  int64
}

// NewCtx makes a context and loads the known findings of the property.
func NewCtx(id, level string) *Ctx {
	c := &Ctx{ID: id, Tier: os.Getenv("VERIF_TIER"), Level: level, Start: time.Now(),
		fails: map[string]*Failure{}, known: map[string]string{}, knownHit: map[string]int{},
		samplesBy: map[string]int{}, extra: map[string]interface{}{}, Exhaustive: true}
	if c.Tier != "thorough" {
		c.Tier = "quick"
	}
	c.Seed, _ = strconv.Atoi(os.Getenv("VERIF_SEED"))
	for i := range c.states {
		c.states[i] = map[uint64]struct{}{}
	}
	parPanic = func(r interface{}) {
		st := debug.Stack()
		c.Fail("panic in a job @ "+PanicSite(st), fmt.Sprintf("panic: %v\n%s", r, st), "")
	}
	f, err := os.Open(filepath.Join(Root, "known_findings.txt"))
	if err == nil {
		defer f.Close()
		sc := bufio.NewScanner(f)
		sc.Buffer(nil, 1<<20)
		for sc.Scan() {
			// finding: property=C02 sig=<sig> :: <description>
			l := sc.Text()
			if !strings.HasPrefix(l, "finding: property="+id+" sig=") {
				continue
			}
			rest := strings.TrimPrefix(l, "finding: property="+id+" sig=")
			sig, desc, _ := strings.Cut(rest, " :: ")
			c.known[sig] = desc
		}
	}
	return c
}

// Thorough reports the tier.
func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// Pick returns q in the quick tier, t in the thorough one.
func (c *Ctx) Pick(q, t int) int {
	if c.Thorough() {
		return t
	}
	return q
}

// State records a reached (model or observed) state and reports whether it is new.
func (c *Ctx) State(s string) bool {
	h := fnv.New64a()
	h.Write([]byte(s))
	v := h.Sum64()
	i := v & 255
	c.stMu[i].Lock()
	_, ok := c.states[i][v]
	if !ok {
		c.states[i][v] = struct{}{}
	}
	c.stMu[i].Unlock()
	atomic.AddInt64(&c.nstates, 1)
	return !ok
}

// Trans counts transitions (operations applied).
func (c *Ctx) Trans(n int) { atomic.AddInt64(&c.transitions, int64(n)) }

// Trace counts one model trace / execution replayed against the implementation.
func (c *Ctx) Trace() { atomic.AddInt64(&c.traces, 1) }

// Eval counts one evaluation.
func (c *Ctx) Eval() { atomic.AddInt64(&c.evals, 1) }

// Evals returns the number of evaluations.
func (c *Ctx) Evals() int64 { return atomic.LoadInt64(&c.evals) }

// Sample keeps a few samples per class.
func (c *Ctx) Sample(class, s string) {
	c.mu.Lock()
	if c.samplesBy[class] < 2 && len(c.samples) < 40 {
		c.samplesBy[class]++
		c.samples = append(c.samples, class+": "+trunc(s, 600))
	}
	c.mu.Unlock()
}

// Extra records an additional measured figure.
func (c *Ctx) Extra(k string, v interface{}) {
	c.mu.Lock()
	c.extra[k] = v
	c.mu.Unlock()
}

// AddExtra adds to a measured counter.
func (c *Ctx) AddExtra(k string, n int) {
	c.mu.Lock()
	v, _ := c.extra[k].(int)
	c.extra[k] = v + n
	c.mu.Unlock()
}

// Assume records an assumption.
func (c *Ctx) Assume(s ...string) { c.assume = append(c.assume, s...) }

// Fail records a violation. sig identifies the specific failure (used by the known-findings file).
func (c *Ctx) Fail(sig, detail, replay string) {
	sig = strings.ReplaceAll(sig, "\n", "\\n")
	atomic.AddInt64(&c.nfails, 1)
	c.mu.Lock()
	defer c.mu.Unlock()
	if _, ok := c.known[sig]; ok {
		c.knownHit[sig]++
		return
	}
	if f, ok := c.fails[sig]; ok {
		f.Count++
		if len(replay) < len(f.Replay) { // keep the smallest
			f.Replay, f.Detail = replay, detail
		}
		return
	}
	c.fails[sig] = &Failure{sig, detail, replay, 1}
	if os.Getenv("VERIF_FIRST") != "" { // used when trying planted bugs: the first violation ends the run
		fmt.Printf("VIOLATION property=%s replay=-\n  sig: %s\n", c.ID, sig)
		os.Exit(1)
	}
}

// Failing reports whether many distinct failures were seen already (to stop early).
func (c *Ctx) Failing() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.fails) >= 120
}

// Guard runs f; a panic becomes a violation with the given signature prefix.
func (c *Ctx) Guard(sig, replay string, f func()) (panicked bool) {
	defer func() {
		if r := recover(); r != nil {
			panicked = true
			c.Fail("panic "+sig+" @ "+PanicSite(debug.Stack()), fmt.Sprintf("panic: %v", r), replay)
		}
	}()
	f()
	return
}

func (c *Ctx) failPanic(sig string, r interface{}, replay string) {
	c.Fail("panic "+sig+" @ "+PanicSite(debug.Stack()), fmt.Sprintf("panic: %v", r), replay)
}

// PanicSite extracts the topmost library function of a stack.
func PanicSite(st []byte) string {
	lines := strings.Split(string(st), "\n")
	seen := false
	for _, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			seen = true
			continue
		}
		if seen && strings.Contains(l, "go-docx.") && !strings.HasPrefix(l, "\t") {
			l = l[strings.LastIndex(l, "go-docx.")+8:]
			if i := strings.LastIndexByte(l, '('); i > 0 {
				l = l[:i]
			}
			return l
		}
	}
	return "?"
}

// parPanic records a panic that escaped from a job.
var parPanic func(r interface{})

// Par runs f(0..n-1) on all cores.
func Par(n int, f func(i int)) {
	w := runtime.NumCPU()
	if w > n {
		w = n
	}
	var next int64 = -1
	var wg sync.WaitGroup
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n {
					return
				}
				func() {
					defer func() {
						if r := recover(); r != nil {
							if parPanic == nil {
								panic(r)
							}
							parPanic(r)
						}
					}()
					f(i)
				}()
			}
		}()
	}
	wg.Wait()
}

// Finish writes the evidence, prints the verdict and returns the exit code.
func (c *Ctx) Finish() int {
	nst := 0
	for i := range c.states {
		nst += len(c.states[i])
	}
	cov := map[string]interface{}{}
	for k, v := range c.extra {
		cov[k] = v
	}
	if len(c.samples) == 0 {
		c.samples = []string{"(none)"}
	}
	cov["samples"] = c.samples
	switch c.Level {
	case "model_checking":
		cov["states"] = nst
		cov["transitions"] = c.transitions
		cov["traces_validated_against_impl"] = c.traces
		if c.evals > 0 {
			cov["evaluations"] = c.evals
		}
	default:
		cov["evaluations"] = c.evals
		cov["distinct_nontrivial"] = nst
		cov["rule"] = c.Rule
	}
	cov["exhaustive"] = c.Exhaustive
	if c.Rule != "" {
		cov["rule"] = c.Rule
	}
	kf := map[string]int{}
	for k, v := range c.knownHit {
		kf[k] = v
	}
	if len(kf) > 0 {
		cov["known_findings_hit"] = kf
	}
	ev := map[string]interface{}{
		"property": c.ID, "tier": c.Tier, "seed": c.Seed, "level": c.Level, "coverage": cov,
		"assumptions": c.assume, "wall_s": time.Since(c.Start).Seconds(), "violations": len(c.fails),
	}
	if c.assume == nil {
		ev["assumptions"] = []string{}
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Println("evidence:", err)
		return 2
	}
	os.MkdirAll(filepath.Join(Root, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(Root, "evidence", c.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("evidence:", err)
		return 2
	}
	var ks []string
	for k := range c.knownHit {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", c.ID, c.known[k], k)
	}
	fmt.Printf("%s %s: states=%d transitions=%d traces=%d evals=%d distinct-failures=%d wall=%.1fs\n", c.ID, c.Tier, nst, c.transitions, c.traces, c.evals, len(c.fails), time.Since(c.Start).Seconds())
	if len(c.fails) == 0 {
		return 0
	}
	dir := filepath.Join(Root, "evidence", "replay")
	os.MkdirAll(dir, 0o755)
	ks = ks[:0]
	for k := range c.fails {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		a, b := c.fails[ks[i]], c.fails[ks[j]]
		if len(a.Replay) != len(b.Replay) {
			return len(a.Replay) < len(b.Replay)
		}
		return ks[i] < ks[j]
	})
	for i, k := range ks {
		f := c.fails[k]
		h := fnv.New32a()
		h.Write([]byte(k))
		fn := filepath.Join(dir, fmt.Sprintf("%s-%08x.txt", c.ID, h.Sum32()))
		os.WriteFile(fn, []byte("property: "+c.ID+"\nsignature: "+f.Sig+"\noccurrences: "+strconv.FormatInt(f.Count, 10)+"\ndetail: "+f.Detail+"\nreplay: "+f.Replay+"\n"), 0o644)
		if i < 40 {
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, fn)
			fmt.Printf("  sig: %s (x%d)\n  detail: %s\n  replay: %s\n", f.Sig, f.Count, trunc(f.Detail, 700), trunc(f.Replay, 700))
		}
	}
	return 1
}

// LibSite is the topmost function of the library in a crash report ("" if there is none).
func LibSite(b []byte) string {
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "github.com/fumiama/go-docx.") {
			l = strings.TrimPrefix(l, "github.com/fumiama/go-docx.")
			if i := strings.LastIndexByte(l, '('); i > 0 {
				l = l[:i]
			}
			return l
		}
	}
	return ""
}

// Watch ends the check with a violation when nothing at all advances for a long time while the library is at work:
// a call into it that never returns, or a lock that is never released.
func (c *Ctx) Watch() {
	const patience = 60 * time.Second
	const memory = 10 << 30
	go func() {
		var last int64
		at, gap := time.Now(), time.Duration(0)
		for {
			time.Sleep(time.Second)
			m := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
			metrics.Read(m)
			if n := atomic.LoadInt64(&c.transitions) + atomic.LoadInt64(&c.traces) + atomic.LoadInt64(&c.evals) + atomic.LoadInt64(&c.nstates); n != last && m[0].Value.Uint64() < memory {
				last, at = n, time.Now()
				continue
			}
			if d := time.Since(at); d > gap {
				gap = d
				if os.Getenv("VERIF_GAP") != "" {
					fmt.Fprintln(os.Stderr, "no progress for", gap)
				}
			}
			if time.Since(at) < patience && m[0].Value.Uint64() < memory {
				continue
			}
			at = time.Now()
			what := fmt.Sprintf("nothing advanced for %v, %d MB in use", patience, m[0].Value.Uint64()>>20)
			buf := make([]byte, 1<<22)
			buf = buf[:runtime.Stack(buf, true)]
			for _, g := range strings.Split(string(buf), "\n\n") {
				if site := LibSite([]byte(g)); site != "" {
					c.Exhaustive = false
					c.Fail("a call does not return @ "+site, what+"\n"+trunc(g, 4000), "see the stack: the harness frame names the operation")
				}
			}
			if len(c.fails) > 0 {
				os.Exit(c.Finish())
			}
		}
	}()
}
