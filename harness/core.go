// Package sigverif monitors philippseith/signalr at run time.
//
// core.go: cases, their random source, their recorded events and the waiting primitives.
package sigverif

import (
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Case is one execution of the library under one generated workload.
type Case struct {
	Prop    string
	Index   int
	Seed    uint64
	Tier    string
	slowHub time.Duration // the factory of hubs takes up to this
	Real    bool          // real time instead of a synctest bubble
	R       *rand.Rand

	mu       sync.Mutex
	start    time.Time
	viols    []Violation
	trace    []string
	dropped  int
	sig      uint64
	nEvents  int
	counters map[string]int64
	cleanups []func()
	noSig    bool
	quiet    bool // race mode: random numbers without synchronization
	rmu      sync.Mutex
	yield    atomic.Uint64
	done     atomic.Bool
	sample   string
	vmsgs    map[string]bool
}

// Violation is one refutation of the property.
type Violation struct {
	Key string // identifies the failing input, call site or history class
	Msg string
}

// CaseResult is what a worker reports for one case.
type CaseResult struct {
	Index    int              `json:"i"`
	Real     bool             `json:"real,omitempty"`
	Sig      uint64           `json:"sig"`
	Events   int              `json:"events"`
	Counters map[string]int64 `json:"c"`
	Viols    []Violation      `json:"v,omitempty"`
	Trace    []string         `json:"t,omitempty"`
	Sample   string           `json:"s,omitempty"`
	Err      string           `json:"err,omitempty"`
}

func splitmix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func newCase(prop, tier string, seed uint64, index int, real bool) *Case {
	h := fnv.New64a()
	h.Write([]byte(prop))
	s := splitmix(splitmix(seed)^h.Sum64()) ^ splitmix(uint64(index)+0x5151)
	c := &Case{Prop: prop, Index: index, Seed: seed, Tier: tier, Real: real,
		R: rand.New(rand.NewPCG(s, splitmix(s))), counters: map[string]int64{}, vmsgs: map[string]bool{}}
	c.yield.Store(s)
	return c
}

func (c *Case) begin() { c.start = time.Now() }

// Now is the (virtual) time since the start of the case.
func (c *Case) Now() time.Duration { return time.Since(c.start) }

// Violf records a refutation. key identifies the class of failure.
func (c *Case) Violf(key, format string, a ...any) {
	m := fmt.Sprintf(format, a...)
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.done.Load() {
		return
	}
	if len(c.viols) < 20 && !c.vmsgs[key+m] {
		c.vmsgs[key+m] = true
		c.viols = append(c.viols, Violation{key, m})
	}
	c.trace = append(c.trace, fmt.Sprintf("%12v  !! %s: %s", time.Since(c.start), key, m))
}

func (c *Case) failed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.viols) > 0
}

// Ev records an observed event; kind is part of the signature of the execution.
func (c *Case) Ev(kind string, format string, a ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.done.Load() {
		return
	}
	c.counters["ev:"+kind]++
	c.nEvents++
	h := fnv.New64a()
	fmt.Fprintf(h, "%d|%s", c.sig, kind)
	c.sig = h.Sum64()
	if len(c.trace) < 600 {
		c.trace = append(c.trace, fmt.Sprintf("%12v  %s %s", time.Since(c.start), kind, fmt.Sprintf(format, a...)))
	} else {
		c.dropped++
	}
}

// Note adds to the trace only.
func (c *Case) Note(format string, a ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.trace) < 600 {
		c.trace = append(c.trace, fmt.Sprintf("%12v  -- %s", time.Since(c.start), fmt.Sprintf(format, a...)))
	}
}

// Count adds to a coverage counter.
func (c *Case) Count(name string, n int) {
	c.mu.Lock()
	c.counters[name] += int64(n)
	c.mu.Unlock()
}

// Sample describes the case for the evidence file.
func (c *Case) Sample(format string, a ...any) { c.sample = fmt.Sprintf(format, a...) }

// Cleanup registers f to run when the case ends (last registered first).
func (c *Case) Cleanup(f func()) {
	c.mu.Lock()
	c.cleanups = append(c.cleanups, f)
	c.mu.Unlock()
}

func (c *Case) runCleanups() {
	for {
		c.mu.Lock()
		n := len(c.cleanups)
		if n == 0 {
			c.mu.Unlock()
			return
		}
		f := c.cleanups[n-1]
		c.cleanups = c.cleanups[:n-1]
		c.mu.Unlock()
		f()
	}
}

func (c *Case) result() CaseResult {
	c.mu.Lock()
	defer c.mu.Unlock()
	r := CaseResult{Index: c.Index, Real: c.Real, Sig: c.sig, Events: c.nEvents, Counters: c.counters, Viols: c.viols, Sample: c.sample}
	if len(c.viols) > 0 || os.Getenv("VERIF_TRACE") != "" {
		r.Trace = c.trace
		if c.dropped > 0 {
			r.Trace = append(r.Trace, fmt.Sprintf("(%d more events)", c.dropped))
		}
	}
	return r
}

// --- random helpers (only for use by one goroutine at a time unless locked) ---

func (c *Case) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	if raceMode && c.quiet {
		return int(quickRand(uint64(n)))
	}
	c.rmu.Lock()
	defer c.rmu.Unlock()
	return c.R.IntN(n)
}
func (c *Case) Bool() bool         { return c.Intn(2) == 0 }
func (c *Case) Chance(p int) bool  { return c.Intn(100) < p }
func (c *Case) Range(a, b int) int { return a + c.Intn(b-a+1) }
func (c *Case) U64() uint64 {
	if raceMode && c.quiet {
		return quickRand(1 << 63)
	}
	c.rmu.Lock()
	defer c.rmu.Unlock()
	return c.R.Uint64()
}
func (c *Case) Dur(min, max time.Duration) time.Duration {
	if max <= min {
		return min
	}
	if raceMode && c.quiet {
		return min + time.Duration(quickRand(uint64(max-min)))
	}
	c.rmu.Lock()
	defer c.rmu.Unlock()
	return min + time.Duration(c.R.Int64N(int64(max-min)))
}
func (c *Case) Sub(salt uint64) *rand.Rand {
	s := splitmix(c.U64() ^ salt)
	return rand.New(rand.NewPCG(s, s^0x77))
}
func (c *Case) Perm(n int) []int {
	c.rmu.Lock()
	defer c.rmu.Unlock()
	return c.R.Perm(n)
}

func pick[T any](c *Case, xs ...T) T { return xs[c.Intn(len(xs))] }

// Yield perturbs the schedule: a random number of scheduler yields.
func (c *Case) Yield() {
	if raceMode {
		for n := quickRand(4); n > 0; n-- {
			runtime.Gosched()
		}
		return
	}
	x := splitmix(c.yield.Add(0x9e37))
	n := x % 4
	if x>>8%64 == 0 {
		n = 40 // long enough for others to get far
	}
	for ; n > 0; n-- {
		runtime.Gosched()
	}
}

// Patience is how long a bounded-progress wait lasts before it is judged "never":
// an hour of virtual time, or 30 s of real time.
func (c *Case) Patience() time.Duration {
	if c.Real {
		return 30 * time.Second
	}
	return time.Hour
}

// Until waits until cond holds; false after the timeout (Patience if 0).
func (c *Case) Until(timeout time.Duration, cond func() bool) bool {
	if timeout == 0 {
		timeout = c.Patience()
	}
	end := time.Now().Add(timeout)
	step := time.Millisecond
	for {
		if cond() {
			return true
		}
		left := time.Until(end)
		if left <= 0 {
			return false
		}
		if step > left {
			step = left
		}
		time.Sleep(step)
		if step < time.Second {
			step += step / 4
		}
	}
}

// Within runs f in its own goroutine and reports whether it returned in time (Patience if 0).
func (c *Case) Within(timeout time.Duration, f func()) bool {
	if timeout == 0 {
		timeout = c.Patience()
	}
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	t := time.NewTimer(timeout)
	defer t.Stop()
	select {
	case <-done:
		return true
	case <-t.C:
		return false
	}
}

// libGoroutines returns the stacks of goroutines which have library frames and are in the
// same bubble (or, in real mode, in the process).
func (c *Case) libGoroutines() []string {
	buf := make([]byte, 1<<20)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			buf = buf[:n]
			break
		}
		buf = make([]byte, 2*len(buf))
	}
	all := strings.Split(string(buf), "\n\n")
	bubble := ""
	if !c.Real {
		// own goroutine is the first one
		bubble = bubbleOf(all[0])
	}
	var res []string
	for _, g := range all[1:] {
		if !strings.Contains(g, "philippseith/signalr") {
			continue
		}
		// The runtime takes a goroutine out of its bubble while it assists the garbage collector
		if b := bubbleOf(g); bubble != "" && b != bubble && b != "-" {
			continue
		}
		res = append(res, g)
	}
	sort.Strings(res)
	return res
}

func bubbleOf(stack string) string {
	line, _, _ := strings.Cut(stack, "\n")
	i := strings.Index(line, "synctest bubble ")
	if i < 0 {
		return "-"
	}
	return strings.TrimRight(line[i:], "]:")
}

func short(s string, n int) string {
	if len(s) > n {
		return s[:n] + fmt.Sprintf("...(%d bytes)", len(s))
	}
	return s
}
