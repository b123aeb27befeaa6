package sigverif

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"testing/synctest"
	"time"
)

// Prop is a property with its scenario generator.
type Prop struct {
	ID       string
	Quick    int // number of cases
	Thorough int
	Run      func(c *Case)
	Long     func(c *Case) // one case of every Quick ones
	RealOnly bool          // no bubble
	Rule     string        // evidence: how cases are made and what makes one non-trivial
	Need     []string      // counters that must be non-zero, otherwise the run observed nothing
	Assume   []string
	Workers  int
	Freeze   time.Duration
}

var registry = map[string]*Prop{}

func register(p *Prop) { registry[p.ID] = p }

func runCase(t *testing.T, p *Prop, tier string, seed uint64, index int, real bool) (res CaseResult) {
	real = real || p.RealOnly
	c := newCase(p.ID, tier, seed, index, real)
	body := func() {
		c.begin()
		if p.Long != nil && index%p.Quick == p.Quick/3 {
			c.Count("long-life", 1)
			c.Ev("long-life", "")
			p.Long(c)
		} else {
			p.Run(c)
		}
		c.done.Store(true)
		c.runCleanups()
		if !real {
			time.Sleep(2 * time.Hour)
		} else {
			time.Sleep(20 * time.Millisecond)
		}
	}
	if real {
		body()
		c.addRaces()
		return c.result()
	}
	run := func(t *testing.T) {
		defer func() {
			if r := recover(); r != nil {
				if s := fmt.Sprint(r); strings.Contains(s, "deadlock: main bubble goroutine has exited") {
					c.Count("bubble-leftovers", 1)
					if os.Getenv("VERIF_SHOWLEFT") != "" {
						buf := make([]byte, 1<<20)
						_ = os.WriteFile(fmt.Sprintf("/tmp/left-%s-%d", p.ID, index), buf[:runtime.Stack(buf, true)], 0o644)
					}
					return
				}
				panic(r)
			}
		}()
		synctest.Test(t, func(t *testing.T) { body() })
	}
	if raceMode { // a race makes the test fail, which must not end the worker
		t.Run("", run)
	} else {
		run(t)
	}
	c.addRaces()
	return c.result()
}

// workerMain executes cases named on stdin ("index mode") and reports on fd 3.
func workerMain(t *testing.T) {
	p := registry[os.Getenv("VERIF_PROP")]
	seed, _ := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	tier := os.Getenv("VERIF_TIER")
	out := os.NewFile(3, "results")
	in := bufio.NewScanner(os.Stdin)
	for in.Scan() {
		f := strings.Fields(in.Text())
		if len(f) != 2 {
			return
		}
		idx, _ := strconv.Atoi(f[0])
		if _, err := fmt.Fprintf(os.Stderr, "\n@@CASE %d\n", idx); err != nil {
			return
		}
		r := runCase(t, p, tier, seed, idx, f[1] == "real")
		b, _ := json.Marshal(r)
		if _, err := out.Write(append(b, '\n')); err != nil {
			return
		}
	}
}

type worker struct {
	cmd    *exec.Cmd
	in     *os.File
	res    chan CaseResult
	exited chan struct{}
	stderr *tailBuf
}

type tailBuf struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.b = append(t.b, p...)
	if len(t.b) > 4<<20 {
		// keep the first part after the last case marker: the head of a crash report matters
		if i := bytes.LastIndex(t.b, []byte("\n@@CASE ")); i > 0 {
			t.b = append([]byte(nil), t.b[i:]...)
		}
		if len(t.b) > 4<<20 {
			t.b = t.b[:4<<20]
		}
	}
	return len(p), nil
}
func (t *tailBuf) last() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	i := bytes.LastIndex(t.b, []byte("\n@@CASE "))
	if i < 0 {
		i = 0
	}
	return string(t.b[i:])
}

func startWorker(procs int) (*worker, error) {
	w := &worker{res: make(chan CaseResult, 1), exited: make(chan struct{}), stderr: &tailBuf{}}
	w.cmd = exec.Command(os.Args[0], "-test.run=^TestWorker$", "-test.timeout=0", "-test.count=1")
	w.cmd.Env = append(os.Environ(), "VERIF_ROLE=worker", fmt.Sprintf("GOMAXPROCS=%d", procs), "GOTRACEBACK=all", "GORACE=log_path=race halt_on_error=0 history_size=4 atexit_sleep_ms=0 exitcode=0")
	w.cmd.Stderr = w.stderr
	w.cmd.Stdout = w.stderr
	w.cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	ir, iw, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	rr, rw, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	w.cmd.Stdin = ir
	w.in = iw
	w.cmd.ExtraFiles = []*os.File{rw}
	runtime.LockOSThread() // Pdeathsig is tied to the thread
	err = w.cmd.Start()
	runtime.UnlockOSThread()
	if err != nil {
		return nil, err
	}
	ir.Close()
	rw.Close()
	go func() {
		defer rr.Close()
		br := bufio.NewReaderSize(rr, 1<<20)
		for {
			line, err := br.ReadBytes('\n')
			if err != nil {
				break
			}
			var r CaseResult
			if json.Unmarshal(line, &r) == nil {
				w.res <- r
			}
		}
		_ = w.cmd.Wait()
		close(w.exited)
	}()
	return w, nil
}

func (w *worker) kill(sig syscall.Signal) {
	_ = syscall.Kill(-w.cmd.Process.Pid, sig)
}

func (w *worker) stop() {
	w.in.Close()
	select {
	case <-w.exited:
	case <-time.After(3 * time.Second):
		w.kill(syscall.SIGKILL)
		<-w.exited
	}
}

type caseOutcome struct {
	r      CaseResult
	crash  string // non empty: the process died; its report
	frozen string // non empty: no answer; goroutine dump
}

func (w *worker) run(index int, real bool, limit time.Duration) caseOutcome {
	mode := "virtual"
	if real {
		mode = "real"
	}
	if _, err := fmt.Fprintf(w.in, "%d %s\n", index, mode); err != nil {
		<-w.exited
		return caseOutcome{crash: w.stderr.last()}
	}
	t := time.NewTimer(limit)
	defer t.Stop()
	select {
	case r := <-w.res:
		return caseOutcome{r: r}
	case <-w.exited:
		select {
		case r := <-w.res:
			return caseOutcome{r: r}
		default:
		}
		return caseOutcome{crash: w.stderr.last()}
	case <-t.C:
		w.kill(syscall.SIGQUIT)
		select {
		case <-w.exited:
		case <-time.After(10 * time.Second):
			w.kill(syscall.SIGKILL)
			<-w.exited
		}
		return caseOutcome{frozen: w.stderr.last()}
	}
}

type total struct {
	mu        sync.Mutex
	evals     int
	real      int
	sigs      map[uint64]bool
	events    int
	counters  map[string]int64
	samples   []string
	viols     []found
	known     map[string]string
	frozen    int
	errs      []string
	stop      atomic.Bool
	frozenIdx []int
}

type found struct {
	Violation
	index  int
	real   bool
	trace  []string
	report string
}

func supervisorMain() int {
	start := time.Now()
	id := os.Getenv("VERIF_PROP")
	p := registry[id]
	if p == nil {
		fmt.Printf("unknown property %q\n", id)
		return 2
	}
	seed, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
		os.Setenv("VERIF_SEED", "1")
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	os.Setenv("VERIF_TIER", tier)
	n := p.Quick
	if tier == "thorough" {
		n = p.Thorough
	}
	if s := os.Getenv("VERIF_CASES"); s != "" {
		n, _ = strconv.Atoi(s)
	}
	first := 0
	if s := os.Getenv("VERIF_CASE"); s != "" {
		first, _ = strconv.Atoi(s)
		n = first + 1
		if os.Getenv("VERIF_REPEAT") != "" {
			k, _ := strconv.Atoi(os.Getenv("VERIF_REPEAT"))
			n = first + k
		}
	}
	dir := os.Getenv("VERIF_DIR")
	if dir == "" {
		dir = "/verif"
	}
	known := loadKnown(filepath.Join(dir, "known_findings.txt"), id)
	tot := &total{sigs: map[uint64]bool{}, counters: map[string]int64{}, known: map[string]string{}}
	nw := p.Workers
	if nw == 0 {
		nw = 8
		if k, err := strconv.Atoi(os.Getenv("VERIF_WORKERS")); err == nil && k > 0 {
			nw = k
		}
	}
	if n-first < nw {
		nw = n - first
	}
	freeze := p.Freeze
	if freeze == 0 {
		freeze = 20 * time.Second
	}
	budget := 600 * time.Second
	if tier == "thorough" {
		budget = 3 * time.Hour
	}
	var next atomic.Int64
	next.Store(int64(first))
	repeatSame := os.Getenv("VERIF_REPEAT") != ""
	realMode := os.Getenv("VERIF_MODE") == "real"
	addViol := func(v Violation, r CaseResult, report string) {
		tot.mu.Lock()
		defer tot.mu.Unlock()
		if msg, ok := known[v.Key]; ok {
			tot.known[v.Key] = msg
			return
		}
		if len(tot.viols) < 10 {
			tot.viols = append(tot.viols, found{v, r.Index, r.Real, r.Trace, report})
		}
		tot.stop.Store(true)
	}
	account := func(r CaseResult) {
		tot.mu.Lock()
		tot.evals++
		if r.Real && !p.RealOnly {
			tot.real++
		}
		tot.events += r.Events
		if r.Events > 0 {
			tot.sigs[r.Sig] = true
		}
		for k, v := range r.Counters {
			if strings.HasPrefix(k, "max:") {
				tot.counters[k] = max(tot.counters[k], v)
			} else {
				tot.counters[k] += v
			}
		}
		if r.Sample != "" && len(tot.samples) < 5 {
			tot.samples = append(tot.samples, fmt.Sprintf("case %d: %s", r.Index, r.Sample))
		}
		tot.mu.Unlock()
		for _, v := range r.Viols {
			addViol(v, r, "")
		}
		if os.Getenv("VERIF_TRACE") != "" {
			fmt.Println(strings.Join(r.Trace, "\n"))
		}
	}
	onCrash := func(idx int, real bool, report string) {
		kind, msg := classifyCrash(report)
		if kind == "" {
			tot.mu.Lock()
			tot.errs = append(tot.errs, fmt.Sprintf("case %d: worker died without a report of the library: %s", idx, short(report, 2000)))
			tot.mu.Unlock()
			return
		}
		addViol(Violation{kind, msg}, CaseResult{Index: idx, Real: real}, report)
	}
	var wg sync.WaitGroup
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var w *worker
			defer func() {
				if w != nil {
					w.stop()
				}
			}()
			served := 0
			for !tot.stop.Load() && time.Since(start) < budget {
				idx := int(next.Add(1) - 1)
				if idx >= n {
					return
				}
				if repeatSame {
					idx = first
				}
				if w != nil && served >= 200 {
					w.stop()
					w = nil
				}
				if w == nil {
					var err error
					if w, err = startWorker(2); err != nil {
						tot.mu.Lock()
						tot.errs = append(tot.errs, err.Error())
						tot.mu.Unlock()
						return
					}
					served = 0
				}
				served++
				freeze := freeze
				if p.Long != nil && idx%p.Quick == p.Quick/3 {
					freeze *= 5
				}
				o := w.run(idx, realMode, freeze+map[bool]time.Duration{true: 280 * time.Second}[realMode || p.RealOnly])
				switch {
				case o.crash != "":
					w = nil
					onCrash(idx, realMode, o.crash)
				case o.frozen != "":
					w = nil
					tot.mu.Lock()
					tot.frozen++
					tot.frozenIdx = append(tot.frozenIdx, idx)
					nf := tot.frozen
					tot.mu.Unlock()
					if os.Getenv("VERIF_SHOWFROZEN") != "" {
						fmt.Println(o.frozen)
					}
					if p.RealOnly || realMode {
						tot.mu.Lock()
						tot.errs = append(tot.errs, fmt.Sprintf("case %d gave no answer in real time: %s", idx, short(o.frozen, 6000)))
						tot.mu.Unlock()
						tot.stop.Store(true)
						return
					}
					if nf > 8 {
						return // the bubble freezes everywhere: real-time reruns of the first ones decide
					}
					var err error
					if w, err = startWorker(2); err != nil {
						return
					}
					o2 := w.run(idx, true, 180*time.Second)
					switch {
					case o2.crash != "":
						w = nil
						onCrash(idx, true, o2.crash)
					case o2.frozen != "":
						w = nil
						if g := blockedInLibrary(o2.frozen); g != "" {
							addViol(Violation{"stuck", "the case never finished, neither in virtual nor in real time; the library is stuck at:\n" + g}, CaseResult{Index: idx, Real: true}, o2.frozen)
							break
						}
						tot.mu.Lock()
						tot.errs = append(tot.errs, fmt.Sprintf("case %d gave no answer, neither in virtual nor in real time: %s", idx, short(o2.frozen, 6000)))
						tot.mu.Unlock()
					default:
						account(o2.r)
					}
				default:
					account(o.r)
				}
			}
		}()
	}
	wg.Wait()
	code := 0
	// report
	if len(tot.viols) > 0 {
		code = 1
		rdir := filepath.Join(dir, "evidence", "replay")
		_ = os.MkdirAll(rdir, 0o755)
		for i, v := range tot.viols {
			path := filepath.Join(rdir, fmt.Sprintf("%s-%d-%d.txt", id, v.index, i))
			var b strings.Builder
			fmt.Fprintf(&b, "property %s\nkey %s\n%s\n\nseed %d case %d tier %s real-time %v\nreplay: VERIF_SEED=%d VERIF_CASE=%d %s/check.sh %s %s\n\ntrace:\n%s\n\n%s\n",
				id, v.Key, v.Msg, seed, v.index, tier, v.real, seed, v.index, dir, id, tier, strings.Join(v.trace, "\n"), v.report)
			_ = os.WriteFile(path, []byte(b.String()), 0o644)
			if i < 3 {
				fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
				fmt.Printf("  [%s] %s\n", v.Key, short(v.Msg, 1500))
			}
		}
	}
	for _, k := range sortedKeys(known) {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", id, k, known[k])
	}
	if code == 0 {
		if len(tot.errs) > 0 {
			for _, e := range tot.errs {
				fmt.Println("ERROR:", e)
			}
			code = 2
		} else if first == 0 && os.Getenv("VERIF_CASES") == "" {
			for _, k := range p.Need {
				if tot.counters[k] == 0 && tot.counters["ev:"+k] == 0 {
					fmt.Printf("ERROR: nothing observed for %q\n", k)
					code = 2
				}
			}
		}
	}
	if os.Getenv("VERIF_CASE") == "" {
		writeEvidence(dir, p, tier, seed, tot, time.Since(start), len(tot.viols))
	}
	fmt.Printf("%s %s: %d cases (%d in real time after a freeze), %d distinct executions, %d events, %d violations, %.1fs\n",
		id, tier, tot.evals, tot.real, len(tot.sigs), tot.events, len(tot.viols), time.Since(start).Seconds())
	if os.Getenv("VERIF_COUNTERS") != "" {
		for _, k := range sortedKeys(tot.counters) {
			fmt.Printf("  %-50s %d\n", k, tot.counters[k])
		}
	}
	if tot.frozen > 0 {
		fmt.Printf("  frozen cases: %v\n", tot.frozenIdx)
	}
	return code
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// classifyCrash finds the reason of a process death in its stderr.
func classifyCrash(report string) (key, msg string) {
	lines := strings.Split(report, "\n")
	for i, l := range lines {
		switch {
		case strings.HasPrefix(l, "panic: harness:"):
			return "", l
		case strings.HasPrefix(l, "panic: "), strings.HasPrefix(l, "fatal error: "), strings.HasPrefix(l, "runtime: goroutine stack exceeds"):
			// the first goroutine after the message is the guilty one
			end := i + 500 // a stack overflow prints a hundred frames
			if end > len(lines) {
				end = len(lines)
			}
			seg := strings.Join(lines[i:end], "\n")
			if j := strings.Index(seg, "\ngoroutine "); j >= 0 {
				if k := strings.Index(seg[j+1:], "\n\n"); k > 0 {
					seg = seg[:j+1+k]
				}
			}
			if strings.Contains(l, "deadlock") && !strings.Contains(l, "concurrent") {
				return "", l
			}
			if !strings.Contains(seg, "philippseith/signalr") && !strings.HasPrefix(l, "fatal error: concurrent") {
				return "", l
			}
			return "crash", "the process died: " + l + "\n" + short(seg, 1500)
		}
	}
	return "", ""
}

// blockedInLibrary returns the stacks of a goroutine dump whose innermost frame outside of the
// Go library belongs to the library under test.
func blockedInLibrary(dump string) string {
	var res []string
	for _, g := range strings.Split(dump, "\n\n") {
		if !strings.Contains(g, "goroutine ") {
			continue
		}
		for _, l := range strings.Split(g, "\n") {
			if strings.HasPrefix(l, "sigverif.") || strings.HasPrefix(l, "created by") {
				break
			}
			if strings.HasPrefix(l, "github.com/philippseith/signalr") {
				res = append(res, short(g, 800))
				break
			}
		}
	}
	if len(res) > 4 {
		res = res[:4]
	}
	return strings.Join(res, "\n\n")
}

// loadKnown reads the known findings of a property: "known: property=ID key=KEY text".
func loadKnown(path, id string) map[string]string {
	res := map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return res
	}
	for _, l := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(l, "known: property="+id+" key=")
		if !ok {
			continue
		}
		k, text, _ := strings.Cut(rest, " ")
		res[k] = text
	}
	return res
}

func writeEvidence(dir string, p *Prop, tier string, seed uint64, tot *total, wall time.Duration, viols int) {
	obs := map[string]int64{}
	for k, v := range tot.counters {
		obs[k] = v
	}
	samples := tot.samples
	if len(samples) == 0 {
		samples = []string{"(none)"}
	}
	ev := map[string]any{
		"property": p.ID, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": map[string]any{
			"evaluations":         tot.evals,
			"distinct_nontrivial": len(tot.sigs),
			"rule":                p.Rule + " Distinct: executions whose ordered sequence of observed event kinds differs; an execution without events does not count.",
			"samples":             samples,
			"observed":            obs,
			"events_total":        tot.events,
			"reran_in_real_time":  tot.real,
		},
		"assumptions": p.Assume,
		"wall_s":      wall.Seconds(),
		"violations":  viols,
	}
	if p.Assume == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.MkdirAll(filepath.Join(dir, "evidence"), 0o755)
	_ = os.WriteFile(filepath.Join(dir, "evidence", p.ID+".json"), append(b, '\n'), 0o644)
}
