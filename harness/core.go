package main

import (
	"context"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Result is what a worker (one case, one process) reports to the driver.
type Result struct {
	Verdict    string           // ok, violation, inconclusive
	Msg        string           // one line
	Detail     string           // trace, stacks
	Events     int64            // monitored events
	Checks     int64            // oracle evaluations
	Sig        string           // hash of the observed history
	Nontrivial bool             // by the property's rule
	Sample     string           // the case, written out
	Stats      map[string]int64 // what was observed
	Known      []string         // keys of known findings that were observed
}

// W is the context of a worker.
type W struct {
	Prop  string
	Case  int
	Seed  int64
	Tier  string
	Noise bool
	R     *rand.Rand // the scenario's, not for other goroutines
	seeds *rand.Rand // with mu

	progress int64
	events   int64
	checks   int64

	mu      sync.Mutex
	log     []string
	dropped int
	waits   map[string]int
	stats   map[string]int64
	known   map[string]bool
	sig     uint64
	sample  string
	nontriv bool
	done    bool

	window  int64 // quiescence window, nanoseconds
	cleanup []func()
}

// Rand returns an independent generator for a goroutine.
func (w *W) Rand() *rand.Rand {
	w.mu.Lock()
	defer w.mu.Unlock()
	return rand.New(rand.NewSource(w.seeds.Int63()))
}

// Bump marks progress (no event).
func (w *W) Bump() { atomic.AddInt64(&w.progress, 1) }

// Event counts a monitored event and marks progress.
func (w *W) Event() { atomic.AddInt64(&w.events, 1); atomic.AddInt64(&w.progress, 1) }

// Check counts an oracle evaluation and reports a violation if not ok.
func (w *W) Check(ok bool, format string, args ...interface{}) {
	atomic.AddInt64(&w.checks, 1)
	atomic.AddInt64(&w.progress, 1)
	if !ok {
		w.Violate(format, args...)
	}
}

// Stat adds to a statistic of the evidence.
func (w *W) Stat(name string, n int64) {
	w.mu.Lock()
	w.stats[name] += n
	w.mu.Unlock()
}

// Known marks that a known finding was observed.
func (w *W) Known(key string) {
	w.mu.Lock()
	w.known[key] = true
	w.mu.Unlock()
}

// Log adds a line to the trace.
func (w *W) Log(format string, args ...interface{}) {
	s := fmt.Sprintf(format, args...)
	w.mu.Lock()
	if len(w.log) < 6000 {
		w.log = append(w.log, s)
	} else {
		w.dropped++
	}
	w.mu.Unlock()
}

// Sign adds to the history's signature.
func (w *W) Sign(s string) {
	h := fnv.New64a()
	w.mu.Lock()
	fmt.Fprintf(h, "%d|%s", w.sig, s)
	w.sig = h.Sum64()
	w.mu.Unlock()
}

// Sample describes the case.
func (w *W) Sample(format string, args ...interface{}) {
	s := fmt.Sprintf(format, args...)
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	w.mu.Lock()
	w.sample = s
	w.mu.Unlock()
}

// Nontrivial marks the case as non-trivial.
func (w *W) Nontrivial() { w.mu.Lock(); w.nontriv = true; w.mu.Unlock() }

// Waiting registers what the scenario waits for, for the hang report.
func (w *W) Waiting(what string) func() {
	w.mu.Lock()
	w.waits[what]++
	w.mu.Unlock()
	return func() {
		w.mu.Lock()
		if w.waits[what]--; w.waits[what] <= 0 {
			delete(w.waits, what)
		}
		w.mu.Unlock()
		w.Bump()
	}
}

// Await polls until f; a hang is found by the watchdog.
func (w *W) Await(f func() bool, format string, args ...interface{}) {
	if f() {
		return
	}
	defer w.Waiting(fmt.Sprintf(format, args...))()
	for i := 0; !f(); i++ {
		if i < 20 {
			time.Sleep(200 * time.Microsecond)
		} else {
			time.Sleep(3 * time.Millisecond)
		}
	}
}

// Call runs f, registered as something that must return.
func (w *W) Call(f func(), format string, args ...interface{}) {
	defer w.Waiting(fmt.Sprintf(format, args...))()
	f()
}

// Join waits a wait group.
func (w *W) Join(wg *sync.WaitGroup, what string) {
	defer w.Waiting(what)()
	wg.Wait()
}

// Chan waits for a channel.
func (w *W) Chan(ch <-chan struct{}, format string, args ...interface{}) {
	defer w.Waiting(fmt.Sprintf(format, args...))()
	<-ch
}

// Go runs n goroutines and waits for them.
func (w *W) Go(n int, what string, f func(i int)) {
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) { defer wg.Done(); f(i) }(i)
	}
	w.Join(&wg, what)
}

// Patience sets how long the process must be quiescent to be called hung.
func (w *W) Patience(d time.Duration) { atomic.StoreInt64(&w.window, int64(d)) }

// Settle waits a short while for things that are allowed to lag (never decides a verdict by itself).
func (w *W) Settle(d time.Duration) { time.Sleep(d); w.Bump() }

// Ctx is a background context.
func (w *W) Ctx() context.Context { return context.Background() }

// Violate ends the worker with a violation.
func (w *W) Violate(format string, args ...interface{}) {
	w.finish("violation", fmt.Sprintf(format, args...), true)
}

// Inconclusive ends the worker without a verdict.
func (w *W) Inconclusive(format string, args ...interface{}) {
	w.finish("inconclusive", fmt.Sprintf(format, args...), true)
}

var resultMu sync.Mutex

func (w *W) finish(verdict, msg string, exit bool) {
	resultMu.Lock() // never unlocked if exit: the first verdict wins.
	if w.done {
		resultMu.Unlock()
		return
	}
	w.done = true
	stacks := ""
	if verdict != "ok" {
		buf := make([]byte, 1<<20)
		stacks = string(buf[:runtime.Stack(buf, true)])
		if len(stacks) > 200000 {
			stacks = stacks[:200000]
		}
	}
	w.mu.Lock()
	res := Result{Verdict: verdict, Msg: msg, Events: atomic.LoadInt64(&w.events), Checks: atomic.LoadInt64(&w.checks),
		Sig: fmt.Sprintf("%016x", w.sig), Nontrivial: w.nontriv, Sample: w.sample, Stats: map[string]int64{}}
	for k, v := range w.stats {
		res.Stats[k] = v
	}
	for k := range w.known {
		res.Known = append(res.Known, k)
	}
	sort.Strings(res.Known)
	if verdict != "ok" {
		var waits []string
		for k := range w.waits {
			waits = append(waits, k)
		}
		sort.Strings(waits)
		res.Detail = "waiting: " + strings.Join(waits, " | ") + "\ntrace:\n" + strings.Join(w.log, "\n")
		if w.dropped > 0 {
			res.Detail += fmt.Sprintf("\n(%d more lines)", w.dropped)
		}
		res.Detail += "\n\nstacks:\n" + stacks
	}
	w.mu.Unlock()
	b, _ := json.Marshal(res)
	fmt.Fprintf(os.Stdout, "\nRESULT %s\n", b)
	if exit {
		os.Exit(0)
	}
	resultMu.Unlock()
}

var goHeader = regexp.MustCompile(`(?m)^goroutine (\d+) (?:gp=\S+ m=\S+ (?:mp=\S+ )?)?\[([^\]]*)\]`)

// quiet reports whether no goroutine except the caller is able to run.
func quiet(buf []byte) bool {
	n := runtime.Stack(buf, true)
	first := true
	for _, m := range goHeader.FindAllSubmatch(buf[:n], -1) {
		if first { // the caller.
			first = false
			continue
		}
		st := string(m[2])
		if i := strings.IndexByte(st, ','); i >= 0 {
			st = st[:i]
		}
		switch st {
		case "running", "runnable", "syscall", "waiting", "copystack", "preempted":
			return false
		}
	}
	return n < len(buf)
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// watchdog finds hangs: the whole process is quiescent, with no progress, for the window,
// and livelocks: a lot of cpu is consumed with no progress.
func (w *W) watchdog() {
	const tick = 200 * time.Millisecond
	buf := make([]byte, 8<<20)
	var samples, quietSamples int
	last := time.Now()
	lastProgress := int64(-1)
	cpu0 := cpuTime()
	for {
		time.Sleep(tick)
		now := time.Now()
		gap := now.Sub(last)
		last = now
		if p := atomic.LoadInt64(&w.progress); p != lastProgress {
			lastProgress = p
			samples, quietSamples = 0, 0
			cpu0 = cpuTime()
			continue
		}
		if gap > 4*tick { // this process is starved, the samples tell nothing.
			samples, quietSamples = 0, 0
			continue
		}
		samples++
		if quiet(buf) {
			quietSamples++
		}
		need := int(time.Duration(atomic.LoadInt64(&w.window)) / tick)
		if samples >= need {
			if quietSamples*10 >= samples*9 {
				w.Violate("hang: nothing can run and nothing happened for %v", time.Duration(samples)*tick)
			}
			if samples > 3*need { // slide.
				samples, quietSamples = samples/2, quietSamples/2
			}
		}
		if cpuTime()-cpu0 > 30*time.Second {
			w.Violate("livelock: %v of cpu consumed without progress", cpuTime()-cpu0)
		}
	}
}

func runWorker(prop string, cas int, seed int64, tier string, noise bool) {
	p := props[prop]
	if p == nil {
		fmt.Println("unknown property", prop)
		os.Exit(2)
	}
	w := &W{Prop: prop, Case: cas, Seed: seed, Tier: tier, Noise: noise,
		R:     rand.New(rand.NewSource(seed*1000003 + int64(cas)*7919 + int64(len(prop))*31 + int64(prop[1])*17 + int64(prop[2]))),
		waits: make(map[string]int), stats: make(map[string]int64), known: make(map[string]bool), window: int64(8 * time.Second)}
	w.seeds = rand.New(rand.NewSource(w.R.Int63()))
	if p.Procs == 0 {
		runtime.GOMAXPROCS([]int{8, 2, 4, 1, 8, 3}[w.R.Intn(6)])
	} else {
		runtime.GOMAXPROCS(p.Procs)
	}
	go w.watchdog()
	p.Run(w)
	for i := len(w.cleanup) - 1; i >= 0; i-- {
		w.cleanup[i]()
	}
	w.finish("ok", "", true)
}

// Prop is a check.
type Prop struct {
	ID       string
	Quick    int // cases
	Thorough int
	Par      int // parallel workers, default 8
	Procs    int // GOMAXPROCS of a worker, 0 for a random one
	Race     bool
	NoNoise  bool
	Rule     string
	Assume   []string
	Run      func(w *W)
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }
