package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

type caseRun struct {
	id    int
	res   Result
	noise bool
	wall  time.Duration
	note  string
}

func runCase(ctx context.Context, p *Prop, id int, tier string, seed int64, noiseBin string, timeout time.Duration) caseRun {
	self, _ := os.Executable()
	noise := noiseBin != "" && !p.NoNoise && id%2 == 1
	bin := self
	if noise {
		bin = noiseBin
	}
	start := time.Now()
	cr := caseRun{id: id, noise: noise}
	args := []string{"work", "-prop", p.ID, "-case", fmt.Sprint(id), "-seed", fmt.Sprint(seed), "-tier", tier}
	if noise {
		args = append(args, "-noise")
	}
	cctx, cancel := context.WithTimeout(ctx, timeout)
	defer cancel()
	cmd := exec.CommandContext(cctx, bin, args...)
	cmd.Env = append(os.Environ(), "GOTRACEBACK=all", "GOMEMLIMIT=3GiB")
	if noise {
		cmd.Env = append(cmd.Env, fmt.Sprintf("VH_NOISE=%d", seed*100000+int64(id)))
	}
	racePath := ""
	if p.Race {
		dir, err := os.MkdirTemp("", "vhrace")
		if err == nil {
			defer os.RemoveAll(dir)
			racePath = filepath.Join(dir, "r")
			cmd.Env = append(cmd.Env, "GORACE=halt_on_error=0 exitcode=0 history_size=3 atexit_sleep_ms=0 log_path="+racePath)
		}
	}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	var stdout, stderr bytes.Buffer
	cmd.Stdout = &stdout
	cmd.Stderr = &stderr
	runtime.LockOSThread() // Pdeathsig is per thread.
	err := cmd.Run()
	runtime.UnlockOSThread()
	cr.wall = time.Since(start)
	out := stdout.String()
	if i := strings.LastIndex(out, "\nRESULT "); i >= 0 {
		line := out[i+8:]
		if j := strings.IndexByte(line, '\n'); j >= 0 {
			line = line[:j]
		}
		if json.Unmarshal([]byte(line), &cr.res) != nil {
			cr.res = Result{Verdict: "inconclusive", Msg: "unreadable result"}
		}
		if racePath != "" {
			onlyRaces(&cr.res)
			checkRaces(racePath, &cr.res)
		}
		return cr
	}
	tail := stderr.String()
	if len(tail) > 100000 {
		tail = tail[:60000] + "\n...\n" + tail[len(tail)-30000:]
	}
	switch {
	case ctx.Err() != nil:
		cr.res = Result{Verdict: "cancelled"}
	case cctx.Err() != nil:
		cr.res = Result{Verdict: "timeout", Msg: fmt.Sprintf("no end after %v", timeout), Detail: tail}
	case err != nil && strings.Contains(err.Error(), "signal: killed"):
		cr.res = Result{Verdict: "inconclusive", Msg: "worker was killed (memory?)", Detail: tail}
	case err != nil:
		first := ""
		for _, l := range strings.Split(tail, "\n") {
			if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") {
				first = l
				break
			}
		}
		cr.res = Result{Verdict: "violation", Msg: fmt.Sprintf("the process crashed: %v: %s", err, first), Detail: tail}
	default:
		cr.res = Result{Verdict: "inconclusive", Msg: "no result", Detail: out + tail}
	}
	if racePath != "" && cr.res.Verdict != "cancelled" && !strings.Contains(cr.res.Msg, "concurrent map") {
		onlyRaces(&cr.res)
		checkRaces(racePath, &cr.res)
	}
	return cr
}

// onlyRaces drops a verdict which is not about races: the scenarios of other properties run slower here.
func onlyRaces(res *Result) {
	if res.Stats == nil {
		res.Stats = map[string]int64{}
	}
	if res.Verdict != "ok" {
		res.Stats["other_verdicts_ignored"]++
		res.Verdict, res.Msg, res.Detail = "ok", "", ""
	}
	res.Known = nil
}

// checkRaces reads the reports of the race detector; one with an access in the library is a violation.
// A run where the harness itself has a race tells nothing: it may have passed something to the library unsynchronized.
func checkRaces(path string, res *Result) {
	files, _ := filepath.Glob(path + "*")
	n, own := int64(0), int64(0)
	first := ""
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		for _, blk := range strings.Split(string(b), "==================") {
			if !strings.Contains(blk, "WARNING: DATA RACE") {
				continue
			}
			n++
			switch {
			case strings.Contains(blk, ").GetConnections"): // documented as not safe for concurrent use.
			case raceOfLibrary(blk):
				if first == "" {
					first = blk
				}
			default:
				own++
				if p := os.Getenv("VH_RACES"); p != "" {
					if f, err := os.OpenFile(p, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644); err == nil {
						f.WriteString(blk)
						f.Close()
					}
				}
			}
		}
	}
	if first != "" && own == 0 {
		res.Verdict, res.Msg, res.Detail = "violation", "data race in the library", first
	}
	if res.Stats == nil {
		res.Stats = map[string]int64{}
	}
	res.Stats["race_reports"] += n
	res.Stats["race_reports_of_the_harness"] += own
}

// raceOfLibrary reports whether both accesses of the report happen below (or in) a library function, or one of
// them is in the library itself.
func raceOfLibrary(blk string) bool {
	// sections: "Write at", "Previous read at", then "Goroutine ... created at".
	var top []string // the innermost non-runtime frame of each access.
	atomics := -1    // the access that is atomic: the detector loses the immediate caller of these.
	lines := strings.Split(blk, "\n")
	for i := 0; i < len(lines); i++ {
		l := strings.TrimSpace(lines[i])
		isAccess := strings.HasPrefix(l, "Read at") || strings.HasPrefix(l, "Write at") || strings.HasPrefix(l, "Previous read") || strings.HasPrefix(l, "Previous write") ||
			strings.HasPrefix(l, "Atomic") || strings.HasPrefix(l, "Previous atomic")
		if !isAccess {
			continue
		}
		for j := i + 1; j < len(lines); j += 2 {
			f := strings.TrimSpace(lines[j])
			if f == "" {
				break
			}
			if strings.HasPrefix(f, "sync/atomic.") {
				atomics = len(top)
			}
			if strings.HasPrefix(f, "runtime.") || strings.HasPrefix(f, "sync/atomic.") || strings.HasPrefix(f, "internal/") {
				continue
			}
			// the first frame which is the library's or the harness'.
			if strings.Contains(f, "kataras/neffos") || strings.HasPrefix(f, "main.") {
				top = append(top, f)
				break
			}
		}
	}
	if atomics >= 0 && len(top) == 2 && strings.HasPrefix(top[1-atomics], "main.") {
		return false // a variable of the harness, the atomic access has been done by a callback of it.
	}
	for _, f := range top {
		if strings.Contains(f, "kataras/neffos") {
			return true
		}
	}
	return false
}

func loadKnown(path, prop string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		// known: property=C19 key=xyz text
		if !strings.HasPrefix(l, "known: property="+prop+" key=") {
			continue
		}
		rest := strings.TrimPrefix(l, "known: property="+prop+" key=")
		k, text, _ := strings.Cut(rest, " ")
		m[k] = text
	}
	return m
}

func drive(prop, tier string, seed int64, noiseBin, out, knownFile string, max int, keep bool, from int) int {
	p := props[prop]
	if p == nil {
		fmt.Println("unknown property", prop)
		return 2
	}
	start := time.Now()
	n := p.Quick
	if tier == "thorough" {
		n = p.Thorough
		if n == 0 {
			n = p.Quick * 12
		}
	}
	if max > 0 && n > max {
		n = max
	}
	par := p.Par
	if par == 0 {
		par = 8
	}
	if v, err := strconv.Atoi(os.Getenv("VH_PAR")); err == nil && v > 0 {
		par = v
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	known := loadKnown(knownFile, prop)

	var mu sync.Mutex
	var runs []caseRun
	var bad *caseRun
	next := from
	var retry []int
	var wg sync.WaitGroup
	handle := func(cr caseRun) {
		mu.Lock()
		defer mu.Unlock()
		switch cr.res.Verdict {
		case "cancelled":
			return
		case "timeout":
			retry = append(retry, cr.id)
			return
		case "inconclusive":
			retry = append(retry, cr.id)
			return
		case "violation":
			if keep {
				fmt.Printf("case %d (noise %v): %s\n", cr.id, cr.noise, cr.res.Msg)
			}
			if bad == nil {
				c := cr
				bad = &c
				if !keep {
					cancel()
				}
			}
		}
		for _, k := range cr.res.Known {
			if _, ok := known[k]; !ok && bad == nil {
				c := cr
				c.res.Verdict = "violation"
				c.res.Msg = "unlisted finding: " + k
				bad = &c
				cancel()
			}
		}
		runs = append(runs, cr)
	}
	for i := 0; i < par; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				id := next
				next++
				enough := len(retry) >= 4 // nothing ends: decide it now, alone.
				mu.Unlock()
				if enough || id >= from+n || ctx.Err() != nil {
					return
				}
				handle(runCase(ctx, p, id, tier, seed, noiseBin, 150*time.Second))
			}
		}()
	}
	wg.Wait()
	// again, alone, what gave no answer.
	incon := 0
	var inconMsg string
	if bad == nil {
		again := retry
		retry = nil
		for k, id := range again {
			if k >= 4 {
				incon += len(again) - k
				break
			}
			cr := runCase(ctx, p, id, tier, seed, noiseBin, 180*time.Second)
			if cr.res.Verdict == "timeout" {
				// a case takes seconds; twice, the second time alone, it did not end in minutes.
				cr.res.Verdict = "violation"
				cr.res.Msg = "no progress to the end of the case, twice: " + cr.res.Msg
			}
			if cr.res.Verdict == "inconclusive" {
				incon++
				inconMsg = cr.res.Msg + "\n" + cr.res.Detail
				continue
			}
			handle(cr)
			if bad != nil {
				break
			}
		}
	}

	// evidence.
	var events, checks int64
	stats := map[string]int64{}
	sigs := map[string]bool{}
	samples := []string{}
	seenKnown := map[string]bool{}
	noiseRuns := 0
	sort.Slice(runs, func(i, j int) bool { return runs[i].id < runs[j].id })
	var slowest time.Duration
	for _, r := range runs {
		events += r.res.Events
		checks += r.res.Checks
		for k, v := range r.res.Stats {
			stats[k] += v
		}
		if r.res.Nontrivial {
			sigs[r.res.Sig] = true
			if len(samples) < 5 && r.res.Sample != "" {
				samples = append(samples, fmt.Sprintf("case %d: %s", r.id, r.res.Sample))
			}
		}
		for _, k := range r.res.Known {
			seenKnown[k] = true
		}
		if r.noise {
			noiseRuns++
		}
		if r.wall > slowest {
			slowest = r.wall
		}
	}
	violations := 0
	if bad != nil {
		violations = 1
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": map[string]interface{}{
			"evaluations": len(runs), "distinct_nontrivial": len(sigs), "rule": p.Rule, "samples": samples,
			"monitored_events": events, "oracle_checks": checks, "observed": stats, "noise_runs": noiseRuns,
			"inconclusive": incon, "slowest_case_s": slowest.Seconds(),
		},
		"assumptions": append([]string{"held on the executions that were observed, nothing is claimed for schedules and inputs that were not produced"}, p.Assume...),
		"wall_s":      time.Since(start).Seconds(), "violations": violations,
	}
	os.MkdirAll(out, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(out, prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println(err)
		return 2
	}
	for k := range seenKnown {
		if text, ok := known[k]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, text)
		}
	}
	fmt.Printf("%s %s: %d cases (%d noise), %d distinct non-trivial, %d events, %d checks, %d inconclusive, slowest %.1fs, %.1fs\n",
		prop, tier, len(runs), noiseRuns, len(sigs), events, checks, incon, slowest.Seconds(), time.Since(start).Seconds())
	if bad != nil {
		dir := filepath.Join(out, "replay")
		os.MkdirAll(dir, 0o755)
		path := filepath.Join(dir, fmt.Sprintf("%s-case%d.txt", prop, bad.id))
		os.WriteFile(path, []byte(fmt.Sprintf("property %s, case %d, seed %d, tier %s, noise %v\nreplay: ./check.sh --replay %s %d (VERIF_SEED=%d VERIF_TIER=%s)\n\n%s\n\ncase: %s\n\n%s\n",
			prop, bad.id, seed, tier, bad.noise, prop, bad.id, seed, tier, bad.res.Msg, bad.res.Sample, bad.res.Detail)), 0o644)
		fmt.Printf("case %d: %s\n", bad.id, bad.res.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		return 1
	}
	if incon > 0 && (incon*5 > n || incon > 3) {
		fmt.Printf("inconclusive: %s\n", inconMsg)
		return 2
	}
	if len(sigs) == 0 {
		fmt.Println("nothing was observed")
		return 2
	}
	return 0
}
