package main

// simcheck: seeded deterministic simulation of xmlwriter under injected faults.
//
//	simcheck check  -prop C01 -tier quick -seed 1 -verif /verif
//	simcheck replay FILE            re-execute a replay file (exit 1: violated)
//	simcheck one    -prop C01 -seed 1 -index 7 [-v]
//	simcheck self   -prop C01 -seed 1      determinism self-test

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Ctx collects what one simulated run did.
type Ctx struct {
	Log   *hasher
	Fired map[string]int
	Probe map[string]int
	Steps int
	Calls int
}

func newCtx() *Ctx { return &Ctx{Log: newHasher(), Fired: map[string]int{}, Probe: map[string]int{}} }

func (x *Ctx) probe(s string) { x.Probe[s]++ }

// run simulates one writer.
func (x *Ctx) run(c *WCfg, set func(r *Run)) *Run {
	r := newRun(c, x.Log)
	if set != nil {
		set(r)
	}
	r.run()
	x.absorb(r)
	return r
}

func (x *Ctx) absorb(r *Run) {
	for k, v := range r.W.fired {
		x.Fired[k] += v
	}
	x.Steps += r.W.total
	x.Calls += len(r.Res)
	if r.M.maxDepth > 8 {
		x.probe("deeper than the initial node stack")
	}
	if r.Stopped != "" {
		x.probe("stopped: " + r.Stopped)
	}
}

// Prop is one decided property.
type Prop struct {
	ID              string
	Gen             func(r *Rand, idx int) *Scenario
	Check           func(sc *Scenario, x *Ctx) *Violation
	Quick, Thorough int
	Rule            string
	Real, Stub      string
	Faults          []string // fault kinds configured here
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

func scenarioFor(p *Prop, seed uint64, idx int) *Scenario {
	r := NewRand(seed, hashStr(p.ID), uint64(idx))
	sc := p.Gen(r, idx)
	for i := range sc.W {
		disguise(r, sc.W[i].Faults)
	}
	sc.Prop, sc.Seed, sc.Index = p.ID, seed, idx
	return sc
}

// evaluate runs a scenario; harness panics are errors of the check.
func evaluate(sc *Scenario, keep bool) (v *Violation, x *Ctx) {
	x = newCtx()
	x.Log.keep = keep
	defer func() {
		if p := recover(); p != nil {
			// (calls are guarded one by one; this is opening a writer, or the harness)
			if !strings.Contains(string(debug.Stack()), "shabbyrobe/xmlwriter.") {
				panic(p)
			}
			v = viol("panic", "the writer panicked outside of a call: %v", p)
		}
	}()
	v = props[sc.Prop].Check(sc, x)
	return v, x
}

const (
	exitHang = 42
	exitMem  = 43
	cpuLimit = 5 * time.Second // CPU time for one simulated run (they take about 1 ms)
	memLimit = 3 << 30
)

var curIndex atomic.Int64

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// blockLimit is for a run that waits, and uses no processor, for ever.
const blockLimit = 75 * time.Second

// watchdog ends this process when one run burns CPU or memory, or waits, without
// bound.
func watchdog() {
	debug.SetMaxStack(64 << 20)
	go func() {
		last, since, wall := int64(-1), cpuTime(), time.Now()
		for {
			time.Sleep(100 * time.Millisecond)
			if i := curIndex.Load(); i != last {
				last, since, wall = i, cpuTime(), time.Now()
			} else if cpuTime()-since > cpuLimit || time.Since(wall) > blockLimit {
				os.Exit(exitHang)
			}
			b, _ := os.ReadFile("/proc/self/statm")
			var size, rss int64
			fmt.Sscan(string(b), &size, &rss)
			if rss*4096 > memLimit {
				os.Exit(exitMem)
			}
		}
	}()
}

// WorkerOut is what a worker process reports.
type WorkerOut struct {
	Runs, Calls, Steps int
	Fired, Probe       map[string]int
	FiredRuns          map[string]int
	V                  *Violation
	VIndex             int
	Samples            []json.RawMessage
	Seams              int
}

func worker(args []string) int {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	from := fs.Int("from", 0, "")
	to := fs.Int("to", 0, "")
	stride := fs.Int("stride", 1, "")
	prog := fs.String("progress", "", "")
	hashes := fs.String("hashes", "", "")
	deadline := fs.Int("deadline", 600, "")
	fs.Parse(args)
	watchdog()
	p := props[*prop]
	pf, err := os.Create(*prog)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var hb []byte
	out := &WorkerOut{Fired: map[string]int{}, Probe: map[string]int{}, FiredRuns: map[string]int{}, VIndex: -1}
	end := time.Now().Add(time.Duration(*deadline) * time.Second)
	var ib [8]byte
	for i := *from; i < *to; i += *stride {
		if i&63 == 0 && time.Now().After(end) {
			break
		}
		binary.LittleEndian.PutUint64(ib[:], uint64(i))
		pf.WriteAt(ib[:], 0)
		curIndex.Store(int64(i))
		sc := scenarioFor(p, *seed, i)
		v, x := evaluate(sc, false)
		out.Runs++
		out.Calls += x.Calls
		out.Steps += x.Steps
		for k, n := range x.Fired {
			out.Fired[k] += n
			out.FiredRuns[k]++
		}
		for k, n := range x.Probe {
			out.Probe[k] += n
		}
		hb = binary.LittleEndian.AppendUint64(hb, uint64(i))
		hb = binary.LittleEndian.AppendUint64(hb, x.Log.h)
		nt := uint64(0)
		if x.Log.n > 0 && x.Calls > 0 {
			nt = 1
		}
		hb = binary.LittleEndian.AppendUint64(hb, nt)
		if len(out.Samples) < 2 && i > *from {
			b, _ := json.Marshal(sc)
			if len(b) < 2500 {
				out.Samples = append(out.Samples, b)
			}
		}
		if v != nil {
			out.V, out.VIndex = v, i
			break
		}
	}
	os.WriteFile(*hashes, hb, 0644)
	json.NewEncoder(os.Stdout).Encode(out)
	return 0
}

type child struct {
	code int
	out  []byte
	err  string
}

func spawn(timeout time.Duration, args ...string) child {
	self, _ := os.Executable()
	c := exec.Command(self, args...)
	var eb strings.Builder
	c.Stderr = &limited{&eb}
	c.Env = append(os.Environ(), "GOMAXPROCS=2", "GOGC=200")
	done := make(chan struct{})
	var ob []byte
	var err error
	go func() { ob, err = c.Output(); close(done) }()
	select {
	case <-done:
	case <-time.After(timeout):
		if c.Process != nil {
			c.Process.Kill()
		}
		<-done
		return child{-2, ob, "timeout " + eb.String()}
	}
	code := 0
	if err != nil {
		code = -1
		if ee, ok := err.(*exec.ExitError); ok {
			code = ee.ExitCode()
		}
	}
	return child{code, ob, eb.String()}
}

type limited struct{ b *strings.Builder }

func (l *limited) Write(p []byte) (int, error) {
	if l.b.Len() < 8000 {
		l.b.Write(p)
	}
	return len(p), nil
}

// hardClass interprets a process death while simulating one run.
func hardClass(c child) string {
	switch {
	case c.code == exitHang:
		return "hang"
	case c.code == exitMem:
		return "hang"
	case c.code == 2 && (strings.Contains(c.err, "stack overflow") || strings.Contains(c.err, "stack exceeds") || strings.Contains(c.err, "fatal error: all goroutines are asleep")):
		return "crash"
	}
	return ""
}

func usage() int { fmt.Fprintln(os.Stderr, "usage: simcheck check|replay|one|self ..."); return 2 }

// modes are further commands.
var modes = map[string]func(args []string) int{}

func main() {
	if len(os.Args) < 2 {
		os.Exit(usage())
	}
	cmd, args := os.Args[1], os.Args[2:]
	code := 2
	switch cmd {
	case "check":
		code = check(args)
	case "worker":
		code = worker(args)
	case "one":
		code = one(args)
	case "inner": // replay in this very process
		code = inner(args)
	case "replay":
		code = replay(args)
	case "shrink":
		code = shrinkMain(args)
	case "self":
		code = selfTest(args)
	case "props":
		for _, id := range propIDs() {
			fmt.Println(id)
		}
		code = 0
	default:
		if f := modes[cmd]; f != nil {
			code = f(args)
		} else {
			code = usage()
		}
	}
	os.Exit(code)
}

func propIDs() []string {
	var l []string
	for k := range props {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func one(args []string) int {
	fs := flag.NewFlagSet("one", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	idx := fs.Int("index", 0, "")
	verbose := fs.Bool("v", false, "")
	save := fs.String("save", "", "")
	fs.Parse(args)
	watchdog()
	sc := scenarioFor(props[*prop], *seed, *idx)
	if *save != "" {
		if err := sc.save(*save); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	return report(sc, *verbose)
}

func report(sc *Scenario, verbose bool) int {
	if p := sc.Prior; p != nil {
		for i := p.From; i < p.To; i += max(1, p.Stride) {
			curIndex.Store(int64(i))
			evaluate(scenarioFor(props[sc.Prop], sc.Seed, i), false)
		}
	}
	curIndex.Store(-1)
	v, x := evaluate(sc, verbose)
	if verbose {
		b, _ := json.MarshalIndent(sc, "", " ")
		fmt.Println(string(b))
		for _, l := range x.Log.text {
			fmt.Println("  ", l)
		}
		fmt.Println("fired", x.Fired, "probes", x.Probe)
	}
	fmt.Printf("log=%016x events=%d calls=%d\n", x.Log.h, x.Log.n, x.Calls)
	if v != nil {
		fmt.Printf("CLASS %s\n%s\n", v.Class, v.Msg)
		return 1
	}
	fmt.Println("held")
	return 0
}

func inner(args []string) int {
	watchdog()
	sc, err := loadScenario(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	return report(sc, len(args) > 1)
}

// outcome of a scenario file in a fresh process: its class ("" if it held), a
// message and the event log hash.
func outcome(path string) (class, msg, hash string, err error) {
	c := spawn(5*time.Minute, "inner", path)
	s := string(c.out)
	if i := strings.Index(s, "log="); i >= 0 && len(s) >= i+20 {
		hash = s[i+4 : i+20]
	}
	switch c.code {
	case 0:
		return "", "", hash, nil
	case 1:
		_, rest, _ := strings.Cut(s, "CLASS ")
		class, msg, _ = strings.Cut(rest, "\n")
		return class, strings.TrimSpace(msg), hash, nil
	}
	if h := hardClass(c); h != "" {
		return h, "the process running it did not survive: " + firstLine(c.err), "", nil
	}
	return "", "", "", fmt.Errorf("replay process ended with code %d: %s", c.code, c.err)
}

func firstLine(s string) string {
	l, _, _ := strings.Cut(s, "\n")
	return l
}

func replay(args []string) int {
	sc, err := loadScenario(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	class, msg, hash, err := outcome(args[0])
	for k := 1; k < sc.Tries && err == nil && class == ""; k++ {
		class, msg, hash, err = outcome(args[0])
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if class == "" {
		fmt.Printf("property %s held on this history (log %s)\n", sc.Prop, hash)
		return 0
	}
	fmt.Printf("property %s violated [%s]: %s\n", sc.Prop, class, msg)
	if sc.LogHash != "" && hash != "" {
		fmt.Printf("event log %s, recorded %s\n", hash, sc.LogHash)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", sc.Prop, args[0])
	return 1
}

type finding struct{ file, what string }

func knownFindings(verif, prop string) []finding {
	b, err := os.ReadFile(filepath.Join(verif, "KNOWN_FINDINGS.txt"))
	if err != nil {
		return nil
	}
	var l []finding
	for _, line := range strings.Split(string(b), "\n") {
		f := strings.Fields(line)
		if len(f) < 4 || f[0] != "finding:" || f[1] != "property="+prop || !strings.HasPrefix(f[2], "replay=") {
			continue
		}
		l = append(l, finding{filepath.Join(verif, strings.TrimPrefix(f[2], "replay=")), strings.Join(f[3:], " ")})
	}
	return l
}

func check(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	verif := fs.String("verif", "/verif", "")
	tmp := fs.String("tmp", os.TempDir(), "")
	workers := fs.Int("workers", 8, "")
	scale := fs.Float64("scale", 1, "")
	fs.Parse(args)
	p := props[*prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		return 2
	}
	start := time.Now()
	fmt.Printf("property=%s tier=%s seed=%d\n", p.ID, *tier, *seed)
	n, deadline := p.Quick, 420
	if *tier == "thorough" {
		n, deadline = p.Thorough, 6*3600
	}
	n = int(float64(n) * *scale)
	dir, err := os.MkdirTemp(*tmp, "simrun")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	deadlineT := start.Add(time.Duration(deadline) * time.Second)

	outs := make([]*WorkerOut, *workers)
	kids := make([]child, *workers)
	var wg sync.WaitGroup
	for k := 0; k < *workers; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			kids[k] = spawn(time.Until(deadlineT)+2*time.Minute, "worker", "-prop", p.ID, "-seed", fmt.Sprint(*seed),
				"-from", fmt.Sprint(k), "-to", fmt.Sprint(n), "-stride", fmt.Sprint(*workers),
				"-progress", fmt.Sprintf("%s/p%d", dir, k), "-hashes", fmt.Sprintf("%s/h%d", dir, k), "-deadline", fmt.Sprint(deadline))
			if kids[k].code == 0 {
				o := &WorkerOut{}
				if json.Unmarshal(kids[k].out, o) == nil {
					outs[k] = o
				}
			}
		}(k)
	}
	wg.Wait()

	tot := &WorkerOut{Fired: map[string]int{}, Probe: map[string]int{}, FiredRuns: map[string]int{}, VIndex: -1}
	perIndex := map[uint64]uint64{}
	distinct := map[uint64]bool{}
	var hard []int // indices at which a worker died
	how := map[int]string{}
	for k, o := range outs {
		if o == nil {
			if hardClass(kids[k]) == "" {
				fmt.Fprintf(os.Stderr, "simcheck: worker %d ended with code %d: %s\n", k, kids[k].code, kids[k].err)
				return 2
			}
			b, err := os.ReadFile(fmt.Sprintf("%s/p%d", dir, k))
			if err != nil || len(b) < 8 {
				fmt.Fprintln(os.Stderr, "simcheck: worker left no position")
				return 2
			}
			hard = append(hard, int(binary.LittleEndian.Uint64(b)))
			how[hard[len(hard)-1]] = hardClass(kids[k])
			continue
		}
		tot.Runs += o.Runs
		tot.Calls += o.Calls
		tot.Steps += o.Steps
		for a, b := range o.Fired {
			tot.Fired[a] += b
		}
		for a, b := range o.FiredRuns {
			tot.FiredRuns[a] += b
		}
		for a, b := range o.Probe {
			tot.Probe[a] += b
		}
		if len(tot.Samples) < 3 {
			tot.Samples = append(tot.Samples, o.Samples...)
		}
		if o.V != nil && (tot.VIndex < 0 || o.VIndex < tot.VIndex) {
			tot.V, tot.VIndex = o.V, o.VIndex
		}
		hb, _ := os.ReadFile(fmt.Sprintf("%s/h%d", dir, k))
		for i := 0; i+24 <= len(hb); i += 24 {
			h := binary.LittleEndian.Uint64(hb[i+8:])
			perIndex[binary.LittleEndian.Uint64(hb[i:])] = h
			if hb[i+16] == 1 {
				distinct[h] = true
			}
		}
	}
	explored := time.Since(start).Seconds()

	code := 0
	violations := 0
	var vmsg string
	reportV := func(sc *Scenario, class, msg string) {
		violations++
		path := minimise(sc, class, msg, *verif, dir, *workers)
		if path == "" {
			code = 2
			return
		}
		code = 1
		vmsg = fmt.Sprintf("VIOLATION property=%s replay=%s", p.ID, path)
	}

	sort.Ints(hard)
	for _, idx := range hard {
		if tot.VIndex >= 0 && tot.VIndex < idx {
			continue
		}
		sc := scenarioFor(p, *seed, idx)
		f := filepath.Join(dir, "hard.json")
		sc.save(f)
		class, msg, _, err := outcome(f)
		if err != nil || class == "" { // it takes earlier runs
			fmt.Fprintf(os.Stderr, "simcheck: a worker died at run %d, which does not fail alone (%v)\n", idx, err)
			class, msg = how[idx], "the process did not survive"
		}
		reportV(sc, class, msg)
		break
	}
	if code == 0 && tot.V != nil {
		fmt.Printf("run %d: [%s] %s\n", tot.VIndex, tot.V.Class, tot.V.Msg)
		reportV(scenarioFor(p, *seed, tot.VIndex), tot.V.Class, tot.V.Msg)
	}

	// the same seeds again, in another process with another split: the event logs must agree
	rechecked, differing := 0, 0
	if code == 0 {
		step := n/300 + 1
		c := spawn(10*time.Minute, "worker", "-prop", p.ID, "-seed", fmt.Sprint(*seed), "-from", "1", "-to", fmt.Sprint(n), "-stride", fmt.Sprint(step),
			"-progress", dir+"/px", "-hashes", dir+"/hx")
		hb, err := os.ReadFile(dir + "/hx")
		if c.code != 0 || err != nil {
			fmt.Fprintf(os.Stderr, "simcheck: re-execution ended with code %d: %s\n", c.code, c.err)
			return 2
		}
		for i := 0; i+24 <= len(hb); i += 24 {
			idx := binary.LittleEndian.Uint64(hb[i:])
			if h, ok := perIndex[idx]; ok {
				rechecked++
				if h != binary.LittleEndian.Uint64(hb[i+8:]) {
					differing++
				}
			}
		}
	}

	determinism := fmt.Sprintf("%d runs re-executed in another process, event logs identical", rechecked)
	if differing > 0 { // not a violation of any property: none was seen in either execution
		determinism = fmt.Sprintf("%d runs re-executed in another process after other runs; %d event logs differ: the tree under test keeps state across writers, or is not deterministic", rechecked, differing)
		fmt.Println("note:", determinism)
	}

	// listed findings
	nf := 0
	if code == 0 {
		for _, f := range knownFindings(*verif, p.ID) {
			class, _, _, err := outcome(f.file)
			if err != nil {
				fmt.Fprintln(os.Stderr, "simcheck:", err)
				return 2
			}
			if class != "" {
				nf++
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, f.what)
			}
		}
	}

	wall := time.Since(start).Seconds()
	fired := map[string]any{}
	for _, k := range append(keys(tot.Fired), p.Faults...) {
		if !strings.HasPrefix(k, "~") {
			fired[k] = map[string]int{"injected": tot.Fired[k], "in_runs": tot.FiredRuns[k]}
		}
	}
	samples := []any{}
	for _, s := range tot.Samples {
		if len(samples) < 3 {
			samples = append(samples, s)
		}
	}
	ev := map[string]any{
		"property": p.ID, "tier": *tier, "seed": *seed, "level": "exploration",
		"coverage": map[string]any{
			"evaluations":         tot.Runs,
			"distinct_nontrivial": len(distinct),
			"rule":                p.Rule + " One run is one scenario derived from (seed, property, run index) by one PRNG. Distinct: different event-log hash (every call with its outcome and resulting depth, every sink, indenter and encoder crossing with its sizes, every fault). Non-trivial: at least one call reached the writer.",
			"samples":             samples,
			"runs_planned":        n,
			"runs_per_hour":       int(float64(tot.Runs) / explored * 3600),
			"seeds":               map[string]any{"VERIF_SEED": *seed, "run_indices": fmt.Sprintf("0..%d", n-1)},
			"simulated_calls":     tot.Calls,
			"simulated_time":      fmt.Sprintf("%d seam crossings (sink writes, indenter callbacks, encoder steps): the system has no clock, so progress is counted in crossings", tot.Steps),
			"faults":              fired,
			"probes":              tot.Probe,
			"interleavings":       fmt.Sprintf("%d distinct event logs among %d runs", len(distinct), tot.Runs),
			"determinism":         determinism,
			"components_real":     p.Real,
			"components_stub":     p.Stub,
			"known_findings":      nf,
		},
		"assumptions": []string{
			"the reference model (sim/model.go) states the documented serialisation; it was written from the documentation and validated against the unchanged tree",
			"golang.org/x/text v0.3.2 and bufio are trusted",
		},
		"wall_s": wall, "violations": violations,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(*verif, "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(*verif, "evidence", p.ID+".json"), append(b, '\n'), 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%d runs (%d distinct), %d calls, %d seam crossings, %.1f s\n", tot.Runs, len(distinct), tot.Calls, tot.Steps, wall)
	if vmsg != "" {
		fmt.Println(vmsg)
	}
	if code == 0 && tot.Runs == 0 {
		return 2
	}
	return code
}

func keys(m map[string]int) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// minimise shrinks a violating scenario in a child process, saves the replay
// file and proves that it fails the same way in a fresh process.
func minimise(sc *Scenario, class, msg, verif, dir string, workers int) string {
	rd := filepath.Join(verif, "replays")
	os.MkdirAll(rd, 0755)
	path := filepath.Join(rd, fmt.Sprintf("%s-seed%d-run%d.json", sc.Prop, sc.Seed, sc.Index))
	raw := filepath.Join(dir, "raw.json")
	min := filepath.Join(dir, "min.json")
	sc.Class, sc.Message = class, msg
	if err := sc.save(raw); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return ""
	}
	c := spawn(100*time.Second, "shrink", raw, min, "60")
	if c.code != 0 {
		fmt.Fprintf(os.Stderr, "simcheck: minimising ended early (code %d) %s\n", c.code, firstLine(c.err))
	}
	for _, f := range []string{min, raw} {
		s, err := loadScenario(f)
		if err != nil {
			continue
		}
		cl, m, h, err := outcome(f)
		if err != nil || cl != class {
			continue
		}
		s.Class, s.Message, s.LogHash = cl, m, h
		if err := s.save(path); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return ""
		}
		cl2, _, h2, err := outcome(path)
		if err != nil || cl2 != cl || h2 != h {
			continue
		}
		fmt.Printf("minimised: [%s] %s\n", cl, m)
		return path
	}
	// the tree under test may not be deterministic itself (the order of a map,
	// say): the replay then takes as many processes as it needs
	for _, f := range []string{min, raw} {
		s, err := loadScenario(f)
		if err != nil {
			continue
		}
		for k := 1; k <= 40; k++ {
			cl, m, _, err := outcome(f)
			if err != nil || cl != class {
				continue
			}
			s.Class, s.Message, s.LogHash, s.Tries = cl, m, "", 50
			if err := s.save(path); err != nil {
				fmt.Fprintln(os.Stderr, err)
				return ""
			}
			fmt.Printf("minimised, reproduced at try %d (the tree under test is not deterministic): [%s] %s\n", k, cl, m)
			return path
		}
	}
	// it depends on what went before in the same process: with as many of the
	// preceding runs as it takes
	for k := 1; ; k *= 4 {
		from := sc.Index - k*workers
		if from < 0 {
			from = sc.Index % workers
		}
		sc.Prior = &Prior{from, sc.Index, workers}
		if err := sc.save(path); err != nil {
			break
		}
		cl, m, h, err := outcome(path)
		if err == nil && cl == class {
			sc.Message, sc.LogHash = m, h
			sc.save(path)
			if cl2, _, h2, err := outcome(path); err == nil && cl2 == cl && h2 == h {
				fmt.Printf("reproduced after %d earlier runs: [%s] %s\n", (sc.Index-from)/workers, cl, m)
				return path
			}
		}
		if from < workers {
			break
		}
	}
	os.Remove(path)
	fmt.Fprintln(os.Stderr, "simcheck: the violation does not reproduce in a fresh process")
	return ""
}

// selfTest runs the same seeds in processes with different splits and compares logs.
func selfTest(args []string) int {
	fs := flag.NewFlagSet("self", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	n := fs.Int("n", 2000, "")
	seeds := fs.Int("seeds", 8, "")
	fs.Parse(args)
	ids := propIDs()
	if *prop != "" {
		ids = []string{*prop}
	}
	dir, err := os.MkdirTemp("", "simself")
	if err != nil {
		return 2
	}
	defer os.RemoveAll(dir)
	bad := 0
	for _, id := range ids {
		total := 0
		for s := 1; s <= *seeds; s++ {
			ref := map[uint64]uint64{}
			for pass, split := range []int{1, 1, 3, 8} {
				got := map[uint64]uint64{}
				var wg sync.WaitGroup
				var mu sync.Mutex
				for k := 0; k < split; k++ {
					wg.Add(1)
					go func(k int) {
						defer wg.Done()
						h := fmt.Sprintf("%s/%d", dir, k)
						c := spawn(10*time.Minute, "worker", "-prop", id, "-seed", fmt.Sprint(s), "-from", fmt.Sprint(k), "-to", fmt.Sprint(*n), "-stride", fmt.Sprint(split), "-progress", h+"p", "-hashes", h)
						hb, _ := os.ReadFile(h)
						mu.Lock()
						defer mu.Unlock()
						if c.code != 0 {
							bad++
							fmt.Println(id, "worker", c.code, c.err)
						}
						for i := 0; i+24 <= len(hb); i += 24 {
							got[binary.LittleEndian.Uint64(hb[i:])] = binary.LittleEndian.Uint64(hb[i+8:])
						}
					}(k)
				}
				wg.Wait()
				if pass == 0 {
					ref = got
					total += len(ref)
					continue
				}
				for i, h := range ref {
					if got[i] != h {
						fmt.Printf("%s seed %d run %d: %x vs %x (split %d)\n", id, s, i, h, got[i], split)
						bad++
					}
				}
			}
		}
		fmt.Printf("%s: %d runs x 4 executions in 13 processes per seed, %d seeds\n", id, total, *seeds)
	}
	if bad > 0 {
		fmt.Println("NOT DETERMINISTIC:", bad)
		return 1
	}
	fmt.Println("deterministic")
	return 0
}
