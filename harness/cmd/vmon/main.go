// vmon runs the monitors of one property: it builds the library (through this
// module's replace directive) in the configurations the monitor needs, runs
// the case list in worker processes, merges verdicts and writes the evidence.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"a.verif/vmon/aasimd"
	"a.verif/vmon/mon"
)

var configs = map[string]mon.Config{
	"native":      {Name: "native"},
	"ssse3":       {Name: "ssse3", SIMD: "ssse3"},
	"sse2":        {Name: "sse2", SIMD: "sse2"},
	"none":        {Name: "none", SIMD: "none"},
	"noasm":       {Name: "noasm", Tags: "noasm"},
	"x386":        {Name: "x386", GOARCH: "386", Optional: true},
	"frozen":      {Name: "frozen", Tags: "frozen", Overlay: true},
	"warped":      {Name: "warped", Tags: "frozen", Overlay: true, Clock: 1_700_000_000_000_000_000},
	"faulty":      {Name: "faulty", Tags: "faulty", Overlay: true},
	"wished":      {Name: "wished", Tags: "wished", Overlay: true},
	"race":        {Name: "race", Race: true, Shards: 2, Procs: 8},
	"racenoasm":   {Name: "racenoasm", Race: true, Tags: "noasm", Shards: 2, Procs: 8},
	"stress":      {Name: "stress", Shards: 2, Procs: 8},
	"stressnoasm": {Name: "stressnoasm", Tags: "noasm", Shards: 2, Procs: 8},
}

type job struct {
	cfg   mon.Config
	shard int
	phase int
}

type outcome struct {
	job   job
	res   *mon.Result
	crash *mon.Violation
	err   string
	cpus  int
}

func main() {
	prop := flag.String("prop", "", "property id")
	worker := flag.Bool("worker", false, "run as worker")
	cfgName := flag.String("config", "native", "configuration name")
	dir := flag.String("dir", "", "scratch directory")
	out := flag.String("out", "", "result file")
	state := flag.String("state", "", "state file")
	seed := flag.Uint64("seed", 1, "seed")
	thorough := flag.Bool("thorough", false, "thorough tier")
	shard := flag.Int("shard", 0, "")
	shards := flag.Int("shards", 1, "")
	phase := flag.Int("phase", 0, "")
	stage := flag.String("stage", "", "only this stage")
	cas := flag.Int("case", 0, "only this case (with -stage)")
	verif := flag.String("verif", "/verif", "verification directory")
	verbose := flag.Bool("v", false, "verbose")
	only := flag.String("only", "", "only these configurations (debugging)")
	flag.BoolVar(&buildOnly, "buildonly", false, "build all configurations, run nothing")
	probe := flag.Bool("initprobe", false, "print the first random components of this process")
	fault := flag.String("faultprobe", "", "run operations while the entropy fails")
	quiet := flag.String("quietprobe", "", "run operations whose output is watched")
	limit := flag.String("limitprobe", "", "split a secret of more than 4 GiB with this entry point")
	flag.Parse()
	if *limit != "" {
		mon.LimitProbe(*limit)
		return
	}
	if *fault != "" {
		mon.FaultProbe(*fault)
		return
	}
	if *quiet != "" {
		mon.QuietProbe(*quiet)
		return
	}
	if *probe {
		mon.InitProbe()
		return
	}
	if *worker {
		mon.RunWorker(mon.WorkerOpts{Prop: *prop, Config: *cfgName, Dir: *dir, Out: *out, State: *state, Seed: *seed,
			Thorough: *thorough, Shard: *shard, Shards: *shards, Phase: *phase, OnlyStage: *stage, OnlyCase: *cas,
			Env: aasimd.Describe(), Race: configs[*cfgName].Race, Verbose: *verbose})
		return
	}
	os.Exit(parent(*prop, *dir, *seed, *thorough, *stage, *cas, *verif, *verbose, *only))
}

func fatal(format string, args ...any) int {
	fmt.Printf("CHECK-ERROR: "+format+"\n", args...)
	return 2
}

var buildOnly bool

// cutoff ends the remaining workers some time after the first violation.
var cutoff = make(chan struct{})

func (o outcome) violates(known map[string]string) bool {
	var l []mon.Violation
	if o.crash != nil {
		l = append(l, *o.crash)
	}
	if o.res != nil {
		l = append(l, o.res.Violations...)
	}
	for _, v := range l {
		if _, ok := known[v.Key]; !ok {
			return true
		}
	}
	return false
}

func parent(prop, dir string, seed uint64, thorough bool, stage string, cas int, verif string, verbose bool, only string) int {
	t0 := time.Now()
	m := mon.Monitors[prop]
	if m == nil {
		return fatal("unknown property %q", prop)
	}
	if dir == "" {
		return fatal("-dir missing")
	}
	names := m.Configs
	if len(names) == 0 {
		names = []string{"native"}
	}
	if only != "" {
		names = strings.Split(only, ",")
	}
	self, _ := os.Executable()
	bins := map[string]string{}
	skipped := map[string]string{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	var buildErr string
	building := map[string]bool{}
	binKey := func(c mon.Config) string { return fmt.Sprintf("t=%s,r=%v,a=%s", c.Tags, c.Race, c.GOARCH) }
	bins[binKey(mon.Config{})] = self
	for _, n := range names {
		c := configs[n]
		k := binKey(c)
		if bins[k] != "" || building[k] {
			continue
		}
		building[k] = true
		wg.Add(1)
		go func() {
			defer wg.Done()
			bin := filepath.Join(dir, "vmon-"+n)
			if b, err := build(c, bin, verif); err != nil {
				mu.Lock()
				if c.Optional {
					skipped[n] = "does not build: " + firstLine(b)
				} else {
					buildErr = fmt.Sprintf("building configuration %s failed: %v\n%s", n, err, b)
				}
				mu.Unlock()
				return
			}
			if c.Optional {
				if b, err := exec.Command(bin, "-h").CombinedOutput(); err != nil && !strings.Contains(string(b), "Usage") {
					mu.Lock()
					skipped[n] = "does not run: " + err.Error()
					mu.Unlock()
					return
				}
			}
			mu.Lock()
			bins[k] = bin
			mu.Unlock()
		}()
	}
	wg.Wait()
	if buildErr != "" {
		return fatal("%s", buildErr)
	}
	buildTime := time.Since(t0)
	if buildOnly {
		fmt.Printf("built in %.1fs\n", buildTime.Seconds())
		return 0
	}
	var use []mon.Config
	for _, n := range names {
		if _, sk := skipped[n]; !sk {
			use = append(use, configs[n])
		}
	}
	maxPhase := 0
	for _, s := range m.Stages {
		if s.Phase > maxPhase {
			maxPhase = s.Phase
		}
	}
	ncpu := runtime.NumCPU()
	if ncpu > 8 {
		ncpu = 8
	}
	known := loadKnown(filepath.Join(verif, "known_findings.txt"), prop)
	var outs []outcome
	var stopped atomic.Bool // a violation was found: start nothing more
	for ph := 0; ph <= maxPhase; ph++ {
		var light, heavy []job
		for _, c := range use {
			sh := c.Shards
			if sh == 0 {
				sh = 8
			}
			if stage != "" {
				sh = 1
			}
			for i := 0; i < sh; i++ {
				j := job{c, i, ph}
				if c.Procs > 1 {
					heavy = append(heavy, j)
				} else {
					light = append(light, j)
				}
			}
		}
		run := func(jobs []job, par int) {
			sem := make(chan struct{}, par)
			var wg sync.WaitGroup
			for _, j := range jobs {
				wg.Add(1)
				sem <- struct{}{}
				go func() {
					defer wg.Done()
					defer func() { <-sem }()
					if stopped.Load() {
						return
					}
					o := runWorker(j, bins[binKey(j.cfg)], prop, dir, seed, thorough, stage, cas, verbose)
					mu.Lock()
					outs = append(outs, o)
					mu.Unlock()
					if stage == "" && o.violates(known) && !stopped.Swap(true) {
						// the rest gets a little more time
						time.AfterFunc(45*time.Second, func() { close(cutoff) })
					}
				}()
			}
			wg.Wait()
		}
		run(light, ncpu)
		run(heavy, 2)
	}
	// merge
	total := mon.Result{Counts: map[string]int64{}}
	dist := map[uint64]struct{}{}
	var viol []mon.Violation
	var errs []string
	envs := map[string]string{}
	byCfg := map[string]int64{}
	sort.Slice(outs, func(a, b int) bool {
		x, y := outs[a].job, outs[b].job
		if x.phase != y.phase {
			return x.phase < y.phase
		}
		if x.cfg.Name != y.cfg.Name {
			return x.cfg.Name < y.cfg.Name
		}
		return x.shard < y.shard
	})
	for _, o := range outs {
		if o.crash != nil {
			o.crash.CPUs = o.cpus
		}
		if o.res != nil {
			for i := range o.res.Violations {
				o.res.Violations[i].CPUs = o.cpus
			}
		}
		if o.crash != nil {
			viol = append(viol, *o.crash)
		}
		if o.err != "" {
			errs = append(errs, fmt.Sprintf("%s shard %d phase %d: %s", o.job.cfg.Name, o.job.shard, o.job.phase, o.err))
		}
		if o.res == nil {
			continue
		}
		for k, v := range o.res.Counts {
			total.Counts[k] += v
		}
		total.Evals += o.res.Evals
		total.Cases += o.res.Cases
		byCfg[o.job.cfg.Name] += o.res.Evals
		for _, d := range o.res.Distinct {
			dist[d] = struct{}{}
		}
		if len(total.Samples) < 4 && len(o.res.Samples) > 0 {
			total.Samples = append(total.Samples, o.res.Samples[0])
		}
		viol = append(viol, o.res.Violations...)
		if o.res.Env != "" {
			envs[o.job.cfg.Name] = o.res.Env
		}
		if o.res.HarnessErr != "" {
			errs = append(errs, o.job.cfg.Name+": "+o.res.HarnessErr)
		}
	}
	if m.Final != nil && len(errs) == 0 && stage == "" && !stopped.Load() {
		var cn []string
		for _, c := range use {
			cn = append(cn, c.Name)
		}
		f := &mon.FinalCtx{Dir: dir, Configs: cn, Counts: total.Counts, Thorough: thorough, Seed: seed}
		m.Final(f)
		viol = append(viol, f.Viol...)
		total.Evals += f.AddEval
	}
	// known findings
	var fresh []mon.Violation
	seenKnown := map[string]bool{}
	for _, v := range viol {
		if d, ok := known[v.Key]; ok {
			if !seenKnown[v.Key] {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, d)
				seenKnown[v.Key] = true
			}
			continue
		}
		fresh = append(fresh, v)
	}
	code := 0
	for i, v := range fresh {
		if i >= 5 {
			fmt.Printf("... and %d more\n", len(fresh)-i)
			break
		}
		rp := writeReplay(verif, v, seed, thorough)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rp)
		fmt.Printf("  [%s/%s case %d, %s] %s\n", v.Config, v.Stage, v.Case, v.Key, v.Message)
		code = 1
	}
	if code == 0 && len(errs) > 0 {
		for _, e := range errs {
			fmt.Println("CHECK-ERROR:", e)
		}
		code = 2
	}
	if code == 0 && stage == "" && only == "" {
		for k, need := range m.Need {
			if total.Counts[k] < need {
				fmt.Printf("CHECK-ERROR: inconclusive: observed only %d %q events, need %d\n", total.Counts[k], k, need)
				code = 2
			}
		}
	}
	if stage == "" {
		writeEvidence(m, verif, seed, thorough, &total, len(dist), len(fresh), byCfg, envs, skipped, time.Since(t0))
	}
	tier := "quick"
	if thorough {
		tier = "thorough"
	}
	fmt.Printf("%s %s seed=%d: %d cases, %d evaluations, %d distinct, configs %v%s, build %.1fs, total %.1fs -> exit %d\n", prop, tier, seed,
		total.Cases, total.Evals, len(dist), keys(byCfg), skipNote(skipped), buildTime.Seconds(), time.Since(t0).Seconds(), code)
	return code
}

func skipNote(s map[string]string) string {
	if len(s) == 0 {
		return ""
	}
	return fmt.Sprintf(", skipped %v", s)
}

func keys(m map[string]int64) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func firstLine(b []byte) string {
	l := strings.SplitN(strings.TrimSpace(string(b)), "\n", 3)
	return strings.Join(l[:min(2, len(l))], " / ")
}

func build(c mon.Config, out, verif string) ([]byte, error) {
	tags := "verif"
	if c.Tags != "" {
		tags += "," + c.Tags
	}
	args := []string{"build", "-tags", tags, "-o", out}
	if mf := os.Getenv("VMON_MODFILE"); mf != "" {
		args = append(args, "-modfile", mf)
	}
	if c.Overlay {
		d := out + ".overlay"
		if err := os.Mkdir(d, 0o755); err != nil {
			return nil, err
		}
		f, err := overlay(d, c.Tags)
		if err != nil {
			return nil, err
		}
		args = append(args, "-overlay", f)
	}
	if c.Race {
		args = append(args, "-race")
	}
	args = append(args, "./cmd/vmon")
	cmd := exec.Command("go", args...)
	cmd.Dir = filepath.Join(verif, "harness")
	cmd.Env = os.Environ()
	if c.GOARCH != "" {
		cmd.Env = append(cmd.Env, "GOARCH="+c.GOARCH, "CGO_ENABLED=0")
	}
	return cmd.CombinedOutput()
}

// runWorker runs one worker process and classifies how it ended.
func runWorker(j job, bin, prop, dir string, seed uint64, thorough bool, stage string, cas int, verbose bool) outcome {
	sh := j.cfg.Shards
	if sh == 0 {
		sh = 8
	}
	base := filepath.Join(dir, fmt.Sprintf("w-%s-%d-%d", j.cfg.Name, j.phase, j.shard))
	args := []string{"-worker", "-prop", prop, "-config", j.cfg.Name, "-dir", dir, "-out", base + ".json", "-state", base + ".state",
		"-seed", strconv.FormatUint(seed, 10), "-shard", strconv.Itoa(j.shard), "-shards", strconv.Itoa(sh), "-phase", strconv.Itoa(j.phase)}
	if thorough {
		args = append(args, "-thorough")
	}
	if verbose {
		args = append(args, "-v")
	}
	if stage != "" {
		args = append(args, "-stage", stage, "-case", strconv.Itoa(cas))
	}
	cmd := exec.Command(bin, args...)
	// the processes see machines of different sizes
	procs := j.cfg.Procs
	cpus := 0
	if procs == 0 {
		procs = []int{2, 1, 3, 4, 2, 6, 5, 7}[j.shard%8]
		cpus = []int{0, 1, 2, 3, 0, 5, 6, 7}[j.shard%8]
	}
	if v, err := strconv.Atoi(os.Getenv("VMON_CPUS")); err == nil {
		cpus = v
	}
	cmd.Env = append(os.Environ(), "VMON_SIMD="+j.cfg.SIMD, "GOMAXPROCS="+strconv.Itoa(procs), "GOTRACEBACK=all",
		"GORACE=halt_on_error=0 exitcode=66 history_size=3")
	if j.cfg.Clock != 0 {
		cmd.Env = append(cmd.Env, "VMON_CLOCK="+strconv.FormatInt(j.cfg.Clock, 10))
	}
	var stderr limited
	cmd.Stderr = &stderr
	cmd.Stdout = nil // the library prints diagnostics
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	o := outcome{job: j}
	runtime.LockOSThread() // Pdeathsig is per thread
	defer runtime.UnlockOSThread()
	restore := limitCPUs(cpus, j.shard)
	err := cmd.Start()
	restore()
	if err != nil {
		o.err = err.Error()
		return o
	}
	o.cpus = cpus
	lim := 780 * time.Second
	if thorough {
		lim = 4 * time.Hour
	}
	var timedOut atomic.Bool
	t := time.AfterFunc(lim, func() { timedOut.Store(true); cmd.Process.Kill() })
	done := make(chan struct{})
	go func() {
		select {
		case <-cutoff:
			timedOut.Store(true)
			cmd.Process.Kill()
		case <-done:
		}
	}()
	err = cmd.Wait()
	close(done)
	t.Stop()
	if verbose && stderr.Len() > 0 {
		os.Stderr.Write(stderr.Bytes())
	}
	if b, e := os.ReadFile(base + ".json"); e == nil {
		var r mon.Result
		if json.Unmarshal(b, &r) == nil {
			o.res = &r
		}
	}
	text := stderr.String()
	st, cs, op := readState(base + ".state")
	mk := func(key, msg, stack string) *mon.Violation {
		return &mon.Violation{Property: prop, Key: key, Stage: st, Case: cs, Config: j.cfg.Name, Op: op, Message: msg, Stack: stack}
	}
	if i := strings.Index(text, "WARNING: DATA RACE"); i >= 0 {
		n := strings.Count(text, "WARNING: DATA RACE")
		rep := raceInLibrary(text)
		if rep != "" {
			o.crash = mk("data-race", fmt.Sprintf("race detector: %d report(s), first: %s", n, raceSummary(rep)), rep)
		} else {
			o.err = "data race outside the library (harness):\n" + text[i:min(len(text), i+3000)]
		}
		return o
	}
	if err == nil && o.res != nil && o.res.Done {
		return o
	}
	if o.res != nil && (len(o.res.Violations) > 0 || o.res.HarnessErr != "") {
		return o
	}
	if timedOut.Load() {
		o.err = "wall-clock watchdog: worker did not finish (inconclusive), in " + st + " " + op
		return o
	}
	// crashed: was the library running?
	for _, mark := range []string{"fatal error:", "panic:", "SIGSEGV", "SIGBUS", "unexpected fault", "checkptr", "SIGABRT"} {
		if i := strings.Index(text, mark); i >= 0 {
			if strings.Contains(text, "github.com/fadhilkurnia/shamir/") {
				end := min(len(text), i+6000)
				o.crash = mk("crash", "the process crashed in the library: "+firstLine([]byte(text[i:end])), text[i:end])
				return o
			}
			break
		}
	}
	// log.Fatal inside the library ends the process with status 1
	if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 1 && op != "" {
		o.crash = mk("exit", "the library ended the process during "+op+": "+firstLine([]byte(text)), text)
		return o
	}
	o.err = fmt.Sprintf("worker ended with %v in %s %d %s: %s", err, st, cs, op, tail(text, 3000))
	return o
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func readState(path string) (string, int, string) {
	b, err := os.ReadFile(path)
	if err != nil {
		return "", 0, ""
	}
	p := bytes.SplitN(b, []byte{0}, 4)
	if len(p) < 3 {
		return "", 0, ""
	}
	n, _ := strconv.Atoi(string(p[1]))
	return string(p[0]), n, string(p[2])
}

// raceInLibrary returns the first report with a library frame among the two
// conflicting accesses.
func raceInLibrary(text string) string {
	for _, r := range strings.Split(text, "==================") {
		if !strings.Contains(r, "WARNING: DATA RACE") {
			continue
		}
		acc := r
		if i := strings.Index(acc, "Goroutine "); i >= 0 {
			acc = acc[:i]
		}
		if strings.Contains(acc, "github.com/fadhilkurnia/shamir/") {
			return tail(r, 6000)
		}
	}
	return ""
}

func raceSummary(r string) string {
	var fr []string
	for _, l := range strings.Split(r, "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "github.com/fadhilkurnia/shamir/") {
			fr = append(fr, strings.TrimPrefix(l, "github.com/fadhilkurnia/shamir/"))
		}
		if len(fr) == 2 {
			break
		}
	}
	return strings.Join(fr, " vs ")
}

type limited struct{ bytes.Buffer }

func (l *limited) Write(p []byte) (int, error) {
	if l.Len() < 1<<21 {
		l.Buffer.Write(p)
	}
	return len(p), nil
}

func loadKnown(path, prop string) map[string]string {
	r := map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return r
	}
	for _, l := range strings.Split(string(b), "\n") {
		// known: property=C01 key=<key> <text>
		f := strings.Fields(l)
		if len(f) >= 3 && f[0] == "known:" && f[1] == "property="+prop && strings.HasPrefix(f[2], "key=") {
			r[strings.TrimPrefix(f[2], "key=")] = strings.Join(f[3:], " ")
		}
	}
	return r
}

func writeReplay(verif string, v mon.Violation, seed uint64, thorough bool) string {
	d := filepath.Join(verif, "replays")
	os.MkdirAll(d, 0o755)
	p := filepath.Join(d, fmt.Sprintf("%s-%s-%s-%d.json", v.Property, v.Config, v.Stage, v.Case))
	tier := "quick"
	if thorough {
		tier = "thorough"
	}
	rec := map[string]any{"violation": v, "seed": seed, "tier": tier,
		"replay_cmd": fmt.Sprintf("cd %s && VERIF_SEED=%d VERIF_TIER=%s VMON_CPUS=%d ./check.sh %s -stage %s -case %d -only %s", verif, seed, tier, v.CPUs, v.Property, v.Stage, v.Case, v.Config)}
	b, _ := json.MarshalIndent(rec, "", "  ")
	os.WriteFile(p, b, 0o644)
	return p
}

func writeEvidence(m *mon.Monitor, verif string, seed uint64, thorough bool, t *mon.Result, distinct, viol int, byCfg map[string]int64, envs, skipped map[string]string, wall time.Duration) {
	tier := "quick"
	if thorough {
		tier = "thorough"
	}
	samples := t.Samples
	if samples == nil {
		samples = []any{}
	}
	cov := map[string]any{
		"evaluations": t.Evals, "distinct_nontrivial": distinct, "rule": m.Rule, "samples": samples,
		"cases": t.Cases, "observed_events": t.Counts, "evaluations_by_configuration": byCfg, "cpu_features_seen_by_library": envs,
	}
	if len(skipped) > 0 {
		cov["skipped_configurations"] = skipped
	}
	if m.Exhaustive {
		cov["exhaustive"] = true
	}
	ev := map[string]any{"property": m.ID, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
		"wall_s": wall.Seconds(), "violations": viol}
	as := append([]string{"the reference models in harness/ref are right", "held on the executions listed under coverage, nothing beyond"}, m.Assumptions...)
	ev["assumptions"] = as
	b, _ := json.MarshalIndent(ev, "", "  ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verif, "evidence", m.ID+".json"), append(b, '\n'), 0o644)
}
