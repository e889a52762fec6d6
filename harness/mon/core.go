// Package mon holds the monitors: workloads that drive the library through
// its exported API, and oracles that judge what they observe.
package mon

import (
	crand "crypto/rand"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	mrand "math/rand"
	"math/rand/v2"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Stage is one list of cases of a monitor.
type Stage struct {
	Name string
	// N is the number of cases in the given tier.
	N func(thorough bool) int
	// Run executes one case.
	Run func(c *C, i int)
	// RealEntropy keeps crypto/rand as it is; otherwise it is replaced by a
	// deterministic stream keyed per case.
	RealEntropy bool
	// Configs restricts the stage to these configurations (nil: all of the
	// monitor's configurations).
	Configs []string
	// OpCPU is the CPU time one library call may burn before it counts as
	// not returning (0: default).
	OpCPU time.Duration
	// Blocked is how long a library call may neither return nor use CPU time
	// before it counts as blocked (0: default).
	Blocked time.Duration
	// Phase orders stages: all cases of phase 0 end before phase 1 starts.
	Phase int
}

// Config is one build and environment in which a monitor runs.
type Config struct {
	Name   string
	Tags   string
	Race   bool
	GOARCH string
	SIMD   string
	Shards int // 0: default
	Procs  int // GOMAXPROCS of each shard, 0: 1 thread plus SplitP helpers
	// Optional configurations are skipped if they do not build or run.
	Optional bool
	// Overlay builds against a standard library whose clock can be set.
	Overlay bool
	// Clock is what such a clock shows first; 0: the real time.
	Clock int64
}

// Monitor decides one property.
type Monitor struct {
	ID      string
	Rule    string
	Configs []string
	Stages  []Stage
	// Need lists counters that must reach a minimum, otherwise the run is
	// inconclusive.
	Need map[string]int64
	// Setup runs once per worker process before any case.
	Setup func(c *C)
	// Final runs in the parent after all workers, with the merged observations.
	Final func(f *FinalCtx)
	// Exhaustive marks monitors that enumerate a finite space completely.
	Exhaustive  bool
	Assumptions []string
	// Warp lists the stages that also run in the warped configuration.
	Warp []string
}

// FinalCtx is handed to Monitor.Final.
type FinalCtx struct {
	Dir      string
	Configs  []string
	Counts   map[string]int64
	Thorough bool
	Seed     uint64
	Viol     []Violation
	AddEval  int64
}

// Monitors is the registry.
var Monitors = map[string]*Monitor{}

func register(m *Monitor) { Monitors[m.ID] = m }

// Violation is one refutation with its witness.
type Violation struct {
	Property string         `json:"property"`
	Key      string         `json:"key"`
	Stage    string         `json:"stage"`
	Case     int            `json:"case"`
	Config   string         `json:"config"`
	Op       string         `json:"op,omitempty"`
	Message  string         `json:"message"`
	Detail   map[string]any `json:"detail,omitempty"`
	Stack    string         `json:"stack,omitempty"`
	CPUs     int            `json:"cpus,omitempty"` // how many CPUs the process had; 0: all
}

// Result is what a worker process reports.
type Result struct {
	Counts     map[string]int64 `json:"counts"`
	Evals      int64            `json:"evals"`
	Distinct   []uint64         `json:"distinct"`
	Samples    []any            `json:"samples"`
	Violations []Violation      `json:"violations"`
	Cases      int64            `json:"cases"`
	Done       bool             `json:"done"`
	HarnessErr string           `json:"harness_err,omitempty"`
	Env        string           `json:"env"`
}

// C is the context of a case; not safe for concurrent use (see Fork).
type C struct {
	M        *Monitor
	S        *Stage
	I        int
	Seed     uint64
	Thorough bool
	Config   string
	Dir      string
	R        *rand.Rand
	src      *rand.ChaCha8

	res      *Result
	distinct map[uint64]struct{}
	op       string
	forked   bool
	key      [32]byte
	warp     *rand.Rand
	gcs      int
}

func deriveKey(seed uint64, parts ...any) [32]byte {
	h := sha256.New()
	fmt.Fprint(h, seed)
	for _, p := range parts {
		fmt.Fprint(h, "|", p)
	}
	var k [32]byte
	h.Sum(k[:0])
	return k
}

// entropy is the deterministic replacement of crypto/rand.Reader.
type entropy struct {
	mu sync.Mutex
	s  *rand.ChaCha8
}

func (e *entropy) Read(p []byte) (int, error) {
	e.mu.Lock()
	defer e.mu.Unlock()
	return e.s.Read(p)
}

var realReader io.Reader = crand.Reader

// SetEntropy re-keys the library's entropy.
func (c *C) SetEntropy(parts ...any) {
	k := deriveKey(c.Seed, append([]any{"entropy", c.M.ID, c.S.Name, c.I}, parts...)...)
	crand.Reader = &entropy{s: rand.NewChaCha8(k)}
	//lint:ignore SA1019 the monitors must control the process-wide generator
	mrand.Seed(int64(binary.LittleEndian.Uint64(k[:8]) >> 1))
}

// RealEntropy restores crypto/rand.
func (c *C) RealEntropy() { crand.Reader = realReader }

// Fill fills b from the case's PRNG.
func (c *C) Fill(b []byte) { c.src.Read(b) }

// Bytes returns n bytes of the case's PRNG.
func (c *C) Bytes(n int) []byte {
	b := make([]byte, n)
	c.src.Read(b)
	return b
}

// IntN returns a number in [0,n).
func (c *C) IntN(n int) int { return c.R.IntN(n) }

// Range returns a number in [lo,hi].
func (c *C) Range(lo, hi int) int { return lo + c.R.IntN(hi-lo+1) }

// Obs counts an observed event.
func (c *C) Obs(key string, n int64) { c.res.Counts[key] += n }

// Eval counts oracle evaluations.
func (c *C) Eval(n int64) { c.res.Evals += n }

// Distinct records a non-trivial case by its description.
func (c *C) Distinct(parts ...any) {
	h := fnv.New64a()
	for _, p := range parts {
		switch v := p.(type) {
		case []byte:
			h.Write(v)
		case string:
			h.Write([]byte(v))
		case int:
			var b [8]byte
			binary.LittleEndian.PutUint64(b[:], uint64(v))
			h.Write(b[:])
		default:
			fmt.Fprint(h, v)
		}
		h.Write([]byte{0xfe})
	}
	if len(c.distinct) < 400000 {
		c.distinct[h.Sum64()] = struct{}{}
	}
}

// Sample keeps a few written-out cases.
func (c *C) Sample(v any) {
	if len(c.res.Samples) < 3 {
		c.res.Samples = append(c.res.Samples, v)
	}
}

// Violations so far.
func (c *C) Violations() int { return len(c.res.Violations) }

const maxViol = 4

// Violate records a refutation. key identifies the kind of failure.
func (c *C) Violate(key, format string, args ...any) {
	c.ViolateD(nil, key, format, args...)
}

// ViolateD is Violate with details.
func (c *C) ViolateD(detail map[string]any, key, format string, args ...any) {
	if len(c.res.Violations) >= maxViol {
		return
	}
	c.res.Violations = append(c.res.Violations, Violation{
		Property: c.M.ID, Key: key, Stage: c.S.Name, Case: c.I, Config: c.Config, Op: c.op,
		Message: fmt.Sprintf(format, args...), Detail: detail,
	})
}

// Try runs one library call and returns what it panicked with, if it did.
func (c *C) Try(op string, f func()) (pan any, stack string) {
	if !c.forked {
		if c.Config == "warped" {
			c.timePasses()
		}
		c.op = op
		watch.begin(c, op)
		defer watch.end()
	}
	defer func() {
		if pan = recover(); pan != nil {
			stack = string(debug.Stack())
		}
	}()
	f()
	return nil, ""
}

// Do runs a library call that must not panic; false if it did.
func (c *C) Do(op string, f func()) bool {
	pan, stack := c.Try(op, f)
	if pan != nil {
		if len(c.res.Violations) < maxViol {
			c.Violate("panic", "%s panicked: %v", op, pan)
			c.res.Violations[len(c.res.Violations)-1].Stack = stack
		}
		return false
	}
	return true
}

// Fork gives a goroutine its own context; Join merges it afterwards.
func (c *C) Fork(i int) *C {
	k := deriveKey(c.Seed, "fork", c.M.ID, c.S.Name, c.I, i)
	src := rand.NewChaCha8(k)
	n := *c
	n.src, n.R = src, rand.New(src)
	n.res = &Result{Counts: map[string]int64{}}
	n.distinct = map[uint64]struct{}{}
	n.forked = true
	return &n
}

// Join merges a fork.
func (c *C) Join(f *C) {
	for k, v := range f.res.Counts {
		c.res.Counts[k] += v
	}
	c.res.Evals += f.res.Evals
	for d := range f.distinct {
		c.distinct[d] = struct{}{}
	}
	for _, v := range f.res.Violations {
		if len(c.res.Violations) < maxViol {
			c.res.Violations = append(c.res.Violations, v)
		}
	}
}

// Hex abbreviates bytes for witnesses.
func Hex(b []byte) string {
	if len(b) > 96 {
		return fmt.Sprintf("%s...(%d bytes, sha256 %x)", hex.EncodeToString(b[:64]), len(b), sha256.Sum256(b))
	}
	return hex.EncodeToString(b)
}

// --- watchdog -------------------------------------------------------------

type watchdog struct {
	mu      sync.Mutex
	c       *C
	op      string
	depth   int
	cpu0    time.Duration
	wall0   time.Time
	limit   time.Duration
	seq     uint64
	state   []byte // mmapped, for the parent after a crash
	outPath string
}

var watch watchdog

func cpuTime() time.Duration {
	var ru syscall.Rusage
	if err := syscall.Getrusage(syscall.RUSAGE_SELF, &ru); err != nil {
		return 0
	}
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func (w *watchdog) begin(c *C, op string) {
	w.mu.Lock()
	w.c, w.op = c, op
	w.depth++
	w.seq++
	w.limit = 0 // set lazily by the ticker, which also samples the clock
	w.put(c, op)
	w.mu.Unlock()
}

func (w *watchdog) end() {
	w.mu.Lock()
	w.depth--
	w.seq++
	w.mu.Unlock()
}

func (w *watchdog) put(c *C, op string) {
	if w.state == nil {
		return
	}
	s := c.S.Name + "\x00" + fmt.Sprint(c.I) + "\x00" + op
	if len(s) > len(w.state)-2 {
		s = s[:len(w.state)-2]
	}
	n := copy(w.state, s)
	w.state[n] = 0
	w.state[n+1] = 1
}

const defaultOpCPU = 20 * time.Second
const blockedWall = 150 * time.Second

func (w *watchdog) run(scale time.Duration) {
	var seq uint64
	var cpu0 time.Duration
	var wall0 time.Time
	for {
		time.Sleep(500 * time.Millisecond)
		w.mu.Lock()
		if w.depth == 0 || w.seq != seq {
			seq, cpu0, wall0 = w.seq, cpuTime(), realNow()
			w.mu.Unlock()
			continue
		}
		c, op := w.c, w.op
		w.mu.Unlock()
		lim := c.S.OpCPU
		if lim == 0 {
			lim = defaultOpCPU
		}
		lim *= scale
		blocked := c.S.Blocked
		if blocked == 0 {
			blocked = blockedWall
		}
		used := cpuTime() - cpu0
		wall := realNow().Sub(wall0)
		switch {
		case used > lim:
			w.fail(c, op, "no-return", fmt.Sprintf("%s did not return after %v of CPU time", op, used))
		case wall > blocked && used < time.Second:
			w.fail(c, op, "blocked", fmt.Sprintf("%s is blocked: no progress and no CPU use for %v", op, wall))
		}
	}
}

func (w *watchdog) fail(c *C, op, key, msg string) {
	buf := make([]byte, 1<<18)
	buf = buf[:runtime.Stack(buf, true)]
	r := Result{Counts: map[string]int64{}, Done: true}
	r.Violations = []Violation{{Property: c.M.ID, Key: key, Stage: c.S.Name, Case: c.I, Config: c.Config, Op: op, Message: msg, Stack: string(buf)}}
	writeResult(w.outPath, &r)
	os.Exit(3)
}

func writeResult(path string, r *Result) {
	b, err := json.Marshal(r)
	if err != nil {
		fmt.Fprintln(os.Stderr, "vmon: marshal:", err)
		os.Exit(4)
	}
	if err := os.WriteFile(path+".tmp", b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "vmon:", err)
		os.Exit(4)
	}
	os.Rename(path+".tmp", path)
}

// --- worker ---------------------------------------------------------------

// WorkerOpts configures a worker process.
type WorkerOpts struct {
	Prop, Config, Dir, Out, State string
	Seed                          uint64
	Thorough                      bool
	Shard, Shards, Phase          int
	OnlyStage                     string
	OnlyCase                      int
	Env                           string
	Race                          bool
	Verbose                       bool
}

// HarnessError is panicked for failures of the harness itself.
type HarnessError struct{ Msg string }

// Inconclusive aborts the worker: the check could not decide.
func Inconclusive(format string, args ...any) {
	panic(HarnessError{fmt.Sprintf(format, args...)})
}

// Cur is the context of the running case (for hooks); nil outside.
var Cur atomic.Pointer[C]

// RunWorker executes this worker's share of the cases.
func RunWorker(o WorkerOpts) {
	m := Monitors[o.Prop]
	if m == nil {
		fmt.Fprintln(os.Stderr, "unknown property", o.Prop)
		os.Exit(4)
	}
	res := &Result{Counts: map[string]int64{}, Env: o.Env}
	distinct := map[uint64]struct{}{}
	watch.outPath = o.Out
	if o.State != "" {
		f, err := os.OpenFile(o.State, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o644)
		if err == nil && f.Truncate(4096) == nil {
			if mem, err := syscall.Mmap(int(f.Fd()), 0, 4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED); err == nil {
				watch.state = mem
			}
			f.Close()
		}
	}
	scale := time.Duration(1)
	if o.Race {
		scale = 10
	}
	go watch.run(scale)
	defer func() {
		if p := recover(); p != nil {
			if he, ok := p.(HarnessError); ok {
				res.HarnessErr = he.Msg
			} else {
				res.HarnessErr = fmt.Sprintf("harness panic: %v\n%s", p, debug.Stack())
			}
			writeResult(o.Out, res)
			os.Exit(0)
		}
	}()
	idx := 0
	heavy := runtime.GOMAXPROCS(0) >= 8
	for si := range m.Stages {
		s := &m.Stages[si]
		if s.Phase != o.Phase && o.OnlyStage == "" {
			continue
		}
		if o.Config == "warped" {
			if !has(m.Warp, s.Name) {
				continue
			}
		} else if s.Configs != nil && !has(s.Configs, o.Config) {
			continue
		}
		n := s.N(o.Thorough)
		t0 := realNow()
		for i := 0; i < n; i++ {
			if o.OnlyStage != "" {
				if s.Name != o.OnlyStage || i != o.OnlyCase {
					continue
				}
			} else {
				idx++
				if int(uint32(idx)*2654435761>>8)%o.Shards != o.Shard {
					continue
				}
			}
			k := deriveKey(o.Seed, "case", m.ID, s.Name, i)
			src := rand.NewChaCha8(k)
			c := &C{M: m, S: s, I: i, Seed: o.Seed, Thorough: o.Thorough, Config: o.Config, Dir: o.Dir, R: rand.New(src), src: src, res: res, distinct: distinct, key: k}
			if s.RealEntropy {
				c.RealEntropy()
			} else {
				c.SetEntropy()
			}
			if heavy {
				runtime.GOMAXPROCS([]int{8, 8, 8, 8, 8, 12, 3, 9}[k[31]&7])
			} else {
				runtime.GOMAXPROCS([]int{2, 1, 2, 3, 2, 5, 6, 7}[k[31]&7])
			}
			watch.mu.Lock()
			watch.put(c, "")
			watch.mu.Unlock()
			Cur.Store(c)
			if m.Setup != nil {
				m.Setup(c)
			}
			s.Run(c, i)
			Cur.Store(nil)
			res.Cases++
			res.Counts["cases:"+s.Name]++
			if len(res.Violations) >= maxViol {
				break
			}
		}
		if o.Verbose {
			fmt.Fprintf(os.Stderr, "%s %s %s shard %d: %v\n", m.ID, o.Config, s.Name, o.Shard, realNow().Sub(t0))
		}
		if len(res.Violations) >= maxViol {
			break
		}
	}
	for d := range distinct {
		res.Distinct = append(res.Distinct, d)
	}
	sort.Slice(res.Distinct, func(a, b int) bool { return res.Distinct[a] < res.Distinct[b] })
	res.Done = true
	writeResult(o.Out, res)
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func fixed(q, t int) func(bool) int {
	return func(thorough bool) int {
		if thorough {
			return t
		}
		return q
	}
}

func join(parts ...any) string { return strings.TrimSpace(fmt.Sprintln(parts...)) }
