//go:build !386

package mon

import (
	"bytes"
	crand "crypto/rand"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"os"
	"os/exec"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"a.verif/vmon/ref"
	"github.com/fadhilkurnia/shamir/csprng"
	"github.com/fadhilkurnia/shamir/krawczyk"
	"github.com/fadhilkurnia/shamir/randomizer"
	"github.com/fadhilkurnia/shamir/shamir"
)

func init() {
	register(&Monitor{
		ID:      "C23",
		Rule:    "an evaluation is the judgement of one outcome: an operation during which the entropy failed must report it, and every success is opened with the model and its random bytes are judged; distinct cases are (operation, kind of failure or of delivery, byte at which it failed)",
		Configs: []string{"native", "faulty"},
		Need:    map[string]int64{"failures delivered": 300, "deliveries in pieces": 20000, "operations after a failure": 500},
		Assumptions: []string{"the system's entropy is what crypto/rand.Reader delivers; in the faulty configuration crypto/rand.Read hands the failure to its caller, as it does before Go 1.24 (go.mod asks for 1.17), in the native one it ends the process, which counts as reporting",
			"a fallback that looks uniform to chi-square, repetition and influence monitors and needs no failure report is C06's subject"},
		Stages: []Stage{
			{Name: "failing", N: fixed(32, 400), Run: c23failing, RealEntropy: true, OpCPU: 600 * time.Second, Blocked: 600 * time.Second},
			{Name: "flaky", N: fixed(16, 160), Run: c23flaky, RealEntropy: true, Configs: []string{"faulty"}, OpCPU: 600 * time.Second, Blocked: 600 * time.Second},
			{Name: "pieces", N: fixed(320, 3200), Run: c23pieces},
			{Name: "traced", N: fixed(256, 1600), Run: c23traced},
		},
	})
}

// freshOp is an operation that may need fresh entropy. prep makes everything
// the call needs while the entropy works; open checks what the call returned
// and tells its random components.
type freshOp struct {
	name string
	prep func(c *C) (call func() ([][]byte, error), open func(out [][]byte) []c06comp)
}

func freshSplit(name string, ssms bool, prep func() func(s []byte, n, k int) ([][]byte, error)) freshOp {
	return freshOp{name, func(c *C) (func() ([][]byte, error), func([][]byte) []c06comp) {
		k := pick(c, []int{2, 2, 3, 5, 9, 17, 60, 255})
		n := c.Range(k, min(255, k+8))
		l := pick(c, []int{1, 7, 16, 33, 100, 600, 1500, 2300})
		if k > 50 {
			l = min(l, 40)
		}
		if k < 14 {
			l = max(l, 16)
		}
		secret := mkSecret(c, pick(c, secretFamilies), l)
		split := prep()
		sp := Splitter{name, ssms, nil}
		return func() ([][]byte, error) { return split(secret, n, k) }, func(sh [][]byte) []c06comp {
			c.Eval(1)
			if len(sh) != n {
				c.Violate("share-count", "%s(len=%d, n=%d, k=%d) returned %d shares", name, l, n, k, len(sh))
				return nil
			}
			if ssms {
				o, err := ref.OpenSSMS(sh, n, k)
				if err == nil && !bytes.Equal(o.Secret, secret) {
					err = errors.New("another secret")
				}
				if err != nil {
					c.Violate("not-a-sharing", "%s(len=%d, n=%d, k=%d): %v", name, l, n, k, err)
					return nil
				}
				return append(coefComps(o.Meta, k), c06comp{"key", o.Key}, c06comp{"points", o.Points})
			}
			p := recoverPoly(c, sp, sh, secret, n, k)
			if p == nil {
				return nil
			}
			var xs []byte
			for _, s := range sh {
				xs = append(xs, s[l])
			}
			return append(coefComps(p, k), c06comp{"points", xs})
		}
	}}
}

func freshSource(name, comp string, run func() []byte) freshOp {
	return freshOp{name, func(c *C) (func() ([][]byte, error), func([][]byte) []c06comp) {
		return func() ([][]byte, error) { return [][]byte{run()}, nil }, func(out [][]byte) []c06comp {
			return []c06comp{{comp, out[0]}}
		}
	}}
}

func freshOps() []freshOp {
	type split = func(s []byte, n, k int) ([][]byte, error)
	direct := func(f split) func() split { return func() split { return f } }
	ops := []freshOp{
		freshSplit("shamir.Split", false, direct(shamir.Split)),
		freshSplit("shamir.SplitGeneric", false, direct(shamir.SplitGeneric)),
		freshSplit("shamir.SplitP", false, direct(shamir.SplitP)),
		freshSplit("krawczyk.Split", true, direct(krawczyk.Split)),
		freshSplit("shamir.SplitWithRandomizer with a new source", false, direct(func(s []byte, n, k int) ([][]byte, error) {
			return shamir.SplitWithRandomizer(s, n, k, csprng.NewCSPRNG())
		})),
		freshSplit("shamir.SplitWithRandomizerOld with a new source", false, direct(func(s []byte, n, k int) ([][]byte, error) {
			return shamir.SplitWithRandomizerOld(s, n, k, csprng.NewCSPRNG())
		})),
		freshSplit("krawczyk.SplitWithRandomizer with a new source", true, direct(func(s []byte, n, k int) ([][]byte, error) {
			return krawczyk.SplitWithRandomizer(s, n, k, csprng.NewCSPRNG())
		})),
		freshSplit("a new worker's Split(shamir)", false, direct(func(s []byte, n, k int) ([][]byte, error) { return newWorker().Split(algShamir, s, n, k) })),
		freshSplit("a new worker's Split(krawczyk)", true, direct(func(s []byte, n, k int) ([][]byte, error) { return newWorker().Split(algSSMS, s, n, k) })),
		// these have their randomness already
		freshSplit("shamir.SplitWithRandomizer", false, func() split {
			r := csprng.NewCSPRNG()
			return func(s []byte, n, k int) ([][]byte, error) { return shamir.SplitWithRandomizer(s, n, k, r) }
		}),
		freshSplit("krawczyk.SplitWithRandomizer", true, func() split {
			r := csprng.NewCSPRNG()
			return func(s []byte, n, k int) ([][]byte, error) { return krawczyk.SplitWithRandomizer(s, n, k, r) }
		}),
		freshSplit("worker.Split(shamir)", false, func() split {
			w := newWorker()
			return func(s []byte, n, k int) ([][]byte, error) { return w.Split(algShamir, s, n, k) }
		}),
		freshSplit("worker.Split(krawczyk)", true, func() split {
			w := newWorker()
			return func(s []byte, n, k int) ([][]byte, error) { return w.Split(algSSMS, s, n, k) }
		}),
		freshSource("csprng.NewCSPRNG", "output", func() []byte {
			b := make([]byte, 64)
			csprng.NewCSPRNG().Read(b)
			return b
		}),
		freshSource("csprng.NewCSPRNG Perm", "permutation", func() []byte { return csprng.NewCSPRNG().Perm(255) }),
		freshSource("csprng.NewCSPRNG GetUniqueBytes", "unique bytes", func() []byte { return csprng.NewCSPRNG().GetUniqueBytes(16) }),
		freshSource("randomizer.NewRandomizer", "output", func() []byte {
			b := make([]byte, 64)
			randomizer.NewRandomizer().Read(b)
			return b
		}),
		freshSource("randomizer.NewRandomizer Perm", "permutation", func() []byte { return randomizer.NewRandomizer().Perm(255) }),
	}
	for _, few := range []bool{true, false} {
		ops = append(ops, freshOp{"shamir.Regenerate", func(c *C) (func() ([][]byte, error), func([][]byte) []c06comp) {
			k := pick(c, []int{2, 3, 5, 12, 40})
			g := c.Range(1, 255-k)
			if few {
				g = c.Range(1, 3)
			}
			if c.IntN(6) == 0 {
				g = 255 - k // every point there is
			}
			xs := pointList(c, k)
			secret := anySecret(c, c.Range(1, 20))
			p := ref.RandPoly(secret, k, c.Fill)
			sh := p.MakeShares(xs)
			return func() ([][]byte, error) { return shamir.Regenerate(sh, g) }, func(out [][]byte) []c06comp {
				c.Eval(1)
				if len(out) != g {
					c.Violate("share-count", "Regenerate(%d shares, %d) returned %d", k, g, len(out))
					return nil
				}
				var used [256]bool
				used[0] = true
				for _, x := range xs {
					used[x] = true
				}
				var pts []byte
				for _, s := range out {
					if len(s) != len(secret)+1 || used[s[len(s)-1]] {
						c.Violate("bad-point", "Regenerate(%d shares, %d): share %s is malformed or its point is taken", k, g, Hex(s))
						return nil
					}
					x := s[len(s)-1]
					used[x] = true
					pts = append(pts, x)
					for j := range p {
						if ref.Eval(p[j], x) != s[j] {
							c.Violate("not-a-sharing", "Regenerate(%d shares, %d): a share is not on the polynomial", k, g)
							return nil
						}
					}
				}
				return []c06comp{{"new points", pts}}
			}
		}})
	}
	return ops
}

// wholesome judges the random bytes of one result alone: no stretch of one
// value, no value far too frequent, no counting, no repetition of what was seen.
func wholesome(c *C, what string, comps []c06comp, w *winSet, id int) bool {
	for _, m := range comps {
		c.Eval(1)
		if strings.HasPrefix(m.name, "first") {
			continue
		}
		switch m.name {
		case "coefficients", "key", "output":
			if r, v := longestRun(m.b); r >= 10 {
				c.ViolateD(map[string]any{"bytes": Hex(m.b)}, "weak", "%s: %s contain %d times %#02x in a row", what, m.name, r, v)
				return false
			}
			var h [256]int
			for _, v := range m.b {
				h[v]++
			}
			for v, k := range h {
				if x := cellTail(k, float64(len(m.b))/256); k > 6 && k > len(m.b)/256 && x > tailLimit {
					c.ViolateD(map[string]any{"bytes": Hex(m.b)}, "weak", "%s: %s contain the value %d %d times among %d bytes", what, m.name, v, k, len(m.b))
					return false
				}
			}
			if _, at, clash := w.add(m.b, 1, id, m.name); clash {
				c.ViolateD(map[string]any{"bytes": Hex(m.b)}, "repeat", "%s: %d bytes of %s at %d were seen before", what, winLen, m.name, at)
				return false
			}
		default: // points
			run := 0
			for j := 2; j < len(m.b); j++ {
				if m.b[j]-m.b[j-1] == m.b[1]-m.b[0] {
					run++
				}
			}
			if len(m.b) >= 12 && len(m.b) < 200 && run >= len(m.b)-3 {
				c.Violate("weak", "%s: %s are in a row: %x", what, m.name, trunc(m.b))
				return false
			}
		}
		c.Obs("random bytes judged", int64(len(m.b)))
	}
	return true
}

// faultReader delivers good bytes and fails.
type faultReader struct {
	mu    sync.Mutex
	s     *rand.ChaCha8
	left  int // good bytes before the failure
	times int // how many failures, -1: for ever
	err   error
	with  bool // the failing call delivers what is left
	read  int
	hits  atomic.Int64
	onHit func()
}

func (f *faultReader) Read(p []byte) (int, error) {
	f.mu.Lock()
	defer f.mu.Unlock()
	if len(p) == 0 {
		return 0, nil
	}
	if f.times == 0 || f.left >= len(p) {
		f.s.Read(p)
		f.read += len(p)
		f.left -= len(p)
		return len(p), nil
	}
	n := f.left
	f.s.Read(p[:n])
	f.read += n
	f.left = 0
	if n > 0 && !f.with {
		return n, nil // the failure comes with the next call
	}
	if f.times > 0 {
		f.times--
	}
	f.hits.Add(1)
	f.onHit()
	return n, f.err
}

var entropyErrors = []error{
	errors.New("no entropy"), io.EOF, io.ErrUnexpectedEOF, syscall.EAGAIN, syscall.EINTR, syscall.EIO, syscall.ENOSYS, os.ErrDeadlineExceeded,
	io.ErrNoProgress, os.ErrClosed,
}

type faultSpec struct {
	Seed     uint64
	Stage    string
	Case     int
	From     int
	Ops      int
	Thorough bool
	Config   string
}

type faultEvent struct {
	T    string // begin, hit, end, done, violation
	J    int
	Name string
	Out  string // err, panic, ok
	V    *Violation
	N    map[string]int64
	Eval int64
}

// FaultProbe runs operations in a process that may end at any of them, and
// reports on file 3.
func FaultProbe(spec string) {
	var s faultSpec
	if err := json.Unmarshal([]byte(spec), &s); err != nil {
		panic(err)
	}
	pipe := os.NewFile(3, "events")
	var mu sync.Mutex
	send := func(e faultEvent) {
		b, _ := json.Marshal(e)
		mu.Lock()
		pipe.Write(append(b, '\n'))
		mu.Unlock()
	}
	m := Monitors["C23"]
	c := &C{M: m, S: &m.Stages[0], I: s.Case, Seed: s.Seed, Thorough: s.Thorough, Config: s.Config, distinct: map[uint64]struct{}{}}
	for i := range m.Stages {
		if m.Stages[i].Name == s.Stage {
			c.S = &m.Stages[i]
		}
	}
	// an operation that does not come back
	var began atomic.Int64 // operation number, 0: none
	var cur atomic.Pointer[string]
	go func() {
		var last int64
		var cpu0, wall0 = cpuTime(), time.Now()
		for {
			time.Sleep(200 * time.Millisecond)
			if b := began.Load(); b == 0 || b != last {
				last, cpu0, wall0 = b, cpuTime(), time.Now()
				continue
			}
			used, wall := cpuTime()-cpu0, time.Since(wall0)
			if used > 20*time.Second || wall > 60*time.Second && used < time.Second {
				send(faultEvent{T: "violation", J: int(last - 1), V: &Violation{Property: m.ID, Key: "no-return", Stage: s.Stage, Case: s.Case, Config: s.Config,
					Op: *cur.Load(), Message: fmt.Sprintf("%s does not come back after its entropy failed (%v, %v of CPU time)", *cur.Load(), wall, used)}})
				os.Exit(5)
			}
		}
	}()
	c.forked = true
	fresh := func(tag string, j int) {
		c.src = rand.NewChaCha8(deriveKey(s.Seed, "C23", s.Stage, s.Case, j, tag))
		c.R = rand.New(c.src)
		c.res = &Result{Counts: map[string]int64{}}
	}
	flush := func(j int, e faultEvent) {
		for k := range c.res.Violations {
			send(faultEvent{T: "violation", J: j, V: &c.res.Violations[k]})
		}
		e.N, e.Eval = c.res.Counts, c.res.Evals
		send(e)
	}
	good := func(j int, tag string) {
		crand.Reader = &entropy{s: rand.NewChaCha8(deriveKey(s.Seed, "good", s.Stage, s.Case, j, tag))}
	}
	ops := freshOps()
	win := newWinSet()
	for j := s.From; j < s.Ops; j++ {
		fresh("op", j)
		good(j, "op")
		if s.Stage == "flaky" {
			began.Store(int64(j + 1))
			what := "one of many concurrent operations"
			cur.Store(&what)
			send(faultEvent{T: "begin", J: j, Name: what})
			flakyRound(c, ops, win, func() { send(faultEvent{T: "hit", J: j}) })
			began.Store(0)
			flush(j, faultEvent{T: "end", J: j, Name: what, Out: "ok"})
			continue
		}
		op := ops[(j+s.Case*7)%len(ops)]
		// the same kind of call with everything in order tells how much it reads
		call, open := op.prep(c)
		count := &faultReader{s: rand.NewChaCha8(deriveKey(s.Seed, "count", s.Case, j))}
		crand.Reader = count
		out, err, pan := c23call(call)
		if err != nil || pan != nil {
			c.Violate("fails", "%s fails although the entropy is in order: %v %v", op.name, err, pan)
			flush(j, faultEvent{T: "end", J: j, Name: op.name, Out: "ok"})
			continue
		}
		if !wholesome(c, op.name, open(out), win, j) {
			flush(j, faultEvent{T: "end", J: j, Name: op.name, Out: "ok"})
			continue
		}
		f := &faultReader{s: rand.NewChaCha8(deriveKey(s.Seed, "fault", s.Case, j)), times: -1, err: pick(c, entropyErrors), with: c.IntN(2) == 0}
		if c.IntN(3) == 0 {
			f.times = c.Range(1, 2)
		}
		if t := count.read; t > 0 {
			switch c.IntN(6) {
			case 0, 1:
			case 2:
				f.left = t - 1
			case 3:
				f.left = min(t-1, pick(c, []int{1, 15, 16, 17, 31, 32, 33, 48}))
			default:
				f.left = c.IntN(t)
			}
		}
		what := fmt.Sprintf("%s with the entropy failing after %d of %d bytes (%v, %d times)", op.name, f.left, count.read, f.err, f.times)
		f.onHit = func() { send(faultEvent{T: "hit", J: j}) }
		cur.Store(&what)
		c.op = what
		fails := f.times
		good(j, "prep")
		if c.IntN(2) == 0 {
			call, open = op.prep(c)
			f.left = min(f.left, 64) // it may need less
		}
		crand.Reader = f
		send(faultEvent{T: "begin", J: j, Name: what})
		began.Store(int64(j + 1))
		out, err, pan = c23call(call)
		began.Store(0)
		hit := f.hits.Load() > 0
		good(j, "after")
		res := "ok"
		c.Eval(1)
		switch {
		case pan != nil:
			res = "panic"
		case err != nil:
			res = "err"
			for _, b := range out {
				if len(b) > 0 {
					c.Violate("shares-with-error", "%s: failed with %v and returned %s all the same", what, err, Hex(b))
					break
				}
			}
		}
		switch {
		case res != "ok" && !hit:
			c.Violate("fails", "%s: failed (%v %v) without having met the failure", what, err, pan)
		case res == "ok" && hit && fails < 0:
			c.ViolateD(map[string]any{"result": hexes(out)}, "unreported", "%s: succeeded", what)
		case res == "ok":
			wholesome(c, what, open(out), win, j)
		}
		// afterwards everything is as before
		if hit {
			for t := 0; t < 4 && c.Violations() == 0; t++ {
				o := pick(c, ops)
				if t == 0 {
					o = op
				}
				call, open := o.prep(c)
				out, err, pan := c23call(call)
				c.Obs("operations after a failure", 1)
				if err != nil || pan != nil {
					c.Violate("no-recovery", "%s fails after an earlier failure of the entropy (%s): %v %v", o.name, what, err, pan)
					break
				}
				wholesome(c, o.name+" after "+what, open(out), win, j*10+t+1)
			}
		}
		flush(j, faultEvent{T: "end", J: j, Name: what, Out: res})
	}
	send(faultEvent{T: "done", J: s.Ops})
}

func c23call(call func() ([][]byte, error)) (out [][]byte, err error, pan any) {
	defer func() { pan = recover() }()
	out, err = call()
	return
}

// runFaulty runs a probe to the end, starting it again behind every operation
// at which it ended.
func runFaulty(c *C, stage string, ops int) {
	self, err := os.Executable()
	if err != nil {
		Inconclusive("%v", err)
	}
	s := faultSpec{Seed: c.Seed, Stage: stage, Case: c.I, Ops: ops, Thorough: c.Thorough, Config: c.Config}
	for s.From < ops {
		spec, _ := json.Marshal(s)
		cmd := exec.Command(self, "-faultprobe", string(spec))
		cmd.Env = append(os.Environ(), fmt.Sprintf("GOMAXPROCS=%d", []int{2, 1, 4, 8}[c.I%4]))
		r, w, err := os.Pipe()
		if err != nil {
			Inconclusive("%v", err)
		}
		cmd.ExtraFiles = []*os.File{w}
		var stderr bytes.Buffer
		cmd.Stderr = &stderr
		if err := cmd.Start(); err != nil {
			Inconclusive("%v", err)
		}
		w.Close()
		dec := json.NewDecoder(r)
		at, hit, done, name, stop := -1, false, false, "", false
		for {
			var e faultEvent
			if dec.Decode(&e) != nil {
				break
			}
			for k, v := range e.N {
				c.Obs(k, v)
			}
			c.Eval(e.Eval)
			switch e.T {
			case "begin":
				at, hit, name = e.J, false, e.Name
			case "hit":
				if !hit {
					c.Obs("failures delivered", 1)
				}
				hit = true
			case "end":
				if hit {
					c.Obs("outcomes at a failure: "+e.Out, 1)
				}
				c.Distinct(e.Name, e.Out)
				at, s.From = -1, e.J+1
			case "violation":
				if len(c.res.Violations) < maxViol {
					c.res.Violations = append(c.res.Violations, *e.V)
				}
				stop = true
			case "done":
				done = true
			}
		}
		r.Close()
		werr := cmd.Wait()
		if stop || done {
			return
		}
		switch {
		case at >= 0 && hit:
			// the process ended at the failure: it was reported
			c.Obs("outcomes at a failure: end of the process", 1)
			c.Distinct(name, "end")
			c.Eval(1)
			s.From = at + 1
		case at >= 0 && strings.Contains(stderr.String(), "github.com/fadhilkurnia/shamir/"):
			c.Violate("crash", "%s ended the process without having met the failure: %v %s", name, werr, tailOf(stderr.String()))
			return
		default:
			Inconclusive("the probe ended with %v at %d %s: %s", werr, at, name, tailOf(stderr.String()))
		}
	}
}

func tailOf(s string) string { return s[:min(len(s), 1500)] }

func c23failing(c *C, i int) { runFaulty(c, "failing", 42) }

func c23flaky(c *C, i int) { runFaulty(c, "flaky", 6) }

// flakyReader fails every now and then.
type flakyReader struct {
	mu    sync.Mutex
	s     *rand.ChaCha8
	r     *rand.Rand
	rate  float64
	onHit func()
	hits  int
}

func (f *flakyReader) Read(p []byte) (int, error) {
	f.mu.Lock()
	defer f.mu.Unlock()
	n := len(p)
	if f.r.Float64() < f.rate {
		f.s.Read(p[:n/3])
		f.hits++
		if f.hits == 1 {
			f.onHit()
		}
		return n / 3, entropyErrors[f.r.IntN(len(entropyErrors))]
	}
	if n > 1 && f.r.IntN(3) == 0 {
		n = 1 + f.r.IntN(n-1)
	}
	f.s.Read(p[:n])
	return n, nil
}

// flakyRound runs operations side by side while the entropy fails now and
// then: every one either reports a failure or gives a wholesome result.
func flakyRound(c *C, ops []freshOp, win *winSet, onHit func()) {
	type job struct {
		name string
		open func([][]byte) []c06comp
		call func() ([][]byte, error)
		out  [][]byte
		err  error
		pan  any
		f    *C
	}
	G := c.Range(1, 8)
	jobs := make([][]*job, G)
	for g := range jobs {
		for t := 0; t < 30; t++ {
			o := pick(c, ops)
			if o.name == "shamir.SplitP" {
				continue // ends the process
			}
			call, open := o.prep(c)
			jobs[g] = append(jobs[g], &job{name: o.name, call: call, open: open})
		}
	}
	key := deriveKey(c.R.Uint64(), "flaky")
	src := rand.NewChaCha8(key)
	crand.Reader = &flakyReader{s: src, r: rand.New(rand.NewPCG(c.R.Uint64(), 1)), rate: []float64{0.02, 0.1, 0.4}[c.IntN(3)], onHit: onHit}
	var wg sync.WaitGroup
	for g := range jobs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, j := range jobs[g] {
				j.out, j.err, j.pan = c23call(j.call)
			}
		}()
	}
	wg.Wait()
	crand.Reader = &entropy{s: rand.NewChaCha8(deriveKey(c.R.Uint64(), "after"))}
	id := 0
	for g := range jobs {
		for _, j := range jobs[g] {
			id++
			c.Eval(1)
			if j.err != nil || j.pan != nil {
				c.Obs("concurrent operations that reported a failure", 1)
				for _, b := range j.out {
					if len(b) > 0 {
						c.Violate("shares-with-error", "%s failed with %v %v and returned %s all the same", j.name, j.err, j.pan, Hex(b))
						return
					}
				}
				continue
			}
			c.Obs("concurrent operations that succeeded", 1)
			if !wholesome(c, j.name+" with flaky entropy", j.open(j.out), win, id) {
				return
			}
		}
	}
}

// pieceReader delivers in pieces.
type pieceReader struct {
	mu    sync.Mutex
	s     io.Reader
	r     *rand.Rand
	how   string
	calls int
	short int64
}

var pieceWays = []string{"one byte", "few bytes", "one less", "now and then short", "nothing in between", "at most 16", "first call short", "half", "last call short"}

func (f *pieceReader) Read(p []byte) (int, error) {
	f.mu.Lock()
	defer f.mu.Unlock()
	n := len(p)
	if n == 0 {
		return 0, nil
	}
	f.calls++
	switch f.how {
	case "one byte":
		n = 1
	case "few bytes":
		n = min(n, 1+f.r.IntN(7))
	case "one less":
		n = max(1, n-1)
	case "now and then short":
		if f.r.IntN(3) == 0 {
			n = 1 + f.r.IntN(n)
		}
	case "nothing in between":
		if f.calls%3 != 0 {
			return 0, nil
		}
		n = 1 + f.r.IntN(n)
	case "at most 16":
		n = min(n, 16)
	case "first call short":
		if f.calls == 1 {
			n = 1 + f.r.IntN(n)
		}
	case "half":
		n = (n + 1) / 2
	case "last call short":
		if f.calls > 1 {
			n = 1 + f.r.IntN(n)
		}
	}
	if n < len(p) {
		f.short++
	}
	return f.s.Read(p[:n])
}

// c23pieces repeats one operation while the entropy arrives in pieces and
// judges every position of every component.
func c23pieces(c *C, i int) {
	es := c06entriesOf(c, []int{18, 40, 260}[i%3], 3, 2)
	e := es[(i+i/9)%len(es)]
	how := pieceWays[i%len(pieceWays)]
	T := 300
	t := tally{}
	win := newWinSet()
	pr := &pieceReader{s: &entropy{s: rand.NewChaCha8(deriveKey(c.Seed, "pieces", i))}, r: c.R, how: how}
	crand.Reader = pr
	defer c.SetEntropy("after")
	for r := 0; r < T; r++ {
		pr.calls = 0
		comps := e.run(c)
		if comps == nil || c.Violations() > 0 {
			return
		}
		if !wholesome(c, e.name+" with entropy in pieces ("+how+")", comps, win, r) {
			return
		}
		for _, m := range comps {
			for x, v := range m.b[:min(len(m.b), 48)] {
				t.add(fmt.Sprintf("%s[%d]", m.name, x), v)
			}
			// and the end of it
			for x := max(48, len(m.b)-16); x < len(m.b); x++ {
				t.add(fmt.Sprintf("%s[len-%d]", m.name, len(m.b)-x), m.b[x])
			}
		}
	}
	c.Obs("deliveries in pieces", pr.short)
	c.Obs("results from pieces", int64(T))
	c.Distinct(e.name, how)
	t.judge(c, e.name+" with entropy in pieces ("+how+")", how)
}

// c23traced traces on how much of the entropy results depend that arrives in
// pieces.
func c23traced(c *C, i int) {
	es := c06entriesOf(c, []int{18, 40, 260}[i%3], 3, 2)
	e := es[(i+i/9)%len(es)]
	if strings.HasPrefix(e.name, "shamir.Regenerate") {
		return
	}
	how := pieceWays[i%len(pieceWays)]
	seed := c.R.Uint64()
	influencePieces = func(r io.Reader) io.Reader {
		return &pieceReader{s: r, r: rand.New(rand.NewPCG(seed, 2)), how: how}
	}
	defer func() { influencePieces = nil }()
	for x := 0; ; x++ {
		name := ""
		end := false
		if !influence(c, e.name+" with entropy in pieces ("+how+")", fmt.Sprintf("component %d", x), 16, func() []byte {
			comps := e.run(c)
			if x >= len(comps) {
				end = true
				return nil
			}
			name = comps[x].name
			if len(comps[x].b) < 16 || name == "points" && len(comps[x].b) < 20 {
				return nil // too little to tell
			}
			return comps[x].b
		}) || end || c.Violations() > 0 {
			return
		}
	}
}
