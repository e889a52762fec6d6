//go:build !386

package mon

import (
	"bytes"
	crand "crypto/rand"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math"
	mrand "math/rand"
	mrand2 "math/rand/v2"
	"os"
	"os/exec"
	"slices"
	"strings"
	"time"

	"a.verif/vmon/aasimd"
	"a.verif/vmon/ref"
	"github.com/fadhilkurnia/shamir/csprng"
	"github.com/fadhilkurnia/shamir/krawczyk"
	"github.com/fadhilkurnia/shamir/randomizer"
	"github.com/fadhilkurnia/shamir/shamir"
)

// initDone is a time after the initialisation of the library's packages.
var initDone = time.Now()

func init() {
	register(&Monitor{
		ID:          "C06",
		Rule:        "an evaluation is the comparison of one random component (coefficients, key, points, source output) with the same component after an attacker's replay, or with the outputs of one candidate generator state; distinct cases are (entry point, component, attack)",
		Configs:     []string{"native", "noasm", "frozen"},
		Need:        map[string]int64{"components": 2000, "candidate states": 200000},
		Assumptions: []string{"the attacker tries math/rand (v1, and v2 PCG) states derived from clock readings in the window of the call or of package initialisation, the process id, small constants and their combinations, and the direct, csprng-seeded and per-byte uses of their streams"},
		Stages: []Stage{
			{Name: "reseed", N: fixed(64, 640), Run: c06reseed, RealEntropy: true},
			{Name: "clock", N: fixed(80, 640), Run: c06clock, RealEntropy: true, Configs: []string{"native"}, OpCPU: 200 * time.Second},
			{Name: "bytewise", N: fixed(96, 960), Run: c06bytewise, RealEntropy: true},
			{Name: "aged", N: fixed(48, 480), Run: c06aged, RealEntropy: true, OpCPU: 120 * time.Second},
			{Name: "birthday", N: fixed(24, 48), Run: c06birthday, RealEntropy: true, Configs: []string{"native", "frozen"}, OpCPU: 600 * time.Second},
			{Name: "refrozen", N: fixed(4, 40), Run: c06refrozen, RealEntropy: true, Configs: []string{"frozen"}, OpCPU: 300 * time.Second},
			{Name: "traced", N: fixed(8, 32), Run: c06traced, RealEntropy: true, Configs: []string{"frozen"}, OpCPU: 300 * time.Second},
			{Name: "restart", N: fixed(8, 40), Run: c06restart, RealEntropy: true, Configs: []string{"native"}, OpCPU: 300 * time.Second},
		},
	})
}

// c06comp is one random component of a result.
type c06comp struct {
	name string
	b    []byte
}

type c06entry struct {
	name string
	run  func(c *C) []c06comp
}

func coefComps(p ref.Poly, k int) []c06comp {
	var row []byte
	for b := range p {
		row = append(row, p[b][1:]...)
	}
	out := []c06comp{{"coefficients", row}}
	if k > 2 {
		col := make([]byte, len(p))
		for b := range p {
			col[b] = p[b][1]
		}
		out = append(out, c06comp{"first coefficients", col})
	}
	return out
}

// c06from and c06to enclose the last split.
var c06from, c06to time.Time

func c06splitEntry(sp Splitter, l, n, k int) c06entry {
	return c06entry{sp.Name, func(c *C) []c06comp {
		secret := bytes.Repeat([]byte{0x41}, l)
		timed := Splitter{sp.Name, sp.SSMS, func(s []byte, n, k int) (sh [][]byte, err error) {
			c06from = time.Now()
			sh, err = sp.Split(s, n, k)
			c06to = time.Now()
			return
		}}
		sh := checkSplit(c, timed, secret, n, k)
		if sh == nil {
			return nil
		}
		if sp.SSMS {
			o, err := ref.OpenSSMS(sh, n, k)
			if err != nil {
				c.Violate("not-a-sharing", "%s: %v", sp.Name, err)
				return nil
			}
			return append(coefComps(o.Meta, k), c06comp{"key", o.Key}, c06comp{"points", o.Points})
		}
		p := recoverPoly(c, sp, sh, secret, n, k)
		if p == nil {
			return nil
		}
		var xs []byte
		for _, s := range sh {
			xs = append(xs, s[l])
		}
		return append(coefComps(p, k), c06comp{"points", xs})
	}}
}

// c06entries lists every way to get fresh randomness, all starting from
// nothing (new sources are made inside).
func c06entries(c *C) []c06entry { return c06entriesOf(c, 18, 2, 2) }

// c06entriesOf is c06entries with one more split of each kind, of the given shape.
func c06entriesOf(c *C, l, n, k int) []c06entry {
	ms := c.Bytes(30)
	var es []c06entry
	for _, sp := range []Splitter{
		{"shamir.Split", false, shamir.Split},
		{"shamir.SplitGeneric", false, shamir.SplitGeneric},
		{"shamir.SplitP", false, shamir.SplitP},
		{"shamir.SplitWithRandomizer with a new source", false, func(s []byte, n, k int) ([][]byte, error) {
			return shamir.SplitWithRandomizer(s, n, k, csprng.NewCSPRNG())
		}},
		{"shamir.SplitWithRandomizerOld with a new source", false, func(s []byte, n, k int) ([][]byte, error) {
			return shamir.SplitWithRandomizerOld(s, n, k, csprng.NewCSPRNG())
		}},
		{"krawczyk.Split", true, krawczyk.Split},
		{"krawczyk.SplitWithRandomizer with a new source", true, func(s []byte, n, k int) ([][]byte, error) {
			return krawczyk.SplitWithRandomizer(s, n, k, csprng.NewCSPRNG())
		}},
		{"a new worker's Split(shamir)", false, func(s []byte, n, k int) ([][]byte, error) { return newWorker().Split(algShamir, s, n, k) }},
		{"a new worker's Split(krawczyk)", true, func(s []byte, n, k int) ([][]byte, error) { return newWorker().Split(algSSMS, s, n, k) }},
	} {
		es = append(es, c06splitEntry(sp, 16, 24, 3), c06splitEntry(sp, l, n, k))
	}
	es = append(es,
		c06entry{"csprng.NewCSPRNG", func(c *C) []c06comp {
			b := make([]byte, 32)
			c.Do("NewCSPRNG", func() { csprng.NewCSPRNG().Read(b) })
			return []c06comp{{"output", b}}
		}},
		c06entry{"csprng.NewCSPRNG Perm", func(c *C) []c06comp {
			var b []byte
			c.Do("NewCSPRNG", func() { b = csprng.NewCSPRNG().Perm(255) })
			return []c06comp{{"permutation", b}}
		}},
		c06entry{"csprng.NewCSPRNG GetUniqueBytes", func(c *C) []c06comp {
			var b []byte
			c.Do("NewCSPRNG", func() { b = csprng.NewCSPRNG().GetUniqueBytes(16) })
			return []c06comp{{"unique bytes", b}}
		}},
		c06entry{"randomizer.NewRandomizer", func(c *C) []c06comp {
			b := make([]byte, 32)
			c.Do("NewRandomizer", func() { randomizer.NewRandomizer().Read(b) })
			return []c06comp{{"output", b}}
		}},
		c06entry{"randomizer.NewRandomizer Perm", func(c *C) []c06comp {
			var b []byte
			c.Do("NewRandomizer", func() { b = randomizer.NewRandomizer().Perm(255) })
			return []c06comp{{"permutation", b}}
		}},
		c06entry{"shamir.Regenerate one by one", func(c *C) []c06comp {
			var xs []byte
			for t := 0; t < 16; t++ {
				g := c.Range(2, 12)
				if t%4 == 0 {
					g = k
				}
				var pts []byte
				for _, v := range c.R.Perm(255)[:min(g, 250)] {
					pts = append(pts, byte(v+1))
				}
				sh := ref.RandPoly(ms[:1], len(pts), c.Fill).MakeShares(pts)
				var r [][]byte
				c.Do("Regenerate", func() { r, _ = shamir.Regenerate(sh, 1+t%5/4) })
				if len(r) == 0 || len(r[0]) == 0 {
					return []c06comp{{"new points", nil}}
				}
				xs = append(xs, r[0][len(r[0])-1])
			}
			return []c06comp{{"new points", xs}}
		}},
		c06entry{"shamir.Regenerate", func(c *C) []c06comp {
			sh := ref.Poly{append([]byte{7}, ms[0]), append([]byte{8}, ms[1])}.MakeShares([]byte{3, 200})
			var r [][]byte
			c.Do("Regenerate", func() { r, _ = shamir.Regenerate(sh, 24) })
			var xs []byte
			for _, s := range r {
				if len(s) > 0 {
					xs = append(xs, s[len(s)-1])
				}
			}
			return []c06comp{{"new points", xs}}
		}})
	return es
}

// related reports whether two observations of one component share a long
// stretch (12 bytes anywhere, or 12 bytes at the start).
func related(a, b []byte) bool {
	if len(a) < winLen || len(b) < winLen {
		return false
	}
	for i := 0; i+winLen <= len(a); i++ {
		if bytes.Contains(b, a[i:i+winLen]) {
			return true
		}
	}
	return false
}

// c06shape: thresholds and lengths far apart, with at least 12 random bytes.
func c06shape(c *C, i int) (l, n, k int) {
	k = []int{2, 4, 5, 7, 8, 9, 10, 16, 17, 20, 32, 33, 50, 65, 100, 128, 129, 200, 254, 255}[i%20]
	n = c.Range(k, min(255, k+20))
	if i/20%2 == 1 {
		n = c.Range(k, 255)
	}
	l = []int{1, 2, 13, 16, 17, 31, 32, 33, 64, 65, 100, 128, 200, 255, 257, 512, 1000, 1025, 2000, 4097}[(i*7+i/20)%20]
	if k > 40 {
		l = min(l, 12)
	}
	if k < 14 {
		l = max(l, 13)
	}
	return
}

func c06shaped(c *C, i int) []c06entry {
	l, n, k := c06shape(c, i)
	return c06entriesOf(c, l, n, k)
}

func c06reseed(c *C, i int) {
	es := c06shaped(c, i)
	for _, e := range es {
		seed := int64(c.R.Uint64() >> 1)
		switch i % 4 {
		case 0:
			seed = int64(i)
		case 1:
			seed = time.Now().UnixNano()
		}
		var obs [3][]c06comp
		for r := range obs {
			predictable(seed)
			obs[r] = e.run(c)
			freezeClock(0)
			if obs[r] == nil {
				return
			}
		}
		for j, a := range obs[0] {
			for r := 1; r < len(obs); r++ {
				c.Eval(1)
				c.Obs("components", 1)
				c.Distinct(e.name, a.name, "reseed", i)
				if b := obs[r][j]; related(a.b, b.b) {
					c.ViolateD(map[string]any{"first": Hex(a.b), "again": Hex(b.b), "seed": seed}, "reproducible",
						"%s: after resetting math/rand to seed %d again, the %s repeat: %x and %x", e.name, seed, a.name, trunc(a.b), trunc(b.b))
					return
				}
			}
		}
	}
	if i < 3 {
		c.Sample(map[string]any{"entry_points": len(es), "attack": "rand.Seed before each of 3 runs", "component": es[0].name})
	}
}

func trunc(b []byte) []byte { return b[:min(32, len(b))] }

// --- brute force over generator states ---------------------------------------

type wanted struct {
	idx    map[uint64][]int // first 8 bytes of windows -> component
	comps  []c06comp
	starts []int
	bloom  [1 << 16]bool
	points bool // some component is a list of distinct numbers
}

// newWanted indexes a few windows of every component.
func newWanted(comps []c06comp) *wanted {
	w := &wanted{idx: map[uint64][]int{}}
	for _, cm := range comps {
		if n := cm.name; len(cm.b) >= winLen && !strings.HasSuffix(n, "oefficients") && !strings.HasSuffix(n, "key") && !strings.HasSuffix(n, "output") {
			w.points = true
		}
		for _, st := range []int{0, 1, 2, len(cm.b) / 2} {
			if st+winLen <= len(cm.b) {
				w.bloom[binary.LittleEndian.Uint64(cm.b[st:])*0x9e3779b97f4a7c15>>48] = true
				w.idx[binary.LittleEndian.Uint64(cm.b[st:])] = append(w.idx[binary.LittleEndian.Uint64(cm.b[st:])], len(w.comps))
				w.comps = append(w.comps, cm)
				w.starts = append(w.starts, st)
			}
		}
	}
	return w
}

func (w *wanted) find(stream []byte) *c06comp {
	if len(stream) < winLen {
		return nil
	}
	v := binary.LittleEndian.Uint64(stream)
	for i := 8; ; i++ {
		if w.bloom[v*0x9e3779b97f4a7c15>>48] {
			l := w.idx[v]
			for _, ci := range l {
				t := w.comps[ci].b[w.starts[ci]:]
				if m := min(len(t), winLen); bytes.HasPrefix(stream[i-8:], t[:m]) {
					return &w.comps[ci]
				}
			}
		}
		if i >= len(stream) {
			return nil
		}
		v = v>>8 | uint64(stream[i])<<56
	}
}

var c06buf = make([]byte, 4096)

// candidate tries one math/rand state in the ways a caller might use it.
func (w *wanted) candidate(c *C, seed int64, deep bool) (*c06comp, string) {
	c.Obs("candidate states", 1)
	src := mrand.NewSource(seed)
	r := mrand.New(src)
	n := 640
	if deep {
		n = 4096
	}
	raw := c06buf[:n]
	r.Read(raw)
	if h := w.find(raw); h != nil {
		return h, "math/rand Read"
	}
	// a csprng seeded by the first, or some other early, bytes of the stream
	for _, off := range []int{0, 32} {
		g := csprng.NewCSPRNGWithKeyIV(raw[off : off+32])
		out := make([]byte, 448)
		g.Read(out)
		if h := w.find(out); h != nil {
			return h, fmt.Sprintf("csprng keyed by math/rand bytes %d..%d", off, off+31)
		}
		if !w.points {
			continue
		}
		g = csprng.NewCSPRNGWithKeyIV(raw[off : off+32])
		p := g.Perm(255)
		for i := range p {
			p[i]++
		}
		if h := w.find(p[:30]); h != nil {
			return h, "permutation of a csprng keyed by math/rand"
		}
		for i := range p {
			p[i]--
		}
		if h := w.find(p[:30]); h != nil {
			return h, "permutation of a csprng keyed by math/rand"
		}
		if off == 0 {
			u := csprng.NewCSPRNGWithKeyIV(raw[:32]).GetUniqueBytes(16)
			if h := w.find(u); h != nil {
				return h, "unique bytes of a csprng keyed by math/rand"
			}
		}
	}
	if !deep {
		return nil, ""
	}
	r = mrand.New(mrand.NewSource(seed))
	for i := range raw[:1024] {
		raw[i] = byte(r.Intn(256))
	}
	if h := w.find(raw[:1024]); h != nil {
		return h, "math/rand Intn(256)"
	}
	r = mrand.New(mrand.NewSource(seed))
	for i := range raw[:1024] {
		raw[i] = byte(r.Int())
	}
	if h := w.find(raw[:1024]); h != nil {
		return h, "math/rand Int"
	}
	r = mrand.New(mrand.NewSource(seed))
	pp := r.Perm(255)
	for i, v := range pp {
		raw[i] = byte(v)
		raw[300+i] = byte(v + 1)
	}
	if h := w.find(raw[:600]); h != nil {
		return h, "math/rand Perm"
	}
	p2 := mrand2.New(mrand2.NewPCG(uint64(seed), uint64(seed)))
	for i := 0; i < 128; i++ {
		binary.LittleEndian.PutUint64(raw[i*8:], p2.Uint64())
	}
	if h := w.find(raw[:1024]); h != nil {
		return h, "math/rand/v2 PCG(seed, seed)"
	}
	for _, s2 := range []uint64{0, uint64(os.Getpid())} {
		p2 = mrand2.New(mrand2.NewPCG(uint64(seed), s2))
		for i := 0; i < 128; i++ {
			binary.LittleEndian.PutUint64(raw[i*8:], p2.Uint64())
		}
		if h := w.find(raw[:1024]); h != nil {
			return h, "math/rand/v2 PCG"
		}
	}
	return nil, ""
}

// seedsFor lists the candidate seeds for a clock window.
func seedsFor(t0, t1 time.Time, pid int, limit int) (fine []int64, coarse []int64) {
	a, b := t0.UnixNano(), t1.UnixNano()
	p := int64(pid)
	for t := a; t <= b && len(fine) < limit; t++ {
		fine = append(fine, t)
	}
	add := func(v ...int64) {
		for _, x := range v {
			coarse = append(coarse, x, x^p, x+p, x*p, x|p, x-p, x%(1<<31), int64(int32(x)), int64(uint32(x)), x<<16|p&0xffff, x^p<<32)
		}
	}
	for t := a / 1000; t <= b/1000 && t < a/1000+2000; t++ {
		add(t)
	}
	for t := a / 1000000; t <= b/1000000; t++ {
		add(t)
	}
	for t := a / 1000000000; t <= b/1000000000; t++ {
		add(t)
	}
	for v := int64(0); v < 300; v++ {
		coarse = append(coarse, v)
	}
	coarse = append(coarse, p, -p, p<<16, 42, 1337, 123456789, p*p, int64(os.Getppid()), int64(os.Getppid())^p, 0x5eed, 0xdeadbeef, 0xcafebabe, 31337, 65536, 1<<31-1)
	return
}

// searchLimit bounds the search of candidate states in the quick tier: they
// include the library's own permutations, which may be costly.
func searchLimit(c *C, d time.Duration) func() bool {
	end := time.Now().Add(d)
	return func() bool {
		if c.Thorough || time.Now().Before(end) {
			return false
		}
		c.Obs("searches cut short", 1)
		return true
	}
}

func c06clock(c *C, i int) {
	es := c06shaped(c, i*3+i/len(c06entries(c)))
	e := es[i%len(es)]
	var comps []c06comp
	var t0, t1 time.Time
	limit := 60000
	if c.Thorough {
		limit = 400000
	}
	for try := 0; try < 60; try++ {
		c06to = time.Time{}
		t0 = time.Now()
		comps = e.run(c) // contains the recovery, unless the split itself is timed
		t1 = time.Now()
		if comps == nil {
			return
		}
		if !c06to.IsZero() {
			t0, t1 = c06from, c06to
		}
		if t1.Sub(t0) < time.Duration(limit) {
			break
		}
		c.Obs("windows too wide", 1)
	}
	w := newWanted(comps)
	fine, coarse := seedsFor(t0, t1, os.Getpid(), limit)
	c.Eval(int64(len(comps)) * int64(len(fine)+len(coarse)))
	c.Obs("components", int64(len(comps)))
	c.Distinct(e.name, "clock", i)
	c.Do("trying candidate generator states for "+e.name, func() {
		slow := searchLimit(c, 6*time.Second)
		try := func(list []int64, deep bool) bool {
			for x, s := range list {
				if x&255 == 255 && !deep && slow() {
					return false
				}
				if h, how := w.candidate(c, s, deep); h != nil {
					c.ViolateD(map[string]any{"component": Hex(h.b), "seed": s, "call_window_ns": []int64{t0.UnixNano(), t1.UnixNano()}, "pid": os.Getpid()}, "guessable",
						"%s: the %s are the output of %s with seed %d (call between %d and %d ns, pid %d)", e.name, h.name, how, s, t0.UnixNano(), t1.UnixNano(), os.Getpid())
					return false
				}
			}
			return true
		}
		_ = try(coarse, true) && try(fine, false)
	})
	if i < 3 {
		c.Sample(map[string]any{"entry": e.name, "window_ns": t1.Sub(t0).Nanoseconds(), "candidates": len(fine) + len(coarse), "components": len(comps)})
	}
}

// --- fresh processes -----------------------------------------------------------

type initProbe struct {
	T0, T1 int64
	Pid    int
	Names  []string
	Bytes  [][]byte
	Start  []int // entropy read before the component's operation and
	End    []int // after it, if that is counted
}

// InitProbe prints the first random components of a fresh process.
func InitProbe() {
	m := Monitors["C06"]
	k := deriveKey(0, "probe")
	c := &C{M: m, S: &m.Stages[0], res: &Result{Counts: map[string]int64{}}, distinct: map[uint64]struct{}{}}
	c.src = mrand2.NewChaCha8(k)
	c.R = mrand2.New(c.src)
	c.forked = true
	ip := initProbe{T0: aasimd.T0.UnixNano(), T1: initDone.UnixNano(), Pid: os.Getpid()}
	es := c06entries(c)
	f := &flipReader{at: -1}
	if p := os.Getenv("VMON_FLIP"); p != "" { // from here on, fixed entropy
		var key uint64
		if n, _ := fmt.Sscan(p, &key, &f.at, &f.with); n != 3 {
			fmt.Println("bad VMON_FLIP")
			os.Exit(2)
		}
		f.s = mrand2.NewChaCha8(deriveKey(key, "flip"))
		crand.Reader = f
	}
	for _, e := range es {
		from := f.pos
		for _, cm := range e.run(c) {
			ip.Names = append(ip.Names, e.name+": "+cm.name)
			ip.Bytes = append(ip.Bytes, cm.b)
			ip.Start = append(ip.Start, from)
			ip.End = append(ip.End, f.pos)
		}
	}
	b, _ := json.Marshal(ip)
	os.Stdout.Write(append(append([]byte("\nPROBE:"), b...), '\n'))
}

// c06refrozen compares fresh processes that see the same clock and the same
// process id, and whose math/rand is not seeded at random.
func c06refrozen(c *C, i int) {
	self, err := os.Executable()
	if err != nil {
		Inconclusive("%v", err)
	}
	clock := 1_600_000_000_000_000_000 + c.R.Int64N(300_000_000_000_000_000)
	if i%2 == 1 {
		clock -= clock % 1_000_000_000
	}
	pid := c.Range(2, 4_000_000)
	var ps []initProbe
	for r := 0; r < 6; r++ {
		cmd := exec.Command(self, "-initprobe")
		cmd.Env = append(os.Environ(), fmt.Sprintf("VMON_CLOCK=%d", clock), fmt.Sprintf("VMON_PID=%d", pid), "GODEBUG=randautoseed=0", "GOMAXPROCS=1")
		ip := runProbe(cmd)
		if ip.Pid != pid || ip.T0 < clock || ip.T0 > clock+1e9 {
			Inconclusive("the fresh process saw clock %d and pid %d instead of %d and %d", ip.T0, ip.Pid, clock, pid)
		}
		ps = append(ps, ip)
		c.Obs("processes", 1)
		c.Obs("processes with the same clock and pid", 1)
	}
	c06comparePS(c, ps, "refrozen", " with the same clock and process id")
}

// c06traced runs fresh processes that differ in nothing but one byte of the
// system's entropy, and counts on how many such bytes each component depends.
// Unlike within one process, nothing that counts or remembers calls gets in
// the way.
func c06traced(c *C, i int) {
	self, err := os.Executable()
	if err != nil {
		Inconclusive("%v", err)
	}
	clock := 1_600_000_000_000_000_000 + c.R.Int64N(300_000_000_000_000_000)
	pid := c.Range(2, 4_000_000)
	key := c.R.Uint64() >> 1
	run := func(at int, with byte) initProbe {
		cmd := exec.Command(self, "-initprobe")
		cmd.Env = append(os.Environ(), fmt.Sprintf("VMON_CLOCK=%d", clock), fmt.Sprintf("VMON_PID=%d", pid), "GODEBUG=randautoseed=0", "GOMAXPROCS=1",
			fmt.Sprintf("VMON_FLIP=%d %d %d", key, at, with))
		c.Obs("processes", 1)
		return runProbe(cmd)
	}
	base, again := run(-1, 0), run(-1, 0)
	for j := range base.Names {
		if j%8 != i%8 {
			continue
		}
		same := j < len(again.Names) && bytes.Equal(base.Bytes[j], again.Bytes[j]) && base.Start[j] == again.Start[j]
		if base.End[j] == base.Start[j] || !same {
			c.Obs("components that are no function of the entropy they read", 1)
			continue
		}
		need := min(16, len(base.Bytes[j])/2)
		n, tried := 0, 0
		// its own entropy first, then what was read before
		for at := base.End[j] - 1; at >= 0 && n < need && tried < 600; at-- {
			for try := 0; try < 2; try++ {
				tried++
				p := run(at, byte(c.Range(1, 255)))
				c.Eval(1)
				if len(p.Names) != len(base.Names) || p.Start[j] != base.Start[j] && at < base.Start[j] {
					break // shifts what is read later
				}
				if !bytes.Equal(p.Bytes[j], base.Bytes[j]) {
					n++
					break
				}
			}
		}
		c.Obs("components whose entropy was traced", 1)
		c.Distinct(base.Names[j], "traced")
		if n < need && tried < 600 {
			c.ViolateD(map[string]any{"value": Hex(base.Bytes[j]), "entropy_from": base.Start[j], "entropy_to": base.End[j]}, "little-entropy", "%s depend on %d bytes of the system's entropy only, of %d read", base.Names[j], n, base.End[j]-base.Start[j])
			return
		}
	}
}

func runProbe(cmd *exec.Cmd) (ip initProbe) {
	b, err := cmd.Output()
	if err != nil {
		Inconclusive("fresh process failed: %v %s", err, b)
	}
	at := bytes.Index(b, []byte("\nPROBE:"))
	if at < 0 || json.Unmarshal(bytes.TrimSpace(b[at+7:]), &ip) != nil {
		Inconclusive("fresh process printed %s", trunc(b))
	}
	if len(ip.Names) < 20 {
		Inconclusive("fresh process reported %d components", len(ip.Names))
	}
	return
}

func c06comparePS(c *C, ps []initProbe, how, note string) bool {
	for a := range ps {
		for b := a + 1; b < len(ps); b++ {
			for j := range ps[a].Names {
				c.Eval(1)
				c.Obs("components", 1)
				if j < len(ps[b].Bytes) && related(ps[a].Bytes[j], ps[b].Bytes[j]) {
					c.Violate("reproducible", "%s repeats after a restart of the process%s: %x and %x", ps[a].Names[j], note, trunc(ps[a].Bytes[j]), trunc(ps[b].Bytes[j]))
					return false
				}
				c.Distinct(ps[a].Names[j], how)
			}
		}
	}
	return true
}

// c06birthday makes very many fresh sources and looks for two that give the
// same bytes, as they must if their states come from few possibilities.
func c06birthday(c *C, i int) {
	zero := make([]byte, 16)
	var inv [256]byte
	for x := 1; x < 256; x++ {
		inv[x] = ref.Inv(byte(x))
	}
	first := func(sh [][]byte, err error) (out [16]byte, ok bool) {
		if err != nil || len(sh) != 2 || len(sh[0]) != 17 || len(sh[1]) != 17 {
			return out, false
		}
		d := inv[sh[0][16]^sh[1][16]]
		for j := range out {
			out[j] = ref.Mul(sh[0][j]^sh[1][j], d)
		}
		return out, true
	}
	key := func(sh [][]byte, err error) (out [16]byte, ok bool) {
		if err != nil || len(sh) != 2 || len(sh[0]) != len(sh[1]) || len(sh[0]) < ref.MetaLen+17 {
			return out, false
		}
		// with a constant secret the encrypted parts depend on the key alone
		copy(out[:], sh[0][ref.MetaLen:])
		return out, true
	}
	long := make([]byte, 40)
	entries := []struct {
		name string
		n    int
		run  func() ([16]byte, bool)
	}{
		{"csprng.NewCSPRNG Read", 1 << 18, func() (o [16]byte, ok bool) { csprng.NewCSPRNG().Read(o[:]); return o, true }},
		{"randomizer.NewRandomizer Read", 1 << 18, func() (o [16]byte, ok bool) { randomizer.NewRandomizer().Read(o[:]); return o, true }},
		{"csprng.NewCSPRNG Perm", 1 << 15, func() (o [16]byte, ok bool) { copy(o[:], csprng.NewCSPRNG().Perm(255)); return o, true }},
		{"randomizer.NewRandomizer Perm", 1 << 15, func() (o [16]byte, ok bool) { copy(o[:], randomizer.NewRandomizer().Perm(255)); return o, true }},
		{"csprng.NewCSPRNG GetUniqueBytes", 1 << 16, func() (o [16]byte, ok bool) { copy(o[:], csprng.NewCSPRNG().GetUniqueBytes(16)); return o, true }},
		{"shamir.Split", 1 << 17, func() ([16]byte, bool) { return first(shamir.Split(zero, 2, 2)) }},
		{"shamir.SplitGeneric", 1 << 17, func() ([16]byte, bool) { return first(shamir.SplitGeneric(zero, 2, 2)) }},
		{"shamir.SplitP", 1 << 16, func() ([16]byte, bool) { return first(shamir.SplitP(zero, 2, 2)) }},
		{"shamir.SplitWithRandomizer with a new source", 1 << 17, func() ([16]byte, bool) {
			return first(shamir.SplitWithRandomizer(zero, 2, 2, csprng.NewCSPRNG()))
		}},
		{"a new worker's Split(shamir)", 1 << 17, func() ([16]byte, bool) { return first(newWorker().Split(algShamir, zero, 2, 2)) }},
		{"krawczyk.Split", 1 << 16, func() ([16]byte, bool) { return key(krawczyk.Split(long, 2, 2)) }},
		{"a new worker's Split(krawczyk)", 1 << 16, func() ([16]byte, bool) { return key(newWorker().Split(algSSMS, long, 2, 2)) }},
	}
	e := entries[i%len(entries)]
	n := e.n
	if c.Thorough {
		n <<= 3
	}
	same := i/len(entries)%2 == 1 // math/rand and the clock are reset before each
	seed := int64(c.R.Uint64() >> 1)
	if same {
		n >>= 3 // resetting takes longer
	}
	seen := make([][16]byte, 0, n)
	bad := false
	c.Do(fmt.Sprintf("%d times %s", n, e.name), func() {
		for j := 0; j < n; j++ {
			if same {
				predictable(seed)
			}
			o, ok := e.run()
			if !ok {
				bad = true
				return
			}
			seen = append(seen, o)
		}
	})
	freezeClock(0)
	if bad {
		c.Violate("split-failed", "%s of a short secret (2, 2) failed", e.name)
		return
	}
	slices.SortFunc(seen, func(a, b [16]byte) int { return bytes.Compare(a[:], b[:]) })
	for j := 1; j < len(seen); j++ {
		if seen[j] == seen[j-1] {
			c.Violate("collision", "%s: two of %d fresh sources gave the same bytes %x", e.name, len(seen), seen[j])
			break
		}
	}
	c.Eval(int64(len(seen)))
	c.Obs("components", int64(len(seen)))
	c.Obs("fresh sources compared", int64(len(seen)))
	c.Distinct(e.name, "birthday", i)
	if i < 3 {
		c.Sample(map[string]any{"entry": e.name, "fresh_sources": len(seen), "reset_before_each": same, "one_output": Hex(seen[0][:])})
	}
}

func c06restart(c *C, i int) {
	self, err := os.Executable()
	if err != nil {
		Inconclusive("%v", err)
	}
	var ps []initProbe
	for r := 0; r < 4; r++ {
		ip := runProbe(exec.Command(self, "-initprobe"))
		ps = append(ps, ip)
		c.Obs("processes", 1)
	}
	if !c06comparePS(c, ps, "restart", "") {
		return
	}
	// generator states made while the packages were initialised
	ip := ps[0]
	for _, q := range ps[1:] {
		if q.T1-q.T0 < ip.T1-ip.T0 {
			ip = q
		}
	}
	var comps []c06comp
	for j := range ip.Names {
		comps = append(comps, c06comp{ip.Names[j], ip.Bytes[j]})
	}
	w := newWanted(comps)
	limit := 300000
	if c.Thorough {
		limit = 3000000
	}
	// each case takes one eighth of its process's initialisation window
	width := (ip.T1 - ip.T0) / 8
	from := ip.T0 + width*int64(i%8)
	fine, coarse := seedsFor(time.Unix(0, from), time.Unix(0, from+width), ip.Pid, limit)
	if int64(len(fine)) < width {
		c.Obs("initialisation windows cut", 1)
	}
	c.Eval(int64(len(fine) + len(coarse)))
	if i == 0 {
		c.Sample(map[string]any{"process_initialisation_window_ns": ip.T1 - ip.T0, "candidates": len(fine) + len(coarse)})
	}
	c.Do("trying candidate states of process initialisation", func() {
		slow := searchLimit(c, 40*time.Second)
		for x, list := range [][]int64{coarse, fine} {
			for y, s := range list {
				if y&255 == 255 && x == 1 && slow() {
					return
				}
				if h, how := w.candidate(c, s, x == 0); h != nil {
					c.Violate("guessable", "%s (fresh process) are the output of %s with seed %d (initialised between %d and %d ns, pid %d)", h.name, how, s, ip.T0, ip.T1, ip.Pid)
					return
				}
			}
		}
	})
}

// --- single predictable bytes ---------------------------------------------------

// binTail is a bound on -log10 of the chance of at least obs successes in n
// trials of chance p each (Chernoff).
func binTail(obs, n int, p float64) float64 {
	q := float64(obs) / float64(n)
	if q <= p || p >= 1 {
		return 0
	}
	d := q * math.Log(q/p)
	if q < 1 {
		d += (1 - q) * math.Log((1-q)/(1-p))
	}
	return float64(n) * d / math.Ln10
}

// c06bytewise runs one entry point many times, each time after the same reset
// of math/rand, and looks for single bytes that are the same in more runs than
// chance allows, at a position or (in lists without repetition) anywhere.
// c06aged: sources and workers that have been used a lot already, in the same
// way, are compared after resetting math/rand to the same state.
func c06aged(c *C, i int) {
	const runs = 3
	var srcs [runs]*csprng.CSPRNG
	var wks [runs]workerPair
	var rzs [runs]*randomizer.Randomizer
	for r := range srcs {
		srcs[r], wks[r], rzs[r] = csprng.NewCSPRNG(), newWorker(), randomizer.NewRandomizer()
	}
	top := 24
	if c.Thorough {
		top = 28
	}
	ways := []struct {
		name string
		max  int // how often, or how much, at most
		age  func(r, n int)
	}{
		{"bytes read at once", 1 << top, func(r, n int) { srcs[r].Read(make([]byte, n)); rzs[r].Read(make([]byte, n)) }},
		{"bytes read in pieces", 1 << top, func(r, n int) {
			b := make([]byte, min(n, 4000+i))
			for ; n > 0; n -= len(b) {
				srcs[r].Read(b)
				rzs[r].Read(b)
			}
		}},
		{"reads", 1 << (top - 8), func(r, n int) {
			b := make([]byte, 1+i%20)
			for ; n > 0; n-- {
				srcs[r].Read(b)
				rzs[r].Read(b)
			}
		}},
		{"random lists", 1 << (top - 11), func(r, n int) {
			for ; n > 0; n-- {
				srcs[r].GetUniqueBytes(5)
				srcs[r].Perm(9)
				rzs[r].Perm(9)
			}
		}},
		{"splits", 1 << (top - 13), func(r, n int) {
			secret := make([]byte, 10+i)
			for ; n > 0; n-- {
				wks[r].Split(algShamir, secret, 3, 2)
				shamir.SplitWithRandomizer(secret, 3, 2, srcs[r])
				shamir.Split(secret, 3, 2)
				if HaveSSMS {
					wks[r].Split(algSSMS, secret, 3, 2)
					krawczyk.SplitWithRandomizer(secret, 3, 2, srcs[r])
					krawczyk.Split(secret, 3, 2)
				}
			}
		}},
		{"bytes split at once", 1 << (top - 3), func(r, n int) {
			secret := make([]byte, n)
			wks[r].Split(algShamir, secret, 2, 2)
			shamir.SplitWithRandomizerOld(secret, 2, 2, srcs[r])
			shamir.SplitGeneric(secret, 2, 2)
		}},
	}
	way := ways[i%len(ways)]
	secret := make([]byte, 20)
	age := 0
	for step := 1; age < way.max; step = max(1, min(age, way.max-age)) {
		if i/6%2 == 1 {
			step = min(way.max, c.Range(step, 2*step+1))
		}
		past := int64(c.R.Uint64() >> 1)
		for r := range srcs {
			predictable(past)
			ok := c.Do(fmt.Sprintf("%d %s", step, way.name), func() { way.age(r, step) })
			freezeClock(0)
			if !ok {
				return
			}
		}
		age += step
		seed := int64(c.R.Uint64() >> 1)
		es := []struct {
			name string
			run  func(r int) []byte
		}{
			{"csprng.Read", func(r int) []byte { b := make([]byte, 40); srcs[r].Read(b); return b }},
			{"csprng.Perm", func(r int) []byte { return srcs[r].Perm(255) }},
			{"randomizer.Read", func(r int) []byte { b := make([]byte, 40); rzs[r].Read(b); return b }},
			{"randomizer.Perm", func(r int) []byte { return rzs[r].Perm(255) }},
			{"worker.Split(shamir)", func(r int) []byte {
				sh, _ := wks[r].Split(algShamir, secret, 2, 2)
				return append([]byte(nil), sh[0][:len(secret)]...)
			}},
			{"worker.Split(krawczyk)", func(r int) []byte {
				sh, _ := wks[r].Split(algSSMS, secret, 20, 2)
				var b []byte
				for _, s := range sh[:18] {
					b = append(b, s[ref.MetaLen-1])
				}
				return b
			}},
			{"worker.Split(krawczyk) payload", func(r int) []byte {
				sh, _ := wks[r].Split(algSSMS, make([]byte, 40), 2, 2)
				return sh[0][ref.MetaLen : len(sh[0])-1]
			}},
			{"shamir.Split", func(r int) []byte { sh, _ := shamir.Split(secret, 2, 2); return sh[0][:len(secret)] }},
		}
		for _, e := range es {
			if !HaveSSMS && e.name != "worker.Split(shamir)" && e.name[0] == 'w' {
				continue
			}
			var obs [runs][]byte
			for r := range obs {
				predictable(seed)
				ok := c.Do(e.name, func() { obs[r] = e.run(r) })
				freezeClock(0)
				if !ok {
					return
				}
				c.Eval(1)
				c.Obs("components", 1)
				for q := 0; q < r; q++ {
					if related(obs[q], obs[r]) {
						c.ViolateD(map[string]any{"first": Hex(obs[q]), "again": Hex(obs[r]), "seed": seed}, "reproducible",
							"%s after %d %s: with math/rand reset to the same state, independent sources give the same bytes: %x and %x", e.name, age, way.name, trunc(obs[q]), trunc(obs[r]))
						return
					}
				}
			}
			c.Distinct(e.name, way.name, age, "aged")
		}
	}
}

func c06bytewise(c *C, i int) {
	type ent struct {
		name string
		runs int
		pool int // the lists are without repetition, from so many values
		run  func(c *C) []c06comp
	}
	var es []ent
	size := c.Range(2, 120)
	short := 1 + i/16%3
	points := func(name string, sp func(s []byte, n, k int) ([][]byte, error), n int) ent {
		return ent{name, 160, 255, func(c *C) []c06comp {
			secret := make([]byte, short)
			var sh [][]byte
			var err error
			if !c.Do(name, func() { sh, err = sp(secret, n, 2) }) {
				return nil
			}
			if err != nil || len(sh) != n {
				c.Violate("split-failed", "%s of %d bytes (%d, 2): %d shares, error %v", name, short, n, len(sh), err)
				return nil
			}
			var xs []byte
			for _, s := range sh {
				xs = append(xs, s[len(s)-1])
			}
			return []c06comp{{"points", xs}}
		}}
	}
	for _, sp := range []Splitter{
		{"shamir.Split", false, shamir.Split},
		{"shamir.SplitGeneric", false, shamir.SplitGeneric},
		{"shamir.SplitP", false, shamir.SplitP},
		{"shamir.SplitWithRandomizer with a new source", false, func(s []byte, n, k int) ([][]byte, error) {
			return shamir.SplitWithRandomizer(s, n, k, csprng.NewCSPRNG())
		}},
		{"shamir.SplitWithRandomizerOld with a new source", false, func(s []byte, n, k int) ([][]byte, error) {
			return shamir.SplitWithRandomizerOld(s, n, k, csprng.NewCSPRNG())
		}},
		{"a new worker's Split(shamir)", false, func(s []byte, n, k int) ([][]byte, error) { return newWorker().Split(algShamir, s, n, k) }},
	} {
		es = append(es, points(sp.Name, sp.Split, size))
	}
	l, n, k := c06shape(c, i/2)
	for _, e := range c06entriesOf(c, l, n, k) {
		es = append(es, ent{e.name, 48, 0, e.run})
	}
	es = append(es, ent{"csprng.NewCSPRNG GetUniqueBytes", 200, 255, func(c *C) []c06comp {
		var b []byte
		c.Do("GetUniqueBytes", func() { b = csprng.NewCSPRNG().GetUniqueBytes(byte(size)) })
		return []c06comp{{"unique bytes", b}}
	}}, ent{"randomizer.NewRandomizer Perm", 160, 0, func(c *C) []c06comp {
		var b []byte
		c.Do("Perm", func() { b = randomizer.NewRandomizer().Perm(255) })
		return []c06comp{{"permutation", b}}
	}})
	for _, g := range [][2]int{{2, size}, {c.Range(30, 120), c.Range(2, 40)}, {c.Range(120, 230), c.Range(2, 24)}, {c.Range(2, 5), 1}, {c.Range(4, 12), 1}, {c.Range(2, 60), c.Range(1, 3)}} {
		k, n := g[0], g[1]
		var p ref.Poly
		for b := 0; b < short; b++ {
			p = append(p, c.Bytes(k))
		}
		xs := c.R.Perm(255)[:k]
		pts := make([]byte, k)
		for j, x := range xs {
			pts[j] = byte(x + 1)
		}
		sh := p.MakeShares(pts)
		free := map[byte]bool{}
		for _, x := range pts {
			free[x] = true
		}
		es = append(es, ent{"shamir.Regenerate", 200, 255 - k, func(c *C) []c06comp {
			var r [][]byte
			var err error
			if !c.Do("Regenerate", func() { r, err = shamir.Regenerate(sh, n) }) {
				return nil
			}
			if err != nil {
				c.Violate("regenerate-failed", "Regenerate of %d new shares from %d: %v", n, k, err)
				return nil
			}
			var xs []byte
			for _, s := range r {
				if len(s) > 0 && !free[s[len(s)-1]] {
					xs = append(xs, s[len(s)-1])
				}
			}
			if len(xs) != n {
				c.Violate("regenerate-failed", "Regenerate of %d new shares from %d gave %d with new points", n, k, len(xs))
				return nil
			}
			return []c06comp{{"new points", xs}}
		}})
	}
	for j := i % 16; j < len(es); j += 16 {
		e := es[j]
		seed := int64(c.R.Uint64() >> 1)
		if i%3 == 0 {
			seed = int64(i)
		}
		at := map[string]map[[2]int]int{} // component -> (position, value) -> runs
		in := map[string]map[byte]int{}
		length := map[string]int{}
		for r := 0; r < e.runs; r++ {
			predictable(seed)
			comps := e.run(c)
			freezeClock(0)
			if comps == nil {
				return
			}
			for _, cm := range comps {
				if at[cm.name] == nil {
					at[cm.name], in[cm.name] = map[[2]int]int{}, map[byte]int{}
				}
				length[cm.name] = len(cm.b)
				var seen [256]bool
				for pos, v := range cm.b {
					if pos < 512 || pos >= len(cm.b)-512 {
						at[cm.name][[2]int{pos, int(v)}]++
					}
					if !seen[v] {
						seen[v] = true
						in[cm.name][v]++
					}
				}
			}
		}
		for name, m := range at {
			c.Obs("components", 1)
			c.Obs("byte positions", int64(min(length[name], 1024)))
			c.Eval(int64(len(m)))
			c.Distinct(e.name, name, "bytewise", i)
			one := 0.01 // twice a fair share and more: a byte reduced modulo 255 may favour 0
			if e.pool != 0 {
				one += 1 / float64(e.pool)
			}
			for pv, cnt := range m {
				if t := binTail(cnt, e.runs, one); t > 18 {
					c.ViolateD(map[string]any{"seed": seed, "runs": e.runs}, "reproducible-byte",
						"%s: byte %d of the %s is %d in %d of %d runs, each after resetting math/rand to seed %d", e.name, pv[0], name, pv[1], cnt, e.runs, seed)
					return
				}
			}
			if e.pool == 0 {
				continue
			}
			p := 1.15*float64(length[name])/float64(e.pool) + 0.01
			for v, cnt := range in[name] {
				if t := binTail(cnt, e.runs, p); t > 18 {
					c.ViolateD(map[string]any{"seed": seed, "runs": e.runs}, "reproducible-byte",
						"%s: the value %d is among the %d %s in %d of %d runs, each after resetting math/rand to seed %d", e.name, v, length[name], name, cnt, e.runs, seed)
					return
				}
			}
		}
	}
}
