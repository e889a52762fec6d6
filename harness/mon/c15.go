//go:build !386

package mon

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"a.verif/vmon/ref"
	"github.com/fadhilkurnia/shamir/csprng"
	"github.com/fadhilkurnia/shamir/galois"
	"github.com/fadhilkurnia/shamir/krawczyk"
	"github.com/fadhilkurnia/shamir/randomizer"
	"github.com/fadhilkurnia/shamir/shamir"
	"github.com/fadhilkurnia/shamir/utils"
)

func init() {
	register(&Monitor{
		ID:          "C15",
		Rule:        "a case is one concurrent program: goroutines with their own lists of operations over package functions, own and shared workers and sources; every result is judged afterwards by the model, and the race configurations run under the Go race detector; distinct by the program",
		Configs:     []string{"race", "racenoasm", "stress", "stressnoasm"},
		Need:        map[string]int64{"concurrent operations": 100000, "share sets judged": 50000, "race detector operations": 20000},
		Assumptions: []string{"the race detector reports races of the executed schedules only, and does not see accesses made by assembly routines; the noasm configuration makes those visible", "buffers going back to the internal pools are overwritten through the verif hooks, and goroutines yield there"},
		Setup:       func(c *C) { poisonPools(true, c.Config != "race" && c.Config != "racenoasm") },
		Stages: []Stage{
			{Name: "mixed", N: c15n(24, 140, 2400), Run: c15mixed, RealEntropy: true, OpCPU: 120 * time.Second},
			{Name: "same", N: c15n(22, 110, 2200), Run: c15same, RealEntropy: true, OpCPU: 120 * time.Second},
			{Name: "readers", N: c15n(12, 40, 800), Run: c15readers, RealEntropy: true},
			{Name: "refused", N: c15n(6, 24, 480), Run: c15refusals, RealEntropy: true},
			{Name: "sizes", N: c15n(8, 16, 160), Run: c15sizes, RealEntropy: true, OpCPU: 200 * time.Second},
			{Name: "crowd", N: c15n(4, 44, 880), Run: c15crowd, RealEntropy: true, OpCPU: 200 * time.Second},
		},
	})
}

// c15n: stages run their first race cases in all configurations, the rest
// without the race detector only (see c15skip).
func c15n(race, quick, thorough int) func(bool) int {
	return func(t bool) int {
		if t {
			return thorough
		}
		return quick
	}
}

func c15skip(c *C, i int, race int) bool {
	if c.Config != "race" && c.Config != "racenoasm" {
		return false
	}
	if c.Thorough {
		race *= 15
	}
	return i >= race
}

// pool events are counted in shards without ordering the goroutines; the count
// is approximate
var poolCount [64]struct {
	n int64
	_ [56]byte
}

func poolEvents() (n int64) {
	for i := range poolCount {
		n += atomic.LoadInt64(&poolCount[i].n)
	}
	return
}

// poisonPools overwrites every buffer that is put back into a pool of the
// library, and makes goroutines yield around it.
// Counting would order goroutines for the race detector, so it is off there.
func poisonPools(yield, count bool) {
	poisonOnce.Do(func() {
		utils.VerifOnPut = func(p *utils.BytesBufferPool, b *bytes.Buffer) {
			if p == nil || b == nil {
				return
			}
			x := rand.Uint32()
			if count {
				atomic.AddInt64(&poolCount[x>>26].n, 1)
			}
			full := b.Bytes()
			full = full[:cap(full)]
			for i := range full {
				full[i] = 0xa5
			}
			if yield && x&3 == 0 {
				runtime.Gosched()
			}
		}
		utils.VerifOnGet = func(p *utils.BytesBufferPool) {
			if yield && rand.Uint32()&7 == 0 {
				runtime.Gosched()
			}
		}
	})
}

type c15op struct {
	kind   int
	secret []byte
	n, k   int
	sub    [][]byte
	pick   int
}

type c15out struct {
	name string
	ssms bool
	sh   [][]byte
	data []byte
	err  error
	pan  any
}

const (
	kSplit = iota
	kCombineShamir
	kCombineSSMS
	kRegenerate
	kRead
	kPerm
	kUnique
	kOwnRandom
	kVector
	kNewWorker
	kRefused
	nKinds
)

// c15world is what the goroutines share.
type c15world struct {
	w       workerPair
	src     *csprng.CSPRNG
	src2    *csprng.CSPRNG
	secret  []byte
	vec     []byte
	shamir  [][]byte
	ssms    [][]byte
	n, k    int
	mul     []byte
	poly    ref.Poly
	entries []Splitter
}

func newC15world(c *C) *c15world {
	if c.IntN(3) == 0 {
		return newC15worldOf(c, c.Range(1, 24))
	}
	return newC15worldOf(c, c.Range(1, 600))
}

func newC15worldOf(c *C, l int) *c15world {
	x := &c15world{w: newWorker(), src: csprng.NewCSPRNG(), src2: csprng.NewCSPRNG()}
	x.secret = anySecret(c, l)
	x.k = c.Range(2, 6)
	x.n = c.Range(x.k, 10)
	if l <= 24 && c.IntN(2) == 0 {
		// many parts
		x.n = c.Range(40, 255)
		x.k = c.Range(2, x.n)
	}
	x.poly = ref.RandPoly(x.secret, x.k, c.Fill)
	var xs []byte
	for _, v := range c.R.Perm(255)[:x.n] {
		xs = append(xs, byte(v+1))
	}
	x.shamir = x.poly.MakeShares(xs)
	x.ssms = ref.MakeSSMS(x.secret, c.Bytes(16), x.n, x.k, xs, c.Fill)
	x.vec = c.Bytes(c.Range(1, max(700, l)))
	w := x.w
	x.entries = []Splitter{
		{"shared worker Split(shamir)", false, func(s []byte, n, k int) ([][]byte, error) { return w.Split(algShamir, s, n, k) }},
		{"shared worker Split(krawczyk)", true, func(s []byte, n, k int) ([][]byte, error) { return w.Split(algSSMS, s, n, k) }},
		{"shamir.SplitWithRandomizer(shared source)", false, func(s []byte, n, k int) ([][]byte, error) { return shamir.SplitWithRandomizer(s, n, k, x.src) }},
		{"shamir.SplitWithRandomizerOld(shared source)", false, func(s []byte, n, k int) ([][]byte, error) { return shamir.SplitWithRandomizerOld(s, n, k, x.src) }},
		{"krawczyk.SplitWithRandomizer(shared source)", true, func(s []byte, n, k int) ([][]byte, error) { return krawczyk.SplitWithRandomizer(s, n, k, x.src) }},
		{"shamir.Split", false, shamir.Split},
		{"shamir.SplitGeneric", false, shamir.SplitGeneric},
		{"shamir.SplitP", false, shamir.SplitP},
		{"krawczyk.Split", true, krawczyk.Split},
	}
	return x
}

func c15genop(c *C, x *c15world) c15op {
	o := c15op{kind: kSplit, pick: c.IntN(1 << 20)}
	if c.IntN(3) == 0 {
		o.kind = c.IntN(nKinds)
	}
	l := c.Range(1, 80)
	switch c.IntN(8) {
	case 0:
		l = c.Range(80, 3000)
	case 1:
		l = []int{16, 32, 64, 128, 1024, 1025, 2049}[c.IntN(7)]
	}
	o.secret = anySecret(c, l)
	o.k = c.Range(2, 5)
	o.n = c.Range(o.k, 8)
	if c.IntN(12) == 0 {
		o.n = c.Range(20, 60)
		if l < 20 {
			o.n = c.Range(20, 255)
		}
		o.k = c.Range(2, o.n)
	}
	switch o.kind {
	case kCombineShamir, kRegenerate:
		o.sub = subset(c, x.shamir, c.Range(x.k, x.n))
	case kCombineSSMS:
		o.sub = subset(c, x.ssms, c.Range(x.k, x.n))
	}
	return o
}

// c15do executes one operation; nothing here synchronises the goroutines
// beyond what the library does.
func c15do(x *c15world, own []Splitter, o *c15op) (r c15out) {
	defer func() {
		if r.pan = recover(); r.pan != nil {
			buf := make([]byte, 4096)
			r.pan = fmt.Sprintf("%v\n%s", r.pan, buf[:runtime.Stack(buf, false)])
		}
	}()
	switch o.kind {
	case kSplit:
		all := len(x.entries) + len(own)
		i := o.pick % all
		sp := &Splitter{}
		if i < len(x.entries) {
			sp = &x.entries[i]
		} else {
			sp = &own[i-len(x.entries)]
		}
		r.name, r.ssms = sp.Name, sp.SSMS
		r.sh, r.err = sp.Split(o.secret, o.n, o.k)
	case kCombineShamir:
		r.name = "shamir.Combine of shared shares"
		if o.pick%2 == 0 {
			r.data, r.err = shamir.Combine(o.sub)
		} else {
			r.data, r.err = x.w.Combine(algShamir, o.sub, x.n, x.k)
		}
	case kCombineSSMS:
		r.name = "krawczyk.Combine of shared shares"
		if o.pick%2 == 0 {
			r.data, r.err = krawczyk.Combine(o.sub, x.n, x.k)
		} else {
			r.data, r.err = x.w.Combine(algSSMS, o.sub, x.n, x.k)
		}
	case kRegenerate:
		r.name = "shamir.Regenerate of shared shares"
		r.sh, r.err = shamir.Regenerate(o.sub, 1+o.pick%4)
	case kRead:
		r.name = "csprng.Read of a shared source"
		r.data = make([]byte, 1+o.pick%90)
		x.src.Read(r.data)
	case kPerm:
		r.name = "csprng.Perm of a shared source"
		r.data = x.src.Perm(byte(o.pick))
	case kUnique:
		r.name = "csprng.GetUniqueBytes of a shared source"
		r.data = x.src.GetUniqueBytes(byte(o.pick))
	case kOwnRandom:
		r.name = "randomizer.Perm of an own source"
		r.data = randomizer.NewRandomizer().Perm(byte(o.pick))
	case kVector:
		r.name = "galois vector operations on a shared operand"
		r.data = append([]byte(nil), x.vec...)
		r.data = galois.MulConstVector(byte(o.pick), r.data)
		galois.AddVector(x.vec, r.data)
	case kNewWorker:
		r.name = "split by a new worker"
		w := newWorker()
		r.ssms = o.pick%2 == 0
		if r.ssms {
			r.sh, r.err = w.Split(algSSMS, o.secret, o.n, o.k)
		} else {
			r.sh, r.err = w.Split(algShamir, o.secret, o.n, o.k)
		}
	case kRefused:
		r.name, r.err = c15refused(x, o)
	}
	return r
}

// c15refused makes one request that has to be refused, of every kind the
// library knows.
func c15refused(x *c15world, o *c15op) (string, error) {
	var err error
	sh, ss := x.shamir, x.ssms
	dup := func(s [][]byte) [][]byte { return [][]byte{s[0], s[1], s[0]} }
	uneven := func(s [][]byte) [][]byte { return [][]byte{s[0], s[1][1:]} }
	both := func(name string, s1, s2 [][]byte) (string, error) {
		switch o.pick / 64 % 4 {
		case 0:
			_, err = shamir.Combine(s1)
			return "shamir.Combine of " + name, err
		case 1:
			_, err = shamir.Regenerate(s1, 1)
			return "shamir.Regenerate from " + name, err
		case 2:
			_, err = krawczyk.Combine(s2, x.n, x.k)
			return "krawczyk.Combine of " + name, err
		}
		_, err = x.w.Combine([]string{algShamir, algSSMS}[o.pick/256%2], [][][]byte{s1, s2}[o.pick/256%2], x.n, x.k)
		return "shared worker Combine of " + name, err
	}
	switch o.pick % 13 {
	case 0:
		return both("a set with a duplicate", dup(sh), dup(ss))
	case 1:
		return both("shares of different lengths", uneven(sh), uneven(ss))
	case 2:
		return both("one share", sh[:1], ss[:1])
	case 3:
		return both("shares that are too short", [][]byte{{1}, {2}}, [][]byte{{1, 2, 3}, {2, 3, 4}})
	case 4:
		return both("no shares", nil, nil)
	case 5:
		_, err = shamir.Regenerate(sh, 256-len(sh))
		return "shamir.Regenerate of too many", err
	case 6:
		_, err = shamir.Regenerate(sh, -1)
		return "shamir.Regenerate of -1", err
	case 7:
		if HaveSSMS {
			bad := append([]byte(nil), ss[0]...)
			bad[len(bad)-1] = byte(x.n)
			_, err = krawczyk.Combine([][]byte{bad, ss[1]}, x.n, x.k)
			return "krawczyk.Combine with a wrong part number", err
		}
	case 8:
		_, err = krawczyk.Combine(ss, x.n, x.n+1)
		return "krawczyk.Combine with k > n", err
	case 9:
		_, err = x.w.Combine("no such algorithm", sh, x.n, x.k)
		return "shared worker Combine(unknown)", err
	case 10:
		_, err = x.w.Split("no such algorithm", o.secret, 3, 2)
		return "shared worker Split(unknown)", err
	}
	e := &x.entries[o.pick/16%len(x.entries)]
	q := [][2]int{{1, 2}, {256, 2}, {3, 1}, {3, 0}, {256, 256}, {2, 3}, {0, 0}, {3, 2}}[o.pick/256%8]
	secret := o.secret
	if q[0] == 3 && q[1] == 2 {
		secret = nil
	}
	_, err = e.Split(secret, q[0], q[1])
	return fmt.Sprintf("%s(len=%d, n=%d, k=%d)", e.Name, len(secret), q[0], q[1]), err
}

func c15ownEntries() []Splitter {
	w := newWorker()
	r := csprng.NewCSPRNG()
	return []Splitter{
		{"own worker Split(shamir)", false, func(s []byte, n, k int) ([][]byte, error) { return w.Split(algShamir, s, n, k) }},
		{"own worker Split(krawczyk)", true, func(s []byte, n, k int) ([][]byte, error) { return w.Split(algSSMS, s, n, k) }},
		{"shamir.SplitWithRandomizerOld(own source)", false, func(s []byte, n, k int) ([][]byte, error) { return shamir.SplitWithRandomizerOld(s, n, k, r) }},
	}
}

func c15judge(c *C, x *c15world, o *c15op, r *c15out) bool {
	d := map[string]any{"n": o.n, "k": o.k, "secret": Hex(o.secret), "shares": hexes(r.sh), "data": Hex(r.data), "error": fmt.Sprint(r.err)}
	bad := func(key, f string, a ...any) bool {
		c.ViolateD(d, key, "%s, run concurrently: %s", r.name, fmt.Sprintf(f, a...))
		return false
	}
	c.Eval(1)
	c.Obs("concurrent operations", 1)
	if c.Config == "race" || c.Config == "racenoasm" {
		c.Obs("race detector operations", 1)
	}
	if r.pan != nil {
		return bad("panic", "panicked: %v", r.pan)
	}
	if o.kind == kRefused {
		if r.err == nil {
			return bad("accepted", "an invalid request was accepted")
		}
		return true
	}
	if r.err != nil {
		return bad("error", "failed: %v", r.err)
	}
	switch o.kind {
	case kSplit, kNewWorker:
		if len(r.sh) != o.n {
			return bad("share-count", "%d shares", len(r.sh))
		}
		c.Obs("share sets judged", 1)
		if r.ssms {
			v, err := ref.OpenSSMS(r.sh, o.n, o.k)
			if err != nil || !bytes.Equal(v.Secret, o.secret) {
				return bad("wrong-shares", "the shares are not a sharing of the secret (n=%d, k=%d, length %d): %v", o.n, o.k, len(o.secret), err)
			}
			return true
		}
		p, err := ref.Recover(r.sh, o.k)
		if err != nil || !bytes.Equal(p.Secret(), o.secret) {
			return bad("wrong-shares", "the shares are not a sharing of the secret (n=%d, k=%d, length %d): %v", o.n, o.k, len(o.secret), err)
		}
	case kCombineShamir, kCombineSSMS:
		if !bytes.Equal(r.data, x.secret) {
			return bad("wrong-data", "returned other bytes than the secret %s", Hex(x.secret))
		}
	case kRegenerate:
		for _, s := range r.sh {
			if len(s) != len(x.secret)+1 || !bytes.Equal(x.poly.MakeShares([]byte{s[len(s)-1]})[0], s) {
				return bad("wrong-shares", "a regenerated share is not on the polynomials")
			}
		}
	case kPerm, kOwnRandom, kUnique:
		var seen [256]bool
		if len(r.data) != int(byte(o.pick)) {
			return bad("list", "returned %d bytes instead of %d", len(r.data), byte(o.pick))
		}
		for _, v := range r.data {
			if seen[v] || (o.kind != kUnique && int(v) >= len(r.data)) {
				return bad("list", "returned an invalid list")
			}
			seen[v] = true
		}
	case kVector:
		for i, v := range r.data {
			if v != ref.Mul(byte(o.pick), x.vec[i])^x.vec[i] {
				return bad("vector", "wrong element %d", i)
			}
		}
	}
	return true
}

func c15run(c *C, x *c15world, G int, ops [][]c15op) bool {
	outs := make([][]c15out, G)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for g := 0; g < G; g++ {
		own := c15ownEntries()
		outs[g] = make([]c15out, len(ops[g]))
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for t := range ops[g] {
				outs[g][t] = c15do(x, own, &ops[g][t])
			}
		}()
	}
	snap, snap2, snap3 := clone(x.shamir), clone(x.ssms), append([]byte(nil), x.vec...)
	if !c.Do("a concurrent program", func() { close(start); wg.Wait() }) {
		return false
	}
	for g := range ops {
		for t := range ops[g] {
			if !c15judge(c, x, &ops[g][t], &outs[g][t]) {
				return false
			}
		}
	}
	for i := range snap {
		if !bytes.Equal(snap[i], x.shamir[i]) || !bytes.Equal(snap2[i], x.ssms[i]) {
			c.Violate("input-changed", "shares shared by concurrent operations were changed")
			return false
		}
	}
	if !bytes.Equal(snap3, x.vec) {
		c.Violate("input-changed", "a vector shared by concurrent operations was changed")
		return false
	}
	return true
}

func c15mixed(c *C, i int) {
	if c15skip(c, i, 24) {
		return
	}
	x := newC15world(c)
	G := []int{2, 3, 4, 8, 12, 16}[i%6]
	per := 480 / G
	ops := make([][]c15op, G)
	for g := range ops {
		for t := 0; t < per; t++ {
			ops[g] = append(ops[g], c15genop(c, x))
		}
	}
	before := poolEvents()
	if c15run(c, x, G, ops) {
		c.Distinct("mixed", i, c.Config)
	}
	c.Obs("pool events", poolEvents()-before)
	if i < 2 {
		c.Sample(map[string]any{"goroutines": G, "operations": G * per, "kinds": "9 shared + 3 own split entries, combine, regenerate, random sources, vectors, refused requests"})
	}
}

// c15same: all goroutines hammer one entry point with equal sizes.
func c15same(c *C, i int) {
	if c15skip(c, i, 22) {
		return
	}
	x := newC15world(c)
	e := i % 11
	G := 8
	per := 60
	l := []int{1, 16, 33, 100, 1024, 2100}[i/11%6]
	k := 2 + i/22%3
	n := k + c.IntN(4)
	if l > 1000 {
		per = 30
	}
	ops := make([][]c15op, G)
	for g := range ops {
		for t := 0; t < per; t++ {
			o := c15op{kind: kSplit, secret: anySecret(c, l), n: n, k: k, pick: e}
			m := x.k
			if t%4 == 3 {
				m = c.Range(x.k, x.n)
			}
			switch {
			case e == 9:
				o.kind, o.sub, o.pick = kCombineShamir, subset(c, x.shamir, m), t
				if t%3 == 0 {
					o.kind, o.sub = kCombineSSMS, subset(c, x.ssms, m)
				}
			case e == 10:
				o.kind, o.sub, o.pick = kRegenerate, subset(c, x.shamir, m), t
			}
			if i%4 == 3 && t%5 == 0 {
				// sizes grow and shrink
				o.secret = anySecret(c, c.Range(1, 3*l))
			}
			ops[g] = append(ops[g], o)
		}
	}
	before := poolEvents()
	if c15run(c, x, G, ops) {
		c.Distinct("same", i, c.Config)
	}
	c.Obs("pool events", poolEvents()-before)
}

// c15refusals: requests that have to be refused, all at once, with a few
// others among them.
func c15refusals(c *C, i int) {
	if c15skip(c, i, 6) {
		return
	}
	x := newC15world(c)
	G := 8
	ops := make([][]c15op, G)
	for g := range ops {
		for t := 0; t < 100; t++ {
			o := c15op{kind: kRefused, secret: anySecret(c, 20), n: 3, k: 2, pick: c.IntN(1 << 20)}
			if c.IntN(10) == 0 {
				o = c15genop(c, x)
			}
			ops[g] = append(ops[g], o)
		}
	}
	if c15run(c, x, G, ops) {
		c.Distinct("refused", i, c.Config)
	}
	c.Obs("refused requests run concurrently", int64(G*80))
}

// c15sizes: every kind of operation on long inputs, so that an operation which
// uses goroutines of its own for long inputs is observed doing so.
func c15sizes(c *C, i int) {
	if c15skip(c, i, 8) {
		return
	}
	l := []int{1400, 5000, 17000, 33000, 70000, 140000, 270000, 1100000}[i%8] + c.IntN(300)
	if (c.Config == "race" || c.Config == "racenoasm") && l > 300000 {
		l /= 2
	}
	x := newC15worldOf(c, l)
	G := 2
	ops := make([][]c15op, G)
	e := 0
	for g := range ops {
		for t := 0; t < 6+5; t++ {
			o := c15op{kind: kSplit, n: 2 + c.IntN(3), k: 2, pick: e}
			switch {
			case t < 5 && g == 1 || t < 6 && g == 0:
				// all package level entries and the shared worker, once each
				o.pick = t
				if g == 1 {
					o.pick = 5 + t
				}
				o.secret = anySecret(c, l)
				if l > 100000 && o.n > 3 {
					o.n = 3
				}
			case t%5 == 0:
				o.kind, o.sub = kCombineShamir, subset(c, x.shamir, x.k)
			case t%5 == 1:
				o.kind, o.sub = kCombineSSMS, subset(c, x.ssms, x.k)
			case t%5 == 2:
				o.kind, o.sub, o.pick = kRegenerate, subset(c, x.shamir, x.k), 3-i%2
				if l > 100000 && (g == 1 || x.k > 3) {
					continue
				}
			case t%5 == 3:
				o.kind, o.pick = kVector, c.IntN(256)
			default:
				o.kind, o.pick = kCombineShamir, 1
				o.sub = subset(c, x.shamir, x.k)
			}
			ops[g] = append(ops[g], o)
		}
	}
	before := poolEvents()
	if c15run(c, x, G, ops) {
		c.Distinct("sizes", i, l, c.Config)
	}
	c.Obs("pool events", poolEvents()-before)
	c.Obs("operations on long inputs", int64(len(ops[0])+len(ops[1])))
}

// c15crowd: many goroutines inside the same operation on mid-size inputs, all
// starting together again and again, so that operations which hold something
// while they wait for something else meet each other.
func c15crowd(c *C, i int) {
	if c15skip(c, i, 4) {
		return
	}
	race := c.Config == "race" || c.Config == "racenoasm"
	e := i % 11
	if race {
		e = c.IntN(11)
	}
	G := []int{48, 24, 64, 32}[i/11%4]
	top := []int{16, 40, 24, 64}[i/11%4] << 10
	rounds := 10
	if race {
		G, rounds = G/2, 2
	}
	x := newC15worldOf(c, c.Range(top/4, top))
	secrets := make([][]byte, 8)
	for j := range secrets {
		secrets[j] = anySecret(c, []int{top, top/2 + 1, top - c.IntN(2000), 1024 + c.IntN(2000), c.Range(1, top), top, top, 100}[j])
	}
	before := poolEvents()
	for t := 0; t < rounds; t++ {
		ops := make([][]c15op, G)
		for g := range ops {
			o := c15op{kind: kSplit, secret: secrets[(g+t)%8], n: 3, k: 2, pick: e}
			switch {
			case e == 9:
				o.kind, o.sub, o.pick = kCombineShamir, subset(c, x.shamir, x.k), g
				if (t+g)%3 == 0 {
					o.kind, o.sub = kCombineSSMS, subset(c, x.ssms, x.k)
				}
			case e == 10:
				o.kind, o.sub, o.pick = kRegenerate, subset(c, x.shamir, x.k), g
			}
			if t%4 == 3 && g%4 == 0 {
				// others among them
				o = c15op{kind: kSplit, secret: secrets[g%8], n: 3, k: 2, pick: c.IntN(9)}
			}
			ops[g] = append(ops[g], o)
		}
		if !c15run(c, x, G, ops) {
			return
		}
		c.Obs("crowd rounds", 1)
	}
	c.Distinct("crowd", i, c.Config)
	c.Obs("pool events", poolEvents()-before)
}

func c15readers(c *C, i int) {
	if c15skip(c, i, 12) {
		return
	}
	keyIV := c.Bytes(32)
	r := csprng.NewCSPRNGWithKeyIV(append([]byte(nil), keyIV...))
	G := []int{2, 8, 16, 8}[i%4]
	per := 200
	if i%4 == 3 {
		per = 25
	}
	parts, ok := concurrentReads(c, r, G, per, i%4)
	if ok && partition(c, keyIV, parts, G) {
		c.Obs("concurrent operations", int64(len(parts)))
		c.Distinct("readers", i, c.Config)
	}
}
