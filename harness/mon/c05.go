//go:build !386

package mon

import (
	"bytes"
	"fmt"
	"sync"
	"time"

	"a.verif/vmon/ref"
	"github.com/fadhilkurnia/shamir/csprng"
	"github.com/fadhilkurnia/shamir/krawczyk"
	"github.com/fadhilkurnia/shamir/randomizer"
	"github.com/fadhilkurnia/shamir/shamir"
)

func init() {
	register(&Monitor{
		ID:      "C05",
		Rule:    "an evaluation is the search of one 12-byte window of recovered coefficient material, key or source output among all earlier windows of the process history; distinct cases are the operations of the histories",
		Configs: []string{"native", "stress", "warped"},
		Warp:    []string{"history", "many"},
		Need:    map[string]int64{"windows": 2000000, "splits": 15000},
		Stages: []Stage{
			{Name: "history", N: fixed(200, 2000), Run: c05history, Configs: []string{"native"}},
			{Name: "realentropy", N: fixed(24, 240), Run: c05history, Configs: []string{"native"}, RealEntropy: true},
			{Name: "huge", N: fixed(16, 160), Run: c05huge, Configs: []string{"native"}, RealEntropy: true, OpCPU: 120 * time.Second},
			{Name: "many", N: fixed(20, 60), Run: c05many, Configs: []string{"native"}, RealEntropy: true},
			{Name: "sources", N: fixed(8, 32), Run: c05sources, Configs: []string{"native"}, RealEntropy: true},
			{Name: "concurrent", N: fixed(140, 1400), Run: c05concurrent, Configs: []string{"stress"}, RealEntropy: true},
			{Name: "concurrentlarge", N: fixed(24, 240), Run: c05concurrentLarge, Configs: []string{"stress"}, RealEntropy: true, OpCPU: 120 * time.Second},
		},
	})
}

// material is the fresh randomness seen in one operation's result.
type material struct {
	kind string
	b    []byte
	step int
}

// rowsAndCols lists coefficient material in both natural orders.
func rowsAndCols(p ref.Poly, k int, tag string) []material {
	var m []material
	row := make([]byte, 0, len(p)*(k-1))
	for b := range p {
		row = append(row, p[b][1:]...)
	}
	m = append(m, material{tag + " coefficients by byte", row, 1})
	if k > 2 && len(p) > 1 {
		for d := 1; d < k; d++ {
			col := make([]byte, len(p))
			for b := range p {
				col[b] = p[b][d]
			}
			m = append(m, material{fmt.Sprintf("%s coefficients number %d", tag, d), col, 1})
		}
	}
	return m
}

type c05op struct {
	name string
	ms   []material
}

func c05open(c *C, sp Splitter, sh [][]byte, secret []byte, n, k int) (c05op, bool) {
	name := fmt.Sprintf("%s(len=%d, n=%d, k=%d)", sp.Name, len(secret), n, k)
	if sp.SSMS {
		o, err := ref.OpenSSMS(sh, n, k)
		if err == nil && !bytes.Equal(o.Secret, secret) {
			err = fmt.Errorf("decodes to other bytes")
		}
		if err != nil {
			c.ViolateD(map[string]any{"shares": hexes(sh), "secret": Hex(secret)}, "not-a-sharing", "%s: %v", name, err)
			return c05op{}, false
		}
		ms := rowsAndCols(o.Meta, k, "key-part")
		ms = append(ms, material{"key", o.Key, 1})
		return c05op{name, ms}, true
	}
	p := recoverPoly(c, sp, sh, secret, n, k)
	if p == nil {
		return c05op{}, false
	}
	return c05op{name, rowsAndCols(p, k, "")}, true
}

// c05judge enters the material and reports the first reuse.
func c05judge(c *C, w *winSet, ops []c05op, idx int, op c05op, how string) bool {
	for _, m := range op.ms {
		n := int64(max(0, len(m.b)-winLen+1))
		c.Eval(n)
		c.Obs("windows", n)
		// within one operation, two orders of the same material may coincide
		// only trivially; windows are therefore keyed per operation first
		for i := 0; i+winLen <= len(m.b); i += m.step {
			var k [winLen]byte
			copy(k[:], m.b[i:])
			r, ok := w.m[k]
			if !ok {
				w.m[k] = winRef{idx, i, m.kind}
				continue
			}
			if r.split == idx && r.kind != m.kind {
				continue
			}
			c.ViolateD(map[string]any{"bytes": Hex(k[:]), "history": how}, "reuse", "operation %d %s, %s offset %d: the 12 random bytes %x were already used in operation %d %s, %s offset %d (%s)",
				idx, op.name, m.kind, i, k, r.split, ops[r.split].name, r.kind, r.pos, how)
			return false
		}
	}
	return true
}

func c05history(c *C, i int) {
	srcs := []*csprng.CSPRNG{csprng.NewCSPRNG(), csprng.NewCSPRNGWithKeyIV(c.Bytes(32))}
	workers := []workerPair{newWorker(), newWorker()}
	workers = append(workers, workers[0].Copy()) // before its first use
	rz := randomizer.NewRandomizer()
	pkg := []Splitter{{"shamir.Split", false, shamir.Split}, {"shamir.SplitGeneric", false, shamir.SplitGeneric}, {"shamir.SplitP", false, shamir.SplitP}, {"krawczyk.Split", true, krawczyk.Split}}
	w := newWinSet()
	var ops []c05op
	n0, k0 := c.Range(2, 6), 2
	k0 = c.Range(2, n0)
	l0 := c.Range(12, 40)
	same := anySecret(c, l0)
	nops := 220
	for t := 0; t < nops; t++ {
		if t%50 == 25 { // workers are values: one handed on is a copy
			workers = append(workers, pick(c, workers).Copy())
		}
		var sp Splitter
		switch c.IntN(8) {
		case 0, 1:
			sp = pick(c, pkg)
		case 2, 3:
			j := c.IntN(2)
			r := srcs[j]
			switch c.IntN(3) {
			case 0:
				sp = Splitter{fmt.Sprintf("shamir.SplitWithRandomizer[source %d]", j), false, func(s []byte, n, k int) ([][]byte, error) { return shamir.SplitWithRandomizer(s, n, k, r) }}
			case 1:
				sp = Splitter{fmt.Sprintf("shamir.SplitWithRandomizerOld[source %d]", j), false, func(s []byte, n, k int) ([][]byte, error) { return shamir.SplitWithRandomizerOld(s, n, k, r) }}
			case 2:
				sp = Splitter{fmt.Sprintf("krawczyk.SplitWithRandomizer[source %d]", j), true, func(s []byte, n, k int) ([][]byte, error) { return krawczyk.SplitWithRandomizer(s, n, k, r) }}
			}
		case 4, 5, 6:
			j := c.IntN(len(workers))
			wk := workers[j]
			if c.IntN(2) == 0 {
				sp = Splitter{fmt.Sprintf("worker %d Split(shamir)", j), false, func(s []byte, n, k int) ([][]byte, error) { return wk.Split(algShamir, s, n, k) }}
			} else {
				sp = Splitter{fmt.Sprintf("worker %d Split(krawczyk)", j), true, func(s []byte, n, k int) ([][]byte, error) { return wk.Split(algSSMS, s, n, k) }}
			}
		case 7:
			// raw output of the sources
			b := make([]byte, c.Range(12, 300))
			if c.IntN(2) == 0 {
				c.Fill(b) // dirty buffers
			}
			nm := "csprng.Read"
			switch j := c.IntN(3); j {
			case 2:
				nm = "randomizer.Read"
				c.Do(nm, func() { rz.Read(b) })
			default:
				nm = fmt.Sprintf("csprng.Read[source %d]", j)
				c.Do(nm, func() { srcs[j].Read(b) })
			}
			op := c05op{nm, []material{{"output", b, 1}}}
			ops = append(ops, op)
			if !c05judge(c, w, ops, t, op, "sequential") {
				return
			}
			continue
		}
		n, k, secret := n0, k0, same
		switch c.IntN(4) {
		case 0: // rows long enough to be compared under any threshold
			k = c.Range(14, 30)
			n = c.Range(k, k+3)
			secret = anySecret(c, c.Range(1, 40))
		case 1:
			n = c.Range(2, 30)
			k = c.Range(2, n)
			secret = anySecret(c, c.Range(12, 200))
		}
		if t%40 == 17 { // large operations grow the recycled buffers
			secret = anySecret(c, c.Range(3000, 9000))
		}
		sh := checkSplit(c, sp, secret, n, k)
		if sh == nil {
			return
		}
		op, ok := c05open(c, sp, sh, secret, n, k)
		if !ok {
			return
		}
		c.Obs("splits", 1)
		c.Distinct(op.name, t, i)
		ops = append(ops, op)
		if !c05judge(c, w, ops, t, op, "sequential") {
			return
		}
		for j := range op.ms { // only names are needed from here on
			op.ms[j].b = nil
		}
	}
	if i < 3 {
		var nm []string
		for _, o := range ops[:12] {
			nm = append(nm, o.name)
		}
		c.Sample(map[string]any{"first_operations": nm, "windows_in_history": len(w.m)})
	}
}

// c05sources: many fresh sources and keys; a small seed space shows as a
// coincidence.
func c05sources(c *C, i int) {
	seen := map[[winLen]byte]string{}
	n := 30000
	if c.Thorough {
		n = 150000
	}
	put := func(kind string, b []byte) bool {
		var k [winLen]byte
		copy(k[:], b)
		c.Eval(1)
		if p, ok := seen[k]; ok {
			c.Violate("reuse", "two fresh sources gave the same bytes %x (%s and %s) within %d", k, p, kind, len(seen))
			return false
		}
		seen[k] = kind
		return true
	}
	buf := make([]byte, 16)
	for t := 0; t < n; t++ {
		var ok bool
		switch (t + i) % 4 {
		case 0, 1:
			c.Do("csprng.NewCSPRNG", func() { csprng.NewCSPRNG().Read(buf) })
			ok = put("csprng.NewCSPRNG", buf)
		case 2:
			c.Do("randomizer.NewRandomizer", func() { randomizer.NewRandomizer().Read(buf) })
			ok = put("randomizer.NewRandomizer", buf)
		case 3:
			if t%12 != 3 {
				continue
			}
			wk := newWorker()
			sp := Splitter{"fresh worker Split(krawczyk)", true, func(s []byte, n, k int) ([][]byte, error) { return wk.Split(algSSMS, s, n, k) }}
			if t%24 == 3 {
				sp = Splitter{"krawczyk.Split", true, krawczyk.Split}
			}
			sh := checkSplit(c, sp, []byte("secret"), 2, 2)
			if sh == nil {
				return
			}
			o, err := ref.OpenSSMS(sh, 2, 2)
			if err != nil {
				c.Violate("not-a-sharing", "%s: %v", sp.Name, err)
				return
			}
			c.Obs("splits", 1)
			ok = put(sp.Name, o.Key)
		}
		if !ok {
			return
		}
		c.Obs("fresh sources", 1)
	}
	c.Distinct("sources", i)
}

// c05concurrent: goroutines split through shared and own sources; the windows
// of all results are compared afterwards.
func c05concurrent(c *C, i int) {
	G := 8
	wk := newWorker()
	src := csprng.NewCSPRNG()
	k := []int{2, 3, 14, 20}[i%4]
	n := k + i%3
	perG := 60
	// in every other case all goroutines split equal secrets
	equal := anySecret(c, c.Range(16, 45))
	if i%4 == 3 {
		equal = anySecret(c, c.Range(200, 1000))
		perG = 8
	}
	type res struct {
		name   string
		sp     Splitter
		secret []byte
		sh     [][]byte
		n, k   int
		raw    []byte
	}
	out := make([][]res, G)
	forks := make([]*C, G)
	copies := make([]workerPair, G)
	for g := range copies {
		copies[g] = wk.Copy()
	}
	var wg sync.WaitGroup
	start := make(chan struct{})
	for g := 0; g < G; g++ {
		f := c.Fork(g)
		forks[g] = f
		wg.Add(1)
		go func() {
			defer wg.Done()
			own := newWorker()
			if g%2 == 1 {
				own = copies[g]
			}
			sps := []Splitter{
				{"shared worker Split(shamir)", false, func(s []byte, n, k int) ([][]byte, error) { return wk.Split(algShamir, s, n, k) }},
				{"shared worker Split(krawczyk)", true, func(s []byte, n, k int) ([][]byte, error) { return wk.Split(algSSMS, s, n, k) }},
				{"shamir.SplitWithRandomizer[shared source]", false, func(s []byte, n, k int) ([][]byte, error) { return shamir.SplitWithRandomizer(s, n, k, src) }},
				{"shamir.SplitWithRandomizerOld[shared source]", false, func(s []byte, n, k int) ([][]byte, error) { return shamir.SplitWithRandomizerOld(s, n, k, src) }},
				{"krawczyk.SplitWithRandomizer[shared source]", true, func(s []byte, n, k int) ([][]byte, error) { return krawczyk.SplitWithRandomizer(s, n, k, src) }},
				{"own worker Split(shamir)", false, func(s []byte, n, k int) ([][]byte, error) { return own.Split(algShamir, s, n, k) }},
				{"shamir.Split", false, shamir.Split},
				{"shamir.SplitGeneric", false, shamir.SplitGeneric},
				{"shamir.SplitP", false, shamir.SplitP},
				{"krawczyk.Split", true, krawczyk.Split},
			}
			<-start
			for t := 0; t < perG; t++ {
				if t%10 == 9 {
					b := make([]byte, 24)
					src.Read(b)
					out[g] = append(out[g], res{name: "csprng.Read[shared source]", raw: b})
					continue
				}
				sp := sps[(t+g+i)%len(sps)]
				if i%3 == 0 {
					sp = sps[(t/6+i)%5]
				}
				secret := anySecret(f, 16+f.IntN(30))
				if i/4%2 == 1 {
					secret = bytes.Clone(equal)
				}
				sh := checkSplit(f, sp, secret, n, k)
				if sh == nil {
					return
				}
				out[g] = append(out[g], res{sp.Name, sp, secret, sh, n, k, nil})
			}
		}()
	}
	c.Do("concurrent splits through shared and own sources", func() { close(start); wg.Wait() })
	for _, f := range forks {
		c.Join(f)
	}
	if c.Violations() > 0 {
		return
	}
	w := newWinSet()
	var ops []c05op
	for _, rs := range out {
		for _, r := range rs {
			op := c05op{r.name, []material{{"output", r.raw, 1}}}
			if r.raw == nil {
				var ok bool
				if op, ok = c05open(c, r.sp, r.sh, r.secret, r.n, r.k); !ok {
					return
				}
				c.Obs("splits", 1)
			}
			ops = append(ops, op)
			if !c05judge(c, w, ops, len(ops)-1, op, "concurrent") {
				return
			}
			c.Distinct("concurrent", op.name, len(ops), i)
		}
	}
}

// c05concurrentLarge: goroutines take long pieces out of one source, by reads
// and by splits, with short ones in between.
func c05concurrentLarge(c *C, i int) {
	G := 8
	wk := newWorker()
	src := csprng.NewCSPRNG()
	size := 1 << (8 + i%11)
	per := max(8, min(200, 1<<20/size))
	type job struct {
		kind, l int
		raw     []byte
		sh      [][]byte
		err     error
	}
	const k = 24
	jobs := make([][]job, G)
	for g := range jobs {
		for t := 0; t < per; t++ {
			j := job{l: c.Range(size/2, 2*size), kind: 0}
			switch c.IntN(6) {
			case 0:
				j.kind = 1 + c.IntN(3)
				j.l = j.l/k + 1
			case 1:
				j.l = c.Range(12, 40)
			}
			jobs[g] = append(jobs[g], j)
		}
	}
	var wg sync.WaitGroup
	start := make(chan struct{})
	for g := range jobs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for t := range jobs[g] {
				j := &jobs[g][t]
				switch j.kind {
				case 0:
					j.raw = make([]byte, j.l)
					src.Read(j.raw)
				case 1:
					j.sh, j.err = shamir.SplitWithRandomizer(make([]byte, j.l), k, k, src)
				case 2:
					j.sh, j.err = shamir.SplitWithRandomizerOld(make([]byte, j.l), k, k, src)
				case 3:
					j.sh, j.err = wk.Split(algShamir, make([]byte, j.l), k, k)
				}
			}
		}()
	}
	if !c.Do("concurrent long reads and splits of one source", func() { close(start); wg.Wait() }) {
		return
	}
	set := newSparseSet()
	for g := range jobs {
		for t := range jobs[g] {
			j := &jobs[g][t]
			name := fmt.Sprintf("%s of %d bytes (goroutine %d, operation %d)", []string{"csprng.Read[shared source]", "shamir.SplitWithRandomizer[shared source]", "shamir.SplitWithRandomizerOld[shared source]", "shared worker Split(shamir)"}[j.kind], j.l, g, t)
			b := j.raw
			if j.kind > 0 {
				cols, err := ref.RecoverCols(j.sh, k)
				if j.err != nil || err != nil {
					c.Violate("not-a-sharing", "%s: %v %v", name, j.err, err)
					return
				}
				b = interleave(cols, 0, j.l)
				c.Obs("splits", 1)
			}
			if hit := set.add(c, b, name); hit != "" {
				c.Violate("reuse", "concurrent: %s", hit)
				return
			}
		}
	}
	c.Distinct("concurrentlarge", i, size)
}

// c05huge: histories of few but large splits and reads, up to megabytes each,
// through long-lived sources at all positions.
func c05huge(c *C, i int) {
	set := newSparseSet()
	srcs := []*csprng.CSPRNG{csprng.NewCSPRNG(), csprng.NewCSPRNGWithKeyIV(c.Bytes(32))}
	rz := randomizer.NewRandomizer()
	wk := newWorker()
	top := 20
	if c.Thorough {
		top = 23
	}
	var names []string
	lastX, lastL, lastK, lastJ := -1, 0, 0, 0
	for t := 0; t < 16; t++ {
		l := hugeLen(c, c.IntN(28), 14, top)
		j := c.IntN(2)
		x := c.IntN(14)
		again := lastX > 6 && c.IntN(5) < 3 // the same call with an equal secret once more
		if again {
			x, l, j = lastX, lastL, lastJ
		} else if t%4 == 1 {
			x = 7 + c.IntN(7)
		}
		lastX, lastL, lastJ = x, l, j
		r := srcs[j]
		var sp Splitter
		switch x {
		case 0, 1, 2, 3, 4, 5, 6:
			if c.IntN(3) == 0 {
				l = c.Range(12, 500)
			}
			b := make([]byte, l)
			name := fmt.Sprintf("%d bytes read from source %d (operation %d)", l, j, t)
			rd := func() { r.Read(b) }
			if x > 4 {
				name, rd = fmt.Sprintf("%d bytes read from the randomizer (operation %d)", l, t), func() { rz.Read(b) }
			}
			if !c.Do(name, rd) {
				return
			}
			names = append(names, name)
			if hit := set.add(c, b, name); hit != "" {
				c.Violate("reuse", "history %q: %s", names, hit)
				return
			}
			continue
		case 7:
			sp = Splitter{fmt.Sprintf("shamir.SplitWithRandomizer[source %d]", j), false, func(s []byte, n, k int) ([][]byte, error) { return shamir.SplitWithRandomizer(s, n, k, r) }}
		case 8:
			sp = Splitter{fmt.Sprintf("shamir.SplitWithRandomizerOld[source %d]", j), false, func(s []byte, n, k int) ([][]byte, error) { return shamir.SplitWithRandomizerOld(s, n, k, r) }}
		case 9:
			sp = Splitter{"worker.Split(shamir)", false, func(s []byte, n, k int) ([][]byte, error) { return wk.Split(algShamir, s, n, k) }}
		case 10:
			sp = Splitter{"shamir.Split", false, shamir.Split}
		case 11:
			sp = Splitter{"shamir.SplitGeneric", false, shamir.SplitGeneric}
		case 12:
			sp = Splitter{"shamir.SplitP", false, shamir.SplitP}
		case 13:
			sp = Splitter{fmt.Sprintf("krawczyk.SplitWithRandomizer[source %d]", j), true, func(s []byte, n, k int) ([][]byte, error) { return krawczyk.SplitWithRandomizer(s, n, k, r) }}
			if l%2 == 0 {
				sp = Splitter{"worker.Split(krawczyk)", true, func(s []byte, n, k int) ([][]byte, error) { return wk.Split(algSSMS, s, n, k) }}
			}
		}
		k := 2 + c.IntN(2)
		if c.IntN(3) == 0 { // whole blocks of the stream stay together
			k = 20
		}
		if again {
			k = lastK
		}
		lastK = k
		if k == 20 {
			l /= 10
		}
		n := k
		name := fmt.Sprintf("%s(len=%d, n=%d, k=%d) (operation %d)", sp.Name, l, n, k, t)
		names = append(names, name)
		secret := make([]byte, l)
		if sp.SSMS {
			// equal secrets: the ciphertexts show the keystreams
			sh := checkSplit(c, sp, secret, n, k)
			if sh == nil {
				return
			}
			o, err := ref.OpenSSMS(sh, n, k)
			if err != nil || !bytes.Equal(o.Secret, secret) {
				c.Violate("not-a-sharing", "%s: %v", name, err)
				return
			}
			c.Obs("splits", 1)
			for _, m := range append(rowsAndCols(o.Meta, k, "key-part")[:1], material{"key", o.Key, 1}, material{"keystream", o.Cipher, 1}) {
				if hit := set.add(c, m.b, m.kind+" of "+name); hit != "" {
					c.Violate("reuse", "history %q: %s", names, hit)
					return
				}
			}
			continue
		}
		cols := hugeCols(c, sp, secret, n, k)
		if cols == nil {
			return
		}
		if hit := set.add(c, interleave(cols, 0, l), "the coefficients by byte of "+name); hit != "" {
			c.Violate("reuse", "history %q: %s", names, hit)
			return
		}
		for d := 1; d < k && k > 2; d++ {
			if hit := set.add(c, cols[d], fmt.Sprintf("coefficients %d of %s", d, name)); hit != "" {
				c.Violate("reuse", "history %q: %s", names, hit)
				return
			}
		}
	}
	c.Distinct("huge", names)
}

// c05many: very many small splits through one entry point.
func c05many(c *C, i int) {
	w := newWorker()
	src := csprng.NewCSPRNG()
	sps := []Splitter{
		{"one worker's Split(shamir)", false, func(s []byte, n, k int) ([][]byte, error) { return w.Split(algShamir, s, n, k) }},
		{"one worker's Split(krawczyk)", true, func(s []byte, n, k int) ([][]byte, error) { return w.Split(algSSMS, s, n, k) }},
		{"shamir.Split", false, shamir.Split},
		{"shamir.SplitGeneric", false, shamir.SplitGeneric},
		{"shamir.SplitP", false, shamir.SplitP},
		{"shamir.SplitWithRandomizer with one source", false, func(s []byte, n, k int) ([][]byte, error) { return shamir.SplitWithRandomizer(s, n, k, src) }},
		{"shamir.SplitWithRandomizerOld with one source", false, func(s []byte, n, k int) ([][]byte, error) {
			return shamir.SplitWithRandomizerOld(s, n, k, src)
		}},
		{"krawczyk.Split", true, krawczyk.Split},
		{"krawczyk.SplitWithRandomizer with one source", true, func(s []byte, n, k int) ([][]byte, error) { return krawczyk.SplitWithRandomizer(s, n, k, src) }},
	}
	sp := sps[i%(len(sps)+1)%len(sps)]
	mixed := i%(len(sps)+1) == len(sps)
	m := 140000
	if i/(len(sps)+1)%2 == 1 {
		m = 70000
	}
	const n, k = 13, 13
	seen := make(map[[12]byte]int32, m)
	secret := []byte{7}
	for t := 0; t < m; t++ {
		if mixed {
			sp = sps[[]int{0, 1, 5, 8, 6}[t%5]]
		}
		if i/(len(sps)+1)%2 == 1 {
			secret[0] = byte(t)
		}
		var sh [][]byte
		var err error
		if !c.Do(sp.Name, func() { sh, err = sp.Split(secret, n, k) }) {
			return
		}
		if err != nil || len(sh) != n {
			c.Violate("split-failed", "%s number %d gave %d shares, error %v", sp.Name, t, len(sh), err)
			return
		}
		var key [12]byte
		if sp.SSMS {
			o, err := ref.OpenSSMS(sh[:k], n, k)
			if err != nil {
				c.Violate("not-a-sharing", "%s number %d: %v", sp.Name, t, err)
				return
			}
			copy(key[:], o.Key)
		} else {
			p, err := ref.Recover(sh, k)
			if err != nil {
				c.Violate("not-a-sharing", "%s number %d: %v", sp.Name, t, err)
				return
			}
			copy(key[:], p[0][1:])
		}
		if o, ok := seen[key]; ok {
			c.ViolateD(map[string]any{"bytes": Hex(key[:])}, "reuse", "%s: split number %d has the random bytes %x of split number %d", sp.Name, t, key, o)
			return
		}
		seen[key] = int32(t)
	}
	c.Eval(int64(m))
	c.Obs("windows", int64(m))
	c.Obs("splits", int64(m))
	c.Obs("splits in long streaks", int64(m))
	c.Distinct("many", sp.Name, mixed, i)
}
