package mon

import (
	"bytes"
	"fmt"
	"time"

	"a.verif/vmon/ref"
	"github.com/fadhilkurnia/shamir/csprng"
)

type slotCfg struct{ l, k, n int }

var slotCfgs = []slotCfg{{1, 2, 2}, {3, 2, 4}, {2, 3, 5}, {4, 4, 4}, {1, 9, 12}, {1, 3, 30}, {2, 5, 20}, {17, 2, 3}, {5, 3, 3}, {33, 2, 2}, {1, 24, 24}, {8, 2, 19}}

var slotFams = []string{"random", "zero", "random", "ff", "ascii", "same"}

func init() {
	register(&Monitor{
		ID:          "C03",
		Setup:       func(c *C) { c21hook() },
		Rule:        "a case is the distribution of the recovered polynomial coefficients over the executions of one entry point at one (secret length, k, n, content family, source mode); every split's polynomials are recovered by an independent model",
		Configs:     []string{"native", "noasm"},
		Need:        map[string]int64{"coefficients": 2000000, "splits": 100000},
		Assumptions: []string{"uniformity and independence are judged by statistics of recovered coefficients (chi-square, single-cell bounds at 1e-18, GF(2)-affine relations, repeated windows); a bias below their resolution is not seen"},
		Stages: []Stage{
			{Name: "slots", N: fixed(6*2*len(slotCfgs), 6*2*len(slotCfgs)*4), Run: c03slots, Configs: []string{"native"}},
			{Name: "slotsnoasm", N: fixed(12, 6*2*len(slotCfgs)), Run: c03slots, Configs: []string{"noasm"}},
			{Name: "allk", N: fixed(24, 96), Run: c03allk, Configs: []string{"native"}},
			{Name: "lengths", N: fixed(18, 72), Run: c03lengths, Configs: []string{"native"}},
			{Name: "long", N: fixed(48, 240), Run: c03long},
			{Name: "ends", N: fixed(24, 96), Run: c03ends, Configs: []string{"native"}},
			{Name: "wide", N: fixed(90, 360), Run: c03wide, Configs: []string{"native"}},
			{Name: "rank", N: fixed(270, 1800), Run: c03rank, Configs: []string{"native"}, OpCPU: 120 * time.Second},
			{Name: "far", N: fixed(48, 192), Run: c03far, Configs: []string{"native"}, OpCPU: 120 * time.Second},
			{Name: "whole", N: fixed(60, 360), Run: c03whole, OpCPU: 200 * time.Second, Configs: []string{"native"}},
			{Name: "positions", N: fixed(56, 336), Run: c03positions, OpCPU: 120 * time.Second, Configs: []string{"native"}},
			{Name: "triples", N: fixed(48, 240), Run: c03triples, Configs: []string{"native"}},
			{Name: "entropy", N: fixed(60, 300), Run: c03entropy, Configs: []string{"native"}},
			{Name: "huge", N: fixed(18, 180), Run: c03huge, Configs: []string{"native"}, OpCPU: 120 * time.Second},
		},
	})
}

// recoverPoly recovers and validates the polynomials of one split.
func recoverPoly(c *C, sp Splitter, sh [][]byte, secret []byte, n, k int) ref.Poly {
	p, err := ref.Recover(sh, k)
	if err == nil && !bytes.Equal(p.Secret(), secret) {
		err = fmt.Errorf("constant terms %s differ from the secret", Hex(p.Secret()))
	}
	if err != nil {
		c.ViolateD(map[string]any{"secret": Hex(secret), "shares": hexes(sh)}, "not-a-sharing", "%s(len=%d, n=%d, k=%d): the shares are not evaluations of polynomials of degree < %d with the secret as constant term: %v", sp.Name, len(secret), n, k, k, err)
		return nil
	}
	c.Obs("splits", 1)
	c.Obs("coefficients", int64(len(p)*(k-1)))
	return p
}

func c03slots(c *C, i int) {
	nsp := 6
	if !HaveSSMS {
		nsp = 5
	}
	vi := i % nsp
	mode := i / nsp % 2 // 0: one source for all splits, 1: a new one per split
	cfg := slotCfgs[i/(2*nsp)%len(slotCfgs)]
	fam := slotFams[(i+i/12)%len(slotFams)]
	T := 16384
	if c.Thorough {
		T = 65536
		fam = slotFams[(i+i/12+i/150)%len(slotFams)]
	}
	nc := cfg.l * (cfg.k - 1)
	coef := make([][]byte, nc)
	for j := range coef {
		coef[j] = make([]byte, T)
	}
	xsN := min(cfg.n, 5)
	xs := make([][]byte, xsN)
	for j := range xs {
		xs[j] = make([]byte, T)
	}
	sec := make([][]byte, cfg.l)
	for j := range sec {
		sec[j] = make([]byte, T)
	}
	sps := shamirSplitters()
	for t := 0; t < T; t++ {
		if mode == 1 {
			sps = shamirSplittersOn(csprng.NewCSPRNG(), csprng.NewCSPRNG())
		}
		sp := sps[vi]
		secret := mkSecret(c, fam, cfg.l)
		sh := checkSplit(c, sp, secret, cfg.n, cfg.k)
		if sh == nil {
			return
		}
		p := recoverPoly(c, sp, sh, secret, cfg.n, cfg.k)
		if p == nil {
			return
		}
		for b := range p {
			sec[b][t] = secret[b]
			for d := 1; d < cfg.k; d++ {
				coef[b*(cfg.k-1)+d-1][t] = p[b][d]
			}
		}
		for j := range xs {
			xs[j][t] = sh[j][cfg.l]
		}
	}
	var cols []column
	lagged := 0
	for j, v := range coef {
		nm := fmt.Sprintf("coefficient %d of byte %d", j%(cfg.k-1)+1, j/(cfg.k-1))
		cols = append(cols, column{name: nm, v: v[2:], uniform: true})
		if lagged < 16 {
			// the same in the two splits before; not compared with one another
			cols = append(cols, column{name: nm + " one split earlier", v: v[1 : T-1], uniform: true, group: 1})
			cols = append(cols, column{name: nm + " two splits earlier", v: v[:T-2], uniform: true, group: 1})
			lagged++
		}
	}
	for j, v := range xs {
		cols = append(cols, column{name: fmt.Sprintf("point of share %d", j), v: v[2:], group: 2})
	}
	for j, v := range sec {
		if j < 6 || j == cfg.l-1 {
			cols = append(cols, column{name: fmt.Sprintf("secret byte %d", j), v: v[2:], group: 2})
		}
	}
	what := fmt.Sprintf("%s(len=%d, n=%d, k=%d), %s secrets, %s", sps[vi].Name, cfg.l, cfg.n, cfg.k, fam, []string{"one source", "new source per split"}[mode])
	c.Distinct(what, c.I)
	testColumns(c, what, cols, nil)
	if i < 6 {
		c.Sample(map[string]any{"what": what, "executions": T, "columns": len(cols), "first_values": firstRows(cols[:min(3, len(cols))])})
	}
}

// c03allk: every threshold, with tallies by coefficient index class.
func c03allk(c *C, i int) {
	sps := shamirSplitters()
	sp := sps[i%len(sps)]
	var lo, hi, l int
	switch i / 6 % 4 {
	case 0:
		lo, hi, l = 2, 12, 8192
	case 1:
		lo, hi, l = 13, 60, 2048
	case 2:
		lo, hi, l = 61, 140, 600
	case 3:
		lo, hi, l = 141, 255, 500
	}
	ta := tally{}
	for k := lo; k <= hi; k++ {
		n := k
		if k < 255 && k%3 == 0 {
			n = k + 1
		}
		secret := anySecret(c, l)
		sh := checkSplit(c, sp, secret, n, k)
		if sh == nil {
			return
		}
		p := recoverPoly(c, sp, sh, secret, n, k)
		if p == nil {
			return
		}
		c.Distinct(sp.Name, "k", k)
		one := tally{}
		col := make([]byte, l)
		win := newWinSet()
		for d := 1; d < k; d++ {
			for b := range p {
				col[b] = p[b][d]
			}
			all := ta.get("every coefficient")
			byD := one.get(fmt.Sprintf("coefficient %d for k=%d", d, k))
			top := ta.get(fmt.Sprintf("coefficient k-%d", k-d))
			if k-d > 8 {
				top = ta.get("coefficients below k-8")
			}
			low := ta.get(fmt.Sprintf("coefficient %d", d))
			if d > 8 {
				low = ta.get("coefficients above 8")
			}
			for _, v := range col {
				all[v]++
				byD[v]++
				top[v]++
				low[v]++
			}
			if r, v := longestRun(col); r >= 10 {
				c.Violate("not-uniform", "%s(len=%d, n=%d, k=%d): coefficient %d is %d for %d consecutive secret bytes", sp.Name, l, n, k, d, v, r)
				return
			}
			if _, at, dup := win.add(col, winLen, d, ""); dup {
				c.Violate("repeated", "%s(len=%d, n=%d, k=%d): coefficients %d of bytes %d.. repeat those of another place in the same split", sp.Name, l, n, k, d, at)
				return
			}
		}
		one.judge(c, fmt.Sprintf("%s(len=%d, n=%d, k=%d)", sp.Name, l, n, k), nil)
		if c.Violations() > 0 {
			return
		}
	}
	ta.judge(c, fmt.Sprintf("%s, k=%d..%d", sp.Name, lo, hi), nil)
}

// c03lengths: every length, with tallies by distance from the start, the end
// and by residue.
func c03lengths(c *C, i int) {
	sps := shamirSplitters()
	sp := sps[i%len(sps)]
	lo := 1 + i/6%3*250
	ta := tally{}
	for l := lo; l < lo+250; l++ {
		for rep := 0; rep < 3; rep++ {
			k := []int{2, 3, 5}[rep]
			n := k + (l+rep)%3
			fam := secretFamilies[(l+rep)%len(secretFamilies)]
			secret := mkSecret(c, fam, l)
			sh := checkSplit(c, sp, secret, n, k)
			if sh == nil {
				return
			}
			p := recoverPoly(c, sp, sh, secret, n, k)
			if p == nil {
				return
			}
			for b := range p {
				for d := 1; d < k; d++ {
					v := p[b][d]
					if b < 40 {
						ta.add(fmt.Sprintf("coefficient of byte %d", b), v)
					}
					if t := len(p) - 1 - b; t < 70 {
						ta.add(fmt.Sprintf("coefficient of byte len-%d", t+1), v)
					}
					ta.add(fmt.Sprintf("coefficient of bytes %d mod 64", b%64), v)
					ta.add(fmt.Sprintf("coefficient %d for k=%d", d, k), v)
					ta.add(fmt.Sprintf("coefficient %d for k=%d XOR secret byte", d, k), v^secret[b])
					ta.add("coefficient XOR first point", v^sh[0][l])
					if b > 0 {
						ta.add("coefficient XOR the previous byte's", v^p[b-1][d])
					}
					if d > 1 {
						ta.add("coefficient XOR the next lower one", v^p[b][d-1])
					}
				}
			}
			c.Distinct(sp.Name, l, k, n, fam)
		}
	}
	ta.judge(c, fmt.Sprintf("%s, lengths %d..%d", sp.Name, lo, lo+249), nil)
}

// c03long: long secrets around internal boundaries; relations between
// different parts of one split.
func c03long(c *C, i int) {
	sps := shamirSplitters()
	sp := sps[i%len(sps)]
	lens := []int{1024, 1025, 2048, 2049, 4096, 4097, 8192, 8193, 16385, 65536, 65537, 100003, 5000, 20000, 33333, 131073}
	l := lens[(i/len(sps)*5+i)%len(lens)]
	if i >= 48 {
		l = c.Range(600, 200000)
	}
	v := i + i/len(sps)
	k := 2 + v%3
	n := k + v/3%2
	fam := []string{"zero", "random", "same"}[(v+i/18)%3]
	secret := mkSecret(c, fam, l)
	sh := checkSplit(c, sp, secret, n, k)
	if sh == nil {
		return
	}
	p := recoverPoly(c, sp, sh, secret, n, k)
	if p == nil {
		return
	}
	what := fmt.Sprintf("%s(len=%d, n=%d, k=%d)", sp.Name, l, n, k)
	c.Distinct(what, i)
	ta := tally{}
	win := newWinSet()
	row := make([]byte, 0, l*(k-1))
	for d := 1; d < k; d++ {
		col := make([]byte, l)
		for b := range p {
			col[b] = p[b][d]
		}
		h := ta.get(fmt.Sprintf("coefficient %d", d))
		hs := ta.get(fmt.Sprintf("coefficient %d XOR secret byte", d))
		for b, v := range col {
			h[v]++
			hs[v^secret[b]]++
		}
		for _, lag := range []int{1, 2, 3, 4, 8, 15, 16, 17, 32, 64, 128, 255, 256, 512, 1000, 1024, 2048, 4096, 8192, 16384, 65536} {
			if lag+2048 > l {
				break
			}
			hl := ta.get(fmt.Sprintf("coefficient %d XOR that %d bytes on", d, lag))
			for b := 0; b+lag < l; b++ {
				hl[col[b]^col[b+lag]]++
			}
		}
		// tail of the secret and of 1024-byte stretches
		if r, v := longestRun(col); r >= 10 {
			c.Violate("not-uniform", "%s: coefficient %d is %d for %d consecutive secret bytes", what, d, v, r)
			return
		}
		if prev, at, dup := win.add(col, 1, d, "column"); dup {
			c.Violate("repeated", "%s: coefficients %d of bytes %d..%d repeat coefficients %d of bytes %d.. in the same split", what, d, at, at+winLen-1, prev.split, prev.pos)
			return
		}
		c.Obs("windows", int64(l))
	}
	for b := range p {
		row = append(row, p[b][1:]...)
	}
	if k > 2 {
		if prev, at, dup := newWinSet().add(row, 1, 0, "row"); dup {
			c.Violate("repeated", "%s: the coefficients from number %d on repeat those from number %d on in the same split", what, at, prev.pos)
			return
		}
	}
	ta.judge(c, what, nil)
}

// c03ends: coefficients at the start and the end of what one split draws, and
// around powers of two in between, tallied over splits of many random lengths.
func c03ends(c *C, i int) {
	sps := shamirSplitters()
	sp := sps[i%len(sps)]
	ta := tally{}
	for rep := 0; rep < 48; rep++ {
		l := c.Range(500, 1<<c.Range(10, 15))
		k := []int{2, 2, 3, 5}[rep%4]
		n := k
		secret := mkSecret(c, []string{"zero", "random", "same"}[rep%3], l)
		sh := checkSplit(c, sp, secret, n, k)
		if sh == nil {
			return
		}
		p := recoverPoly(c, sp, sh, secret, n, k)
		if p == nil {
			return
		}
		c.Distinct(sp.Name, l, k)
		row := make([]byte, 0, l*(k-1))
		for b := range p {
			row = append(row, p[b][1:]...)
		}
		orders := map[string][]byte{"": row}
		if k > 2 {
			for d := 1; d < k; d++ {
				col := make([]byte, l)
				for b := range p {
					col[b] = p[b][d]
				}
				orders[fmt.Sprintf(" of degree %d", d)] = col
			}
		}
		for o, v := range orders {
			name := func(s string) string { return s + o }
			if o != "" {
				name = func(s string) string { return s + " of one degree" }
			}
			for j := 0; j < 64 && j < len(v); j++ {
				ta.add(name("first 64 coefficients"), v[j])
				ta.add(name("last 64 coefficients"), v[len(v)-1-j])
				if j < 16 {
					ta.add(name("first 16 coefficients"), v[j])
					ta.add(name("last 16 coefficients"), v[len(v)-1-j])
				}
				if j < 4 {
					ta.add(name("last 4 coefficients"), v[len(v)-1-j])
				}
			}
			for e := 8; e <= 16; e++ {
				for m := 1 << e; m < len(v); m += 1 << e {
					for j := 0; j < 8; j++ {
						ta.add(name(fmt.Sprintf("coefficients before a multiple of %d", 1<<e)), v[m-1-j])
						if m+j < len(v) {
							ta.add(name(fmt.Sprintf("coefficients from a multiple of %d on", 1<<e)), v[m+j])
						}
					}
				}
			}
			if r, val := longestRun(v[max(0, len(v)-24):]); r >= 9 {
				c.Violate("not-uniform", "%s(len=%d, n=%d, k=%d): %d of the last 24 coefficients%s in a row are %d", sp.Name, l, n, k, r, o, val)
				return
			}
		}
	}
	ta.judge(c, sp.Name+", lengths 500..32768", nil)
}

// c03huge: megabytes of secret: no coefficient sequence occurs twice in a
// split, under any threshold, and none is constant.
func c03huge(c *C, i int) {
	sps := shamirSplitters()
	sp := sps[i%len(sps)]
	top := 21
	if c.Thorough {
		top = 24
	}
	l := hugeLen(c, i/len(sps), 17, top)
	k := 2 + i/len(sps)%3
	n := k + c.IntN(2)
	secret := mkSecret(c, []string{"zero", "random", "same"}[(i+i/len(sps))%3], l)
	cols := hugeCols(c, sp, secret, n, k)
	if cols == nil {
		return
	}
	what := fmt.Sprintf("%s(len=%d, n=%d, k=%d)", sp.Name, l, n, k)
	c.Distinct(what)
	ta := tally{}
	set := newSparseSet()
	for d := 1; d < k; d++ {
		if r, v := longestRun(cols[d]); r >= 10 {
			c.Violate("not-uniform", "%s: coefficient %d is %d for %d consecutive secret bytes", what, d, v, r)
			return
		}
		if hit := set.add(c, cols[d], fmt.Sprintf("coefficient %d", d)); hit != "" {
			c.Violate("repeated", "%s: %s", what, hit)
			return
		}
		h, hs := ta.get(fmt.Sprintf("coefficient %d", d)), ta.get(fmt.Sprintf("coefficient %d XOR secret byte", d))
		for b, v := range cols[d] {
			h[v]++
			hs[v^secret[b]]++
		}
	}
	if k > 2 {
		if hit := newSparseSet().add(c, interleave(cols, 0, l), "the coefficients by byte"); hit != "" {
			c.Violate("repeated", "%s: %s", what, hit)
			return
		}
	}
	ta.judge(c, what, nil)
}
