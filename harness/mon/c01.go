package mon

import (
	"fmt"
	"runtime/debug"
	"time"

	"a.verif/vmon/ref"
)

// gridNK numbers all (n,k) with 2 <= k <= n <= 255.
var gridNK = func() (g [][2]int) {
	for n := 2; n <= 255; n++ {
		for k := 2; k <= n; k++ {
			g = append(g, [2]int{n, k})
		}
	}
	return
}()

const gridChunk = 64

var edgeLens = func() []int {
	m := map[int]bool{}
	var l []int
	add := func(v int) {
		if v >= 1 && !m[v] {
			m[v] = true
			l = append(l, v)
		}
	}
	for p := 1; p <= 1<<17; p <<= 1 {
		for d := -2; d <= 2; d++ {
			add(p + d)
		}
	}
	for _, b := range []int{1024, 2048, 3072, 4096, 5120, 8192} {
		for d := -33; d <= 33; d += 3 {
			add(b + d)
		}
	}
	for _, v := range []int{1000, 10000, 65521, 99991, 100000} {
		add(v)
	}
	return l
}()

func init() {
	register(&Monitor{
		ID:      "C01",
		Rule:    "a case is one (entry point, n, k, secret length and content, subset and order of shares); trivial would be combining nothing",
		Configs: []string{"native", "noasm", "ssse3", "sse2", "none", "x386", "warped"},
		Warp:    []string{"subsets"},
		Need:    map[string]int64{"splits": 10000, "combines": 20000},
		Stages: []Stage{
			{Name: "grid", N: fixed((len(gridNK)+gridChunk-1)/gridChunk*2, (len(gridNK)+gridChunk-1)/gridChunk*6), Run: c01grid, Configs: []string{"native"}},
			{Name: "gridcfg", N: fixed(60, 600), Run: c01gridcfg, Configs: []string{"noasm", "ssse3", "sse2", "none", "x386"}},
			{Name: "lengths", N: fixed(600, 3000), Run: c01lengths},
			{Name: "edges", N: func(th bool) int { return len(edgeLens) }, Run: c01edges},
			{Name: "subsets", N: fixed(60, 600), Run: c01subsets, Configs: []string{"native", "noasm"}},
			{Name: "foreign", N: fixed(255, 2040), Run: c01foreign, Configs: []string{"native", "noasm", "x386"}},
			{Name: "big", N: fixed(6, 48), Run: c01big, Configs: []string{"native", "noasm", "none"}},
			{Name: "huge", N: fixed(6, 24), Run: c01huge, Configs: []string{"native"}, OpCPU: 120 * time.Second},
			{Name: "limit", N: fixed(1, 3), Run: c01limit, Configs: []string{"native"}, OpCPU: 300 * time.Second},
		},
	})
}

func c01one(c *C, sp Splitter, cbs []Combiner, secret []byte, n, k int, tries int) {
	sh := checkSplit(c, sp, secret, n, k)
	if sh == nil {
		return
	}
	c.Obs("splits", 1)
	c.Distinct(sp.Name, n, k, secret)
	for t := 0; t < tries; t++ {
		m := k
		if t == 1 {
			m = n
		} else if t > 1 {
			m = c.Range(k, n)
		}
		cb := pick(c, cbs)
		if !checkCombine(c, cb, subset(c, sh, m), n, k, secret, sp.Name) {
			return
		}
		c.Obs("combines", 1)
	}
}

func c01grid(c *C, i int) {
	sps, cbs := shamirSplitters(), shamirCombiners()
	round := i / ((len(gridNK) + gridChunk - 1) / gridChunk)
	i %= (len(gridNK) + gridChunk - 1) / gridChunk
	for j := i * gridChunk; j < (i+1)*gridChunk && j < len(gridNK); j++ {
		n, k := gridNK[j][0], gridNK[j][1]
		// every entry point meets every n and k within a few neighbours
		sp := sps[(n*7+k+round)%len(sps)]
		l := 1 + (n+k)%3
		if k < 40 && j%5 == 0 {
			l = 1 + c.IntN(90)
		}
		tries := 1
		if n < 100 {
			tries = 2
		}
		c01one(c, sp, cbs, anySecret(c, l), n, k, tries)
	}
}

func c01gridcfg(c *C, i int) {
	sps, cbs := shamirSplitters(), shamirCombiners()
	for j := 0; j < 12; j++ {
		nk := pick(c, gridNK)
		if j%3 == 0 {
			n := c.Range(2, 24)
			nk = [2]int{n, c.Range(2, n)}
		}
		c01one(c, pick(c, sps), cbs, anySecret(c, 1+c.IntN(40)), nk[0], nk[1], 1)
	}
}

func c01lengths(c *C, i int) {
	sps, cbs := shamirSplitters(), shamirCombiners()
	l := i + 1
	for _, sp := range sps {
		n := c.Range(2, 9)
		k := c.Range(2, n)
		c01one(c, sp, cbs, anySecret(c, l), n, k, 2)
	}
	if i < 20 {
		c.Sample(map[string]any{"length": l, "entry_points": len(sps)})
	}
}

func c01edges(c *C, i int) {
	sps, cbs := shamirSplitters(), shamirCombiners()
	l := edgeLens[i]
	if l > 20000 && (c.Config != "native" || i%2 == 0) {
		sps = []Splitter{sps[(i/2)%len(sps)]}
	}
	for j, sp := range sps {
		n, k := 3+(i+j)%3, 2+(i+j)%2
		c01one(c, sp, cbs, anySecret(c, l), n, k, 1)
	}
}

// c01subsets: all subsets of at least k shares, all orders of small ones.
func c01subsets(c *C, i int) {
	sps, cbs := shamirSplitters(), shamirCombiners()
	for _, sp := range sps {
		n := c.Range(2, 7)
		k := c.Range(2, n)
		secret := anySecret(c, c.Range(1, 24))
		sh := checkSplit(c, sp, secret, n, k)
		if sh == nil {
			return
		}
		c.Obs("splits", 1)
		for m := 1; m < 1<<n; m++ {
			var s [][]byte
			for b := 0; b < n; b++ {
				if m>>b&1 == 1 {
					s = append(s, sh[b])
				}
			}
			if len(s) < k {
				continue
			}
			orders := [][]int{c.R.Perm(len(s))}
			if len(s) <= 4 {
				orders = permutations(len(s))
			}
			for _, o := range orders {
				t := make([][]byte, len(s))
				for x, y := range o {
					t[x] = s[y]
				}
				if !checkCombine(c, pick(c, cbs), t, n, k, secret, sp.Name) {
					return
				}
				c.Distinct("sub", n, k, m, fmt.Sprint(o))
				c.Obs("combines", 1)
			}
		}
	}
}

func permutations(n int) [][]int {
	if n == 0 {
		return [][]int{{}}
	}
	var r [][]int
	for _, p := range permutations(n - 1) {
		for pos := 0; pos <= len(p); pos++ {
			q := append(append(append([]int{}, p[:pos]...), n-1), p[pos:]...)
			r = append(r, q)
		}
	}
	return r
}

// c01foreign: shares made by the reference implementation at chosen points;
// all ordered pairs of points occur over the cases.
func c01foreign(c *C, i int) {
	cbs := shamirCombiners()
	x1 := byte(i%255 + 1)
	xs := make([]byte, 0, 255)
	for x := 1; x <= 255; x++ {
		xs = append(xs, byte(x))
	}
	secret := anySecret(c, 3)
	p := ref.RandPoly(secret, 2, c.Fill)
	sh := p.MakeShares(xs)
	for x2 := 1; x2 <= 255; x2++ {
		if byte(x2) == x1 {
			continue
		}
		if !checkCombine(c, pick(c, cbs), [][]byte{sh[x1-1], sh[x2-1]}, 255, 2, secret, "reference shares") {
			return
		}
		c.Obs("combines", 1)
		c.Distinct("pair", int(x1), x2)
	}
	// larger thresholds and more shares than needed
	for _, k := range []int{3, 4, 5, 8, 17, 100, 254, 255} {
		l := 1 + c.IntN(8)
		if k > 50 {
			l = 1
		}
		secret := anySecret(c, l)
		p := ref.RandPoly(secret, k, c.Fill)
		sh := p.MakeShares(xs)
		m := c.Range(k, min(255, k+9))
		if !checkCombine(c, pick(c, cbs), subset(c, sh, m), 255, k, secret, "reference shares") {
			return
		}
		c.Obs("combines", 1)
		c.Distinct("ref", k, m, secret)
	}
	// degenerate coefficients: zero polynomials, single terms
	for t := 0; t < 8; t++ {
		k := c.Range(2, 9)
		secret := anySecret(c, 4)
		p := ref.RandPoly(secret, k, func(b []byte) {
			for j := range b {
				b[j] = 0
			}
			if t > 0 {
				b[c.IntN(len(b))] = byte(c.IntN(256))
			}
		})
		sh := p.MakeShares(xs)
		if !checkCombine(c, pick(c, cbs), subset(c, sh, c.Range(k, k+3)), 255, k, secret, "reference shares with sparse polynomials") {
			return
		}
		c.Obs("combines", 1)
	}
	if i < 4 {
		c.Sample(map[string]any{"first_point": x1, "partners": "all other points", "via": "reference-made shares"})
	}
}

func c01big(c *C, i int) {
	sps := shamirSplitters()
	sp := sps[i%len(sps)]
	l := 1<<20 + c.Range(-70, 70)
	if c.Thorough && i%3 == 0 {
		l = 3<<20 + c.Range(0, 1000)
	}
	if c.Config != "native" {
		l /= 4
	}
	n := c.Range(2, 4)
	c01one(c, sp, shamirCombiners(), anySecret(c, l), n, c.Range(2, n), 1)
}

// c01huge: positions that need more than 24 bits.
func c01huge(c *C, i int) {
	sps := shamirSplitters()
	sp := sps[i%len(sps)]
	l := 16<<20 + c.Range(1, 70000)
	if sp.Name == "shamir.SplitP" {
		l = 16<<20 + c.Range(1, 300)
	}
	c01one(c, sp, shamirCombiners(), anySecret(c, l), 2, 2, 1)
	c.Obs("splits above 16 MiB", 1)
	debug.FreeOSMemory()
}
