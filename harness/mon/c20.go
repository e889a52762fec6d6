package mon

import (
	"bytes"
	"fmt"
	"sync"

	"a.verif/vmon/golden"
	"a.verif/vmon/ref"
)

func init() {
	register(&Monitor{
		ID:      "C20",
		Rule:    "a case is one share set crossing between the library and the independent implementation of the format (stored: written by the library's first version); distinct by direction, entry point, n, k, length and secret; every byte of library-made shares is compared with the format, and every set must be recovered",
		Configs: []string{"native", "ssse3", "sse2", "noasm", "x386", "warped"},
		Warp:    []string{"made"},
		Need: map[string]int64{"stored sets recovered": 1500, "stored shares checked against the format": 800, "library sets opened by the model": 8000,
			"model sets opened by the library": 8000, "lengths covered": 200},
		Assumptions: []string{"stored sets were written by the code at the commit the work started from", "the format is that of the property's statement; reed-solomon parts follow the systematic Vandermonde construction of klauspost/reedsolomon's default"},
		Stages: []Stage{
			{Name: "stored", N: fixed(523, 523*4), Run: c20stored},
			{Name: "made", N: fixed(1600, 30000), Run: c20made},
			{Name: "read", N: fixed(1600, 30000), Run: c20read},
			{Name: "lengths", N: fixed(130, 600), Run: c20lengths},
			{Name: "large", N: fixed(16, 120), Run: c20large},
		},
	})
}

var goldenOnce sync.Once
var goldenSets []golden.Set

// c20stored: sets written long ago.
func c20stored(c *C, i int) {
	goldenOnce.Do(func() {
		var err error
		if goldenSets, err = golden.Load(); err != nil {
			Inconclusive("stored share sets: %v", err)
		}
	})
	g := goldenSets[i%len(goldenSets)]
	if g.SSMS && !HaveSSMS {
		return
	}
	cbs := shamirCombiners()
	if g.SSMS {
		cbs = ssmsCombiners()
	}
	what := fmt.Sprintf("stored set %d (%s, n=%d, k=%d, length %d)", i%len(goldenSets), g.Entry, g.N, g.K, len(g.Secret))
	for t := 0; t < 3; t++ {
		sub := subset(c, g.Shares, c.Range(g.K, len(g.Shares)))
		if t == 0 {
			sub = subset(c, g.Shares, g.K)
		}
		if !checkCombine(c, pick(c, cbs), sub, g.N, g.K, g.Secret, what) {
			return
		}
		c.Obs("stored sets recovered", 1)
	}
	c.Distinct("stored", i)
	// the stored shares conform to the format the model implements
	if !g.All {
		return
	}
	if g.SSMS {
		o, err := ref.OpenSSMS(g.Shares, g.N, g.K)
		if err != nil || !bytes.Equal(o.Secret, g.Secret) {
			Inconclusive("the model cannot open %s: %v", what, err)
		}
	} else {
		p, err := ref.Recover(g.Shares, g.K)
		if err != nil || !bytes.Equal(p.Secret(), g.Secret) {
			Inconclusive("the model cannot open %s: %v", what, err)
		}
	}
	c.Obs("stored shares checked against the format", int64(len(g.Shares)))
}

// c20open judges a library-made set byte by byte with the model.
func c20open(c *C, sp Splitter, secret []byte, n, k int, sh [][]byte) bool {
	how := fmt.Sprintf("%s(len=%d, n=%d, k=%d)", sp.Name, len(secret), n, k)
	d := map[string]any{"secret": Hex(secret), "shares": hexes(sh)}
	want := len(secret) + 1
	if sp.SSMS {
		want = (len(secret)+k-1)/k + 22
	}
	c.Eval(1)
	for x, s := range sh {
		if len(s) != want {
			c.ViolateD(d, "size", "%s: share %d has %d bytes, the format says %d", how, x, len(s), want)
			return false
		}
	}
	if sp.SSMS {
		o, err := ref.OpenSSMS(sh, n, k)
		if err != nil {
			c.ViolateD(d, "format", "%s: the shares are not in the format: %v", how, err)
			return false
		}
		if o.Length != len(secret) || !bytes.Equal(o.Secret, secret) {
			d["key"], d["cipher"], d["read"] = Hex(o.Key), Hex(o.Cipher), Hex(o.Secret)
			c.ViolateD(d, "format", "%s: the format's reader gets other bytes (length field %d)", how, o.Length)
			return false
		}
	} else {
		p, err := ref.Recover(sh, k)
		if err != nil {
			c.ViolateD(d, "format", "%s: the shares are not in the format: %v", how, err)
			return false
		}
		if !bytes.Equal(p.Secret(), secret) {
			d["read"] = Hex(p.Secret())
			c.ViolateD(d, "format", "%s: the format's reader gets other bytes", how)
			return false
		}
	}
	c.Obs("library sets opened by the model", 1)
	return true
}

func c20params(c *C, i int) (n, k, l int) {
	switch i % 6 {
	case 0:
		n = c.Range(2, 255)
		k = c.Range(2, min(n, 24))
	case 1:
		n = c.Range(30, 255)
		k = c.Range(max(2, n-40), n)
		return n, k, c.Range(1, 40)
	default:
		n = c.Range(2, 14)
		k = c.Range(2, n)
	}
	switch i / 6 % 3 {
	case 0:
		l = c.Range(1, 66)
	case 1:
		l = max(1, []int{16, 32, 64, 128, 255, 256, k, 2 * k, 16 * k}[c.IntN(9)]+c.Range(-1, 1))
	default:
		l = c.Range(1, 900)
	}
	return
}

func c20splitters() []Splitter {
	if HaveSSMS {
		return append(shamirSplitters(), c14ssms()...)
	}
	return shamirSplitters()
}

func c20made(c *C, i int) {
	n, k, l := c20params(c, i)
	secret := anySecret(c, l)
	for _, sp := range c20splitters() {
		if sp.SSMS && k > 100 && i%12 != 1 {
			continue
		}
		sh := checkSplit(c, sp, secret, n, k)
		if sh == nil || !c20open(c, sp, secret, n, k, sh) {
			return
		}
		c.Distinct("made", sp.Name, n, k, l, secret)
	}
	if i < 2 {
		c.Sample(map[string]any{"n": n, "k": k, "length": l, "direction": "library writes, model reads"})
	}
}

// c20read: the model writes, the library reads.
func c20read(c *C, i int) {
	n, k, l := c20params(c, i)
	secret := anySecret(c, l)
	xs := pointList(c, n)
	what := fmt.Sprintf("model-made shares at points %v", xs[:min(n, 6)])
	sh := ref.RandPoly(secret, k, c.Fill).MakeShares(xs)
	for t := 0; t < 2; t++ {
		sub := subset(c, sh, k)
		if t == 1 {
			sub = subset(c, sh, c.Range(k, n))
		}
		if !checkCombine(c, pick(c, shamirCombiners()), sub, n, k, secret, what) {
			return
		}
		c.Obs("model sets opened by the library", 1)
	}
	c.Distinct("read shamir", n, k, l, secret)
	if !HaveSSMS || k > 100 && i%12 != 1 {
		return
	}
	key := c.Bytes(16)
	if i%10 == 3 {
		key = make([]byte, 16)
	}
	sh = ref.MakeSSMS(secret, key, n, k, xs, c.Fill)
	for t := 0; t < 2; t++ {
		sub := subset(c, sh, k)
		if t == 1 {
			sub = subset(c, sh, c.Range(k, n))
		}
		if !checkCombine(c, pick(c, ssmsCombiners()), sub, n, k, secret, what) {
			return
		}
		c.Obs("model sets opened by the library", 1)
	}
	c.Distinct("read ssms", n, k, l, secret)
}

// c20lengths: every length from 1 on, both directions, small n and k.
func c20lengths(c *C, i int) {
	for _, l := range []int{i*2 + 1, i*2 + 2} {
		for _, k := range []int{2, 3, 4, 7} {
			n := k + c.IntN(4)
			secret := anySecret(c, l)
			for _, sp := range c20splitters() {
				sh := checkSplit(c, sp, secret, n, k)
				if sh == nil || !c20open(c, sp, secret, n, k, sh) {
					return
				}
				c.Distinct("length", sp.Name, n, k, l)
			}
			xs := pointList(c, n)
			if HaveSSMS {
				sh := ref.MakeSSMS(secret, c.Bytes(16), n, k, xs, c.Fill)
				if !checkCombine(c, pick(c, ssmsCombiners()), subset(c, sh, k), n, k, secret, "model-made shares") {
					return
				}
				c.Obs("model sets opened by the library", 1)
			}
			sh := ref.RandPoly(secret, k, c.Fill).MakeShares(xs)
			if !checkCombine(c, pick(c, shamirCombiners()), subset(c, sh, k), n, k, secret, "model-made shares") {
				return
			}
			c.Obs("model sets opened by the library", 1)
		}
		c.Obs("lengths covered", 1)
	}
}

// c20large: lengths in which all four bytes of the length field matter, and
// long key streams.
func c20large(c *C, i int) {
	if c.Config != "native" && c.Config != "noasm" && !(c.Config == "x386" && i == 0) {
		return
	}
	l := []int{65535, 65536, 65537, 70001, 131072, 1 << 18, 300007, 1<<20 + 3, 16777215, 16777216, 16777217, 17000003, 40000, 99991, 1<<20 - 1, 500000}[i%16]
	if c.Config != "native" && l > 1<<20+3 {
		return
	}
	k := c.Range(2, 4)
	n := k + c.IntN(2)
	secret := c.Bytes(l)
	xs := []byte{9, 1, 255, 77, 3}[:n]
	if l <= 300007 {
		sp := pick(c, shamirSplitters())
		sh := checkSplit(c, sp, secret, n, k)
		if sh == nil || !c20open(c, sp, secret, n, k, sh) {
			return
		}
		sh = ref.RandPoly(secret, k, c.Fill).MakeShares(xs)
		if !checkCombine(c, pick(c, shamirCombiners()), subset(c, sh, k), n, k, secret, "model-made shares") {
			return
		}
		c.Obs("model sets opened by the library", 1)
	}
	if !HaveSSMS {
		return
	}
	sps := c14ssms()
	for x, sp := range sps {
		if l < 1<<24 && x != i%len(sps) {
			continue
		}
		sh := checkSplit(c, sp, secret, n, k)
		if sh == nil || !c20open(c, sp, secret, n, k, sh) {
			return
		}
	}
	sh := ref.MakeSSMS(secret, c.Bytes(16), n, k, xs, c.Fill)
	if !checkCombine(c, pick(c, ssmsCombiners()), subset(c, sh, k), n, k, secret, "model-made shares") {
		return
	}
	c.Obs("model sets opened by the library", 1)
	c.Distinct("large", l)
}
