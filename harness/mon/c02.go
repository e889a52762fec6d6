//go:build !386

package mon

import (
	"fmt"
	"runtime/debug"
	"syscall"
	"time"
)

func init() {
	register(&Monitor{
		ID:      "C02",
		Rule:    "a case is one (entry point, secret length and content, n, k, subset/order/holes); distinct by length, n, k and the positions handed to Combine",
		Configs: []string{"native", "noasm", "ssse3", "none", "warped"},
		Warp:    []string{"subsets", "edges"},
		Need:    map[string]int64{"splits": 10000, "combines": 20000},
		Stages: []Stage{
			{Name: "lengths", N: fixed(1300, 5200), Run: c02lengths, Configs: []string{"native"}},
			{Name: "lencfg", N: fixed(300, 1200), Run: c02lengths, Configs: []string{"noasm", "ssse3", "none"}},
			{Name: "grid", N: fixed((len(gridNK)+gridChunk-1)/gridChunk, (len(gridNK)+gridChunk-1)/gridChunk*3), Run: c02grid, Configs: []string{"native"}},
			{Name: "subsets", N: fixed(80, 800), Run: c02subsets, Configs: []string{"native", "noasm"}},
			{Name: "edges", N: func(bool) int { return len(edgeLens) }, Run: c02edges},
			{Name: "big", N: fixed(8, 64), Run: c02big, Configs: []string{"native", "noasm"}},
			{Name: "huge", N: fixed(len(hugeLens), 4*len(hugeLens)), Run: c02huge, Configs: []string{"native"}, OpCPU: 120 * time.Second},
			{Name: "limit", N: fixed(1, 1), Run: c02limit, Configs: []string{"native"}, OpCPU: 120 * time.Second},
			{Name: "giant", N: fixed(0, 1), Run: c02giant, Configs: []string{"native"}, OpCPU: 600 * time.Second, Phase: 1},
		},
	})
}

// holes hands m of the shares to Combine in one of the accepted ways.
func holes(c *C, sh [][]byte, m int) ([][]byte, string) {
	switch c.IntN(4) {
	case 0: // in place, others nil
		o := make([][]byte, len(sh))
		for _, p := range c.R.Perm(len(sh))[:m] {
			o[p] = sh[p]
		}
		return o, "nil holes in place"
	case 1: // left out, in order
		keep := map[int]bool{}
		for _, p := range c.R.Perm(len(sh))[:m] {
			keep[p] = true
		}
		var o [][]byte
		for i := range sh {
			if keep[i] {
				o = append(o, sh[i])
			}
		}
		return o, "left out"
	case 2: // any order
		return subset(c, sh, m), "shuffled"
	}
	o := subset(c, sh, m)
	for j := c.IntN(4); j > 0; j-- { // any order with nils in between
		p := c.IntN(len(o) + 1)
		o = append(o[:p:p], append([][]byte{nil}, o[p:]...)...)
	}
	return o, "shuffled with nils"
}

func c02one(c *C, sp Splitter, cbs []Combiner, secret []byte, n, k, tries int) {
	sh := checkSplit(c, sp, secret, n, k)
	if sh == nil {
		return
	}
	c.Obs("splits", 1)
	for t := 0; t < tries; t++ {
		m := k
		if t == 1 {
			m = n
		} else if t > 1 {
			m = c.Range(k, n)
		}
		in, how := holes(c, sh, m)
		c.Distinct(len(secret), n, k, how, m, fmt.Sprint(points(in)))
		if !checkCombine(c, pick(c, cbs), in, n, k, secret, sp.Name+" ("+how+")") {
			return
		}
		c.Obs("combines", 1)
		c.Obs("combined "+how, 1)
	}
}

func c02lengths(c *C, i int) {
	sps, cbs := ssmsSplitters(), ssmsCombiners()
	l := i + 1
	for k := 2; k <= 18; k++ {
		if c.Config != "native" && (k+i)%4 != 0 {
			continue
		}
		for _, d := range []int{0, 1, 3} {
			c02one(c, sps[(i+k+d)%len(sps)], cbs, anySecret(c, l), k+d, k, 1)
		}
	}
	// thresholds around and above the length
	for _, k := range []int{l - 1, l, l + 1, 2*l + 1, c.Range(2, 255)} {
		if k >= 2 && k <= 255 && (k < 40 || i%10 == 0) {
			c02one(c, pick(c, sps), cbs, anySecret(c, l), c.Range(k, min(255, k+6)), k, 1)
		}
	}
	if i < 20 {
		c.Sample(map[string]any{"length": l, "k": "2..18", "n": "k, k+1, k+3"})
	}
}

func c02grid(c *C, i int) {
	sps, cbs := ssmsSplitters(), ssmsCombiners()
	rounds := (len(gridNK) + gridChunk - 1) / gridChunk
	round := i / rounds
	i %= rounds
	for j := i * gridChunk; j < (i+1)*gridChunk && j < len(gridNK); j++ {
		n, k := gridNK[j][0], gridNK[j][1]
		if !c.Thorough && n > 48 && j%8 != int(c.Seed%8) && k > 3 && k < n-1 {
			continue
		}
		l := 1 + c.IntN(80)
		if j%7 == 0 {
			l = k*(1+c.IntN(4)) + c.Range(-1, 1)
		}
		c02one(c, sps[(j+round)%len(sps)], cbs, anySecret(c, max(1, l)), n, k, 1)
	}
}

func c02subsets(c *C, i int) {
	sps, cbs := ssmsSplitters(), ssmsCombiners()
	for _, sp := range sps {
		n := c.Range(2, 7)
		k := c.Range(2, n)
		secret := anySecret(c, c.Range(1, 60))
		sh := checkSplit(c, sp, secret, n, k)
		if sh == nil {
			return
		}
		c.Obs("splits", 1)
		for m := 1; m < 1<<n; m++ {
			var s [][]byte
			inPlace := make([][]byte, n)
			for b := 0; b < n; b++ {
				if m>>b&1 == 1 {
					s = append(s, sh[b])
					inPlace[b] = sh[b]
				}
			}
			if len(s) < k {
				continue
			}
			c.Distinct("sub", n, k, m)
			if !checkCombine(c, pick(c, cbs), inPlace, n, k, secret, sp.Name+" (nil holes)") {
				return
			}
			c.Obs("combines", 1)
			orders := [][]int{c.R.Perm(len(s))}
			if len(s) <= 3 {
				orders = permutations(len(s))
			}
			for _, o := range orders {
				t := make([][]byte, len(s))
				for x, y := range o {
					t[x] = s[y]
				}
				if !checkCombine(c, pick(c, cbs), t, n, k, secret, sp.Name) {
					return
				}
				c.Obs("combines", 1)
			}
		}
	}
}

func c02edges(c *C, i int) {
	sps, cbs := ssmsSplitters(), ssmsCombiners()
	l := edgeLens[i]
	for j := 0; j < 6; j++ {
		k := 2 + (i+j)%7
		if j == 5 {
			k = c.Range(2, 60)
		}
		c02one(c, sps[(i+j)%len(sps)], cbs, anySecret(c, l), k+(i+j)%4, k, 1)
	}
}

func c02big(c *C, i int) {
	sps := ssmsSplitters()
	l := 1<<20 + c.Range(-70, 70)
	if i%4 == 3 {
		l = 5<<20 + c.Range(0, 1000)
	}
	if c.Thorough && i%16 == 5 {
		l = 64<<20 + c.Range(0, 1000)
	}
	n := c.Range(2, 12)
	c02one(c, sps[i%len(sps)], ssmsCombiners(), anySecret(c, l), n, c.Range(2, n), 2)
}

// lengths that need more and more bits of the length field
var hugeLens = []int{8 << 20, 8<<20 + 255, 16<<20 - 1, 16<<20 + 1, 17<<20 + 65535, 24 << 20, 33 << 20}

func c02huge(c *C, i int) {
	sps := ssmsSplitters()
	l := hugeLens[i%len(hugeLens)]
	if i >= len(hugeLens) {
		l = c.Range(6<<20, 140<<20)
	}
	n := c.Range(2, 5)
	c02one(c, sps[i%len(sps)], ssmsCombiners(), anySecret(c, l), n, c.Range(2, n), 1)
	c.Obs("splits above 4 MiB", 1)
	debug.FreeOSMemory()
}

// c02limit: a secret whose length does not fit the 4-byte length field is
// refused. The secret is address space that is never touched unless the
// length check is passed.
func c02limit(c *C, i int) {
	l := 1<<32 + 1000
	b, err := syscall.Mmap(-1, 0, l, syscall.PROT_NONE, syscall.MAP_PRIVATE|syscall.MAP_ANON|syscall.MAP_NORESERVE)
	if err != nil {
		c.Obs("limit not observed: no address space", 1)
		return
	}
	defer syscall.Munmap(b)
	for _, sp := range ssmsSplitters() {
		for _, m := range []int{1 << 32, l} {
			var sh [][]byte
			if !c.Do(sp.Name, func() { sh, err = sp.Split(b[:m:m], 3, 2) }) {
				return
			}
			c.Eval(1)
			c.Distinct("limit", sp.Name, m)
			if err == nil || len(sh) != 0 {
				c.Violate("too-long", "%s of %d bytes, more than the length field can hold, was not refused", sp.Name, m)
				return
			}
		}
	}
}

// c02giant: beyond 31 bits of length.
func c02giant(c *C, i int) {
	l := 1<<31 + c.Range(1, 100000)
	secret := make([]byte, l)
	c.Fill(secret[:1<<20])
	for f := 1 << 20; f < l; f *= 2 {
		copy(secret[f:], secret[:f])
	}
	for p := 0; p < l; p += 65521 {
		secret[p] = byte(c.IntN(256))
	}
	sp := ssmsSplitters()[0]
	defer debug.SetGCPercent(debug.SetGCPercent(10))
	c02one(c, sp, ssmsCombiners()[:1], secret, 2, 2, 1)
	c.Obs("splits above 2 GiB", 1)
}
