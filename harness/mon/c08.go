//go:build !386

package mon

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"runtime/debug"
	"syscall"
	"time"
)

func init() {
	register(&Monitor{
		ID:      "C08",
		Rule:    "a case is one request (entry point, n, k, secret); distinct by these; accepted requests must return n shares, all others an error and no shares",
		Configs: []string{"native", "noasm"},
		Need:    map[string]int64{"accepted": 20000, "refused": 200000},
		Setup: func(c *C) {
			// a request that is wrongly accepted must not take the sandbox down
			lim := uint64(6 << 30)
			syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: lim, Max: lim})
		},
		Stages: []Stage{
			{Name: "grid", N: fixed(267, 267*3), Run: c08grid, Configs: []string{"native"}},
			{Name: "extreme", N: fixed(40, 400), Run: c08extreme},
			{Name: "empty", N: fixed(254, 254*3), Run: c08empty, Configs: []string{"native"}},
			{Name: "large", N: fixed(45, 81), Run: c08large, Configs: []string{"native"}, OpCPU: 200 * time.Second},
			{Name: "product", N: fixed(13, 13), Run: c08product, Configs: []string{"native"}, OpCPU: 400 * time.Second, Phase: 1},
			{Name: "many", N: fixed(27, 81), Run: c08many, Configs: []string{"native"}},
		},
	})
}

var extremeInts = []int{0, -1, 1, 2, 3, -2, 5, 10, 127, 128, 129, 254, 255, 256, 257, 258, 260, 265, 300, 511, 512, 513, 515, 767, 1000, 1024, 65535, 65536, 65537, 65538, 65541, 1 << 24, 1<<24 + 3,
	math.MaxInt32, math.MaxInt32 - 1, math.MinInt32, math.MinInt32 + 2, 1 << 31, 1<<31 + 2, 1<<32 - 1, 1 << 32, 1<<32 + 2, 1<<32 + 3, 1<<32 + 5, -(1 << 32), -(1 << 32) + 3, 1<<40 + 5, 1<<56 + 3,
	math.MaxInt64, math.MaxInt64 - 1, math.MinInt64, math.MinInt64 + 1, math.MinInt64 + 3, -3, -127, -128, -129, -253, -254, -255, -256, -257}

// c08one makes one request and judges it.
func c08one(c *C, sp Splitter, secret []byte, n, k int) bool {
	want := 2 <= k && k <= n && n <= 255 && len(secret) > 0
	var sh [][]byte
	var err error
	desc := fmt.Sprintf("%s(len=%d, n=%d, k=%d)", sp.Name, len(secret), n, k)
	if secret == nil {
		desc = fmt.Sprintf("%s(nil, n=%d, k=%d)", sp.Name, n, k)
	}
	if !c.Do(desc, func() { sh, err = sp.Split(secret, n, k) }) {
		return false
	}
	c.Eval(1)
	if want {
		c.Obs("accepted", 1)
		if err != nil {
			c.Violate("refused", "%s is valid but was refused: %v", desc, err)
			return false
		}
		if len(sh) != n {
			c.Violate("share-count", "%s returned %d shares", desc, len(sh))
			return false
		}
		for i, s := range sh {
			if len(s) == 0 {
				c.Violate("empty-share", "%s: share %d is empty", desc, i)
				return false
			}
		}
		return true
	}
	c.Obs("refused", 1)
	if err == nil {
		c.Violate("accepted", "%s is invalid but was accepted, with %d shares", desc, len(sh))
		return false
	}
	if len(sh) != 0 {
		c.Violate("shares-with-error", "%s failed (%v) but returned %d shares", desc, err, len(sh))
		return false
	}
	return true
}

// c08grid: every n and k in -4..262, every entry point.
func c08grid(c *C, i int) {
	n := i%267 - 4
	sps := allSplitters()
	for k := -4; k <= 262; k++ {
		for j, sp := range sps {
			secret := []byte("s")
			if (j+k)%3 == 0 {
				secret = anySecret(c, c.Range(1, 6))
			}
			valid := 2 <= k && k <= n && n <= 255
			// a third of the valid interior per entry point, all of the border
			if valid && !c.Thorough && k > 4 && k < n-3 && n < 252 && (k+j+n)%5 != 0 {
				continue
			}
			if sp.SSMS && valid && !c.Thorough && k > 4 && k < n-3 && n < 252 && (k+n+j)%37 != 0 {
				continue
			}
			if !c08one(c, sp, secret, n, k) {
				return
			}
			c.Distinct(sp.Name, n, k, len(secret))
		}
	}
	if i < 3 {
		c.Sample(map[string]any{"n": n, "k": "-4..262", "entry_points": len(sps)})
	}
}

func c08extreme(c *C, i int) {
	sps := allSplitters()
	for a := range extremeInts {
		if a%40 != i%40 && a%40 != (i+17)%40 {
			continue
		}
		for _, b := range extremeInts {
			for _, sp := range sps {
				for _, s := range [][]byte{{1}, anySecret(c, c.Range(2, 70))} {
					n, k := extremeInts[a], b
					if i >= 40 {
						n += c.Range(-3, 3)
						k += c.Range(-3, 3)
					}
					if !c08one(c, sp, s, n, k) {
						return
					}
					c.Distinct(sp.Name, n, k, len(s))
				}
			}
		}
	}
	// numbers that look valid after truncation to 8, 16 or 32 bits
	for t := 0; t < 400; t++ {
		n := c.Range(2, 255)
		k := c.Range(2, n)
		sh := []uint{8, 16, 32, 63, 9, 31, 24}[t%7]
		nn, kk := n, k
		switch t % 3 {
		case 0:
			nn += 1 << sh
		case 1:
			kk += 1 << sh
		case 2:
			nn += 1 << sh
			kk += 1 << sh
		}
		if t%2 == 1 {
			nn -= 1 << (sh%40 + 1)
		}
		if !c08one(c, sps[t%len(sps)], []byte("xyz"), nn, kk) || !c08one(c, sps[(t/3)%len(sps)], []byte("xyz"), nn, k) || !c08one(c, sps[(t/2)%len(sps)], []byte("xyz"), n, kk) {
			return
		}
		c.Distinct("trunc", nn, kk)
	}
}

func c08empty(c *C, i int) {
	n := i%254 + 2
	backing := make([]byte, 64)
	for _, sp := range allSplitters() {
		for k := 2; k <= n; k++ {
			if k > 6 && k < n-2 && (k+i)%23 != 0 {
				continue
			}
			if sp.SSMS && k > 3 && k < n-1 && !c.Thorough && (k+i)%61 != 0 {
				continue
			}
			for _, s := range [][]byte{nil, {}, backing[:0], backing[10:10]} {
				if !c08one(c, sp, s, n, k) {
					return
				}
			}
			c.Distinct(sp.Name, "empty", n, k)
		}
		// then a valid one on the same state
		if !c08one(c, sp, []byte("ok"), n, 2) {
			return
		}
	}
}

// c08large: no length of the secret is too large for any entry point, and the
// numbers are judged the same with it.
func c08large(c *C, i int) {
	sps := allSplitters()
	sp := sps[i%len(sps)]
	l := []int{1<<16 + c.IntN(3) - 1, 1<<20 + c.Range(0, 9), 1<<22 + c.Range(1, 9), 1<<24 + c.Range(1, 99), 1<<17 + c.Range(-9, 1<<17), 1 << 23, 1<<25 + 5, 1<<25 + c.Range(6, 1<<25), 1<<26 + 1}[i/len(sps)%9]
	secret := make([]byte, l)
	for x := 0; x < l; x += 1 << 10 {
		secret[x] = byte(c.R.Uint32())
	}
	k := 2
	n := k + c.IntN(2)
	if l < 1<<21 {
		k = c.Range(2, 6)
		n = c.Range(k, 9)
	}
	for _, bad := range [][2]int{{1, 1}, {k - 1, k}, {256, k}, {n, 1}, {n, 0}, {0, 0}, {-n, -k}, {n, n + 1}, {257 + n, k}} {
		if !c08one(c, sp, secret, bad[0], bad[1]) {
			return
		}
	}
	if c08one(c, sp, secret, n, k) {
		c.Obs("large secrets", 1)
		c.Distinct(sp.Name, l, n, k)
	}
}

// c08product: nor is the total size of the shares.
func c08product(c *C, i int) {
	// three at a time, for want of memory
	if f, err := os.Create(filepath.Join(c.Dir, fmt.Sprintf("product%d", i%3))); err == nil {
		defer f.Close()
		syscall.Flock(int(f.Fd()), syscall.LOCK_EX)
	}
	defer debug.FreeOSMemory()
	sps := allSplitters()
	sp := sps[i%len(sps)]
	const n, k = 255, 2
	l := 1<<30/n + 1
	if i >= len(sps) {
		l = 1<<31/n + 1
		if sp.SSMS || sp.Name == "shamir.SplitGeneric" || sp.Name == "shamir.SplitP" {
			return
		}
	}
	if sp.SSMS {
		l *= k
	}
	if c08one(c, sp, make([]byte, l), n, k) {
		c.Obs("large secrets", 1)
		c.Distinct(sp.Name, l, n, k)
	}
}

// c08many: requests are judged by their numbers, however many of the same
// kind were accepted or refused before.
func c08many(c *C, i int) {
	sps := allSplitters()
	sp := sps[i%len(sps)]
	m := 70000
	for t := 0; t < m; t++ {
		n, k, secret := 2, 2, []byte{byte(t), byte(t >> 8)}
		switch i / len(sps) % 3 {
		case 1: // refused ones
			switch t % 4 {
			case 0:
				secret = nil
			case 1:
				n = 1
			case 2:
				k = 3
			case 3:
				n = 256
			}
		case 2: // now and then a refused one
			if t%50 == 49 {
				k = 1
			}
			if t%3 == 0 {
				n++
			}
		}
		if !c08one(c, sp, secret, n, k) {
			return
		}
	}
	c.Distinct("many", sp.Name, i/len(sps))
	for _, sp := range sps {
		if !c08one(c, sp, []byte("afterwards"), 5, 3) {
			return
		}
	}
}
