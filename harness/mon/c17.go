package mon

import (
	"bytes"
	"fmt"
	"math"
	"time"

	"a.verif/vmon/ref"
	"github.com/fadhilkurnia/shamir/shamir"
)

func init() {
	register(&Monitor{
		ID:          "C17",
		Rule:        "a case is one regeneration: m given shares (of a library split or of the model, more than k allowed) and a count; distinct by (m, k, count, given points); the new shares are compared with the original polynomials and mixed with the given ones for recovery",
		Configs:     []string{"native", "noasm", "x386", "stress", "warped"},
		Warp:        []string{"small", "chain"},
		Need:        map[string]int64{"regenerations": 10000, "new shares": 200000, "mixed recoveries": 8000, "refused": 2000, "full to 255": 400},
		Assumptions: []string{"genuine shares are given by the model or the library's own splits; counts are refused only when they exceed the unused points, that is 255 minus the shares given"},
		Stages: []Stage{
			{Name: "every", N: fixed(254, 254*12), Run: c17every, OpCPU: 10 * time.Second, Configs: c17seq},
			{Name: "small", N: fixed(500, 8000), Run: c17small, Configs: c17seq},
			{Name: "counts", N: fixed(254, 254*8), Run: c17counts, OpCPU: 10 * time.Second, Configs: c17seq},
			{Name: "chain", N: fixed(60, 900), Run: c17chain, Configs: c17seq},
			{Name: "points", N: fixed(60, 600), Run: c17points, Configs: c17seq},
			{Name: "long", N: fixed(24, 300), Run: c17long, OpCPU: 60 * time.Second, Configs: []string{"native", "stress"}},
		},
	})
}

var c17seq = []string{"native", "noasm", "x386"}

// c17one regenerates and judges; it returns the new shares.
func c17one(c *C, given [][]byte, p ref.Poly, k, cnt int, how string) [][]byte {
	m := len(given)
	desc := fmt.Sprintf("Regenerate(%d shares, %d) (k=%d, %s)", m, cnt, k, how)
	var nw [][]byte
	var err error
	if !c.Do(desc, func() { nw, err = shamir.Regenerate(given, cnt) }) {
		return nil
	}
	c.Eval(1)
	c.Obs("regenerations", 1)
	d := map[string]any{"given_points": points(given), "new_points": points(nw), "given": hexes(given), "new": hexes(nw)}
	if cnt < 0 || cnt > 255-m {
		c.Obs("refused", 1)
		if err == nil {
			c.ViolateD(d, "accepted", "%s returned no error, although only %d unused points exist", desc, 255-m)
			return nil
		}
		if len(nw) != 0 {
			c.ViolateD(d, "shares-with-error", "%s failed (%v) but returned %d shares", desc, err, len(nw))
			return nil
		}
		return [][]byte{}
	}
	if err != nil {
		c.ViolateD(d, "refused", "%s failed: %v", desc, err)
		return nil
	}
	if len(nw) != cnt {
		c.ViolateD(d, "share-count", "%s returned %d shares", desc, len(nw))
		return nil
	}
	if cnt == 255-m {
		c.Obs("full to 255", 1)
	}
	var seen [256]bool
	for _, g := range given {
		seen[g[len(g)-1]] = true
	}
	for i, s := range nw {
		c.Obs("new shares", 1)
		if len(s) != len(given[0]) {
			c.ViolateD(d, "length", "%s: new share %d has %d bytes, the given ones %d", desc, i, len(s), len(given[0]))
			return nil
		}
		x := s[len(s)-1]
		if x == 0 {
			c.ViolateD(d, "zero-point", "%s: new share %d has the point 0, it is the secret", desc, i)
			return nil
		}
		if seen[x] {
			c.ViolateD(d, "clash", "%s: new share %d has the point %d, which is taken", desc, i, x)
			return nil
		}
		seen[x] = true
		if want := p.MakeShares([]byte{x})[0]; !bytes.Equal(want, s) {
			c.ViolateD(d, "off-polynomial", "%s: new share %d at point %d is not on the secret polynomials", desc, i, x)
			return nil
		}
	}
	if nw == nil {
		nw = [][]byte{}
	}
	return nw
}

func c17mix(c *C, given, nw [][]byte, k int, secret []byte) bool {
	all := append(append([][]byte{}, given...), nw...)
	if len(all) < k {
		return true
	}
	for t := 0; t < 2; t++ {
		var sub [][]byte
		if t == 0 && len(nw) >= k {
			sub = subset(c, nw, k)
		} else {
			sub = subset(c, all, k)
		}
		c.Obs("mixed recoveries", 1)
		if !checkCombine(c, pick(c, shamirCombiners()), sub, len(sub), k, secret, "given and regenerated shares") {
			return false
		}
	}
	return true
}

// given makes m genuine shares, by the library or by the model.
func c17given(c *C, m, k, l int, i int) ([][]byte, ref.Poly, []byte) {
	secret := anySecret(c, l)
	if i%2 == 0 {
		sp := pick(c, shamirSplitters())
		n := min(255, m+c.IntN(5))
		sh := checkSplit(c, sp, secret, n, k)
		if sh == nil {
			return nil, nil, nil
		}
		p, err := ref.Recover(sh, k)
		if err != nil || !bytes.Equal(p.Secret(), secret) {
			c.Violate("not-a-sharing", "%s(n=%d, k=%d): %v", sp.Name, n, k, err)
			return nil, nil, nil
		}
		return subset(c, sh, m), p, secret
	}
	p := ref.RandPoly(secret, k, c.Fill)
	if i%6 == 1 {
		// zero coefficients: polynomials of lower degree
		for b := range p {
			for d := 1; d < k; d++ {
				if c.IntN(2) == 0 {
					p[b][d] = 0
				}
			}
		}
	}
	var xs []byte
	for _, v := range c.R.Perm(255)[:m] {
		xs = append(xs, byte(v+1))
	}
	return p.MakeShares(xs), p, secret
}

// c17every: every number of given shares.
func c17every(c *C, i int) {
	m := i%254 + 2
	ks := []int{2, m, c.Range(2, m), min(m, c.Range(2, 9))}
	for r, k := range ks {
		given, p, secret := c17given(c, m, k, c.Range(1, 4), i/254+r)
		if given == nil {
			return
		}
		for _, cnt := range []int{0, 1, 255 - m, c.IntN(256 - m), 256 - m, 255, -1} {
			if m > 100 && cnt > 30 && cnt <= 255-m && r > 1 {
				cnt = 30
			}
			snap := clone(given)
			nw := c17one(c, given, p, k, cnt, "every m")
			if nw == nil {
				return
			}
			c.Distinct(m, k, cnt, given[0])
			if firstDiff(given, snap) >= 0 {
				c.Violate("input-changed", "Regenerate changed a given share")
				return
			}
			if (k < 40 || cnt == 1) && cnt >= 0 && !c17mix(c, given, nw, k, secret) {
				return
			}
		}
	}
}

func c17small(c *C, i int) {
	for t := 0; t < 6; t++ {
		m := c.Range(2, 8)
		k := c.Range(2, m)
		l := []int{1, 2, 16, 33, 100, 300}[c.IntN(6)]
		given, p, secret := c17given(c, m, k, l, i+t)
		if given == nil {
			return
		}
		cnt := c.Range(0, 12)
		nw := c17one(c, given, p, k, cnt, "small")
		if nw == nil || !c17mix(c, given, nw, k, secret) {
			return
		}
		c.Distinct(m, k, cnt, l, given[0])
	}
	if i < 2 {
		c.Sample(map[string]any{"given": "2..8 shares", "new": "0..12", "judged": "points, polynomials, mixed recovery"})
	}
}

// c17counts: counts around the limit, and absurd ones.
func c17counts(c *C, i int) {
	m := i%254 + 2
	k := min(m, c.Range(2, 4))
	given, p, _ := c17given(c, m, k, 1, i)
	if given == nil {
		return
	}
	l := []int{254 - m, 255 - m, 256 - m, 257 - m, 255, 256, 300, 512, 65536 + 1, 1 << 24, math.MaxInt32, math.MaxInt, math.MinInt, math.MinInt32, -1, -2, -255, -256, math.MinInt + 3, 256 + 1}
	for _, cnt := range l {
		if c17one(c, given, p, k, cnt, "limits") == nil {
			return
		}
		c.Distinct("limit", m, cnt)
	}
}

// c17chain: new shares give newer shares, and so on.
func c17chain(c *C, i int) {
	k := c.Range(2, 6)
	given, p, secret := c17given(c, k, k, c.Range(1, 20), i)
	if given == nil {
		return
	}
	cur := given
	for t := 0; t < 12; t++ {
		nw := c17one(c, cur, p, k, c.Range(k, k+6), fmt.Sprintf("generation %d", t))
		if nw == nil || !c17mix(c, cur, nw, k, secret) {
			return
		}
		cur = subset(c, nw, c.Range(k, len(nw)))
	}
	c.Distinct("chain", i, k)
}

// c17points: every unused point can be chosen, and the choice is fresh.
func c17points(c *C, i int) {
	m := []int{2, 3, 10, 100, 200, 250}[i%6]
	given, p, _ := c17given(c, m, 2, 1, i)
	if given == nil {
		return
	}
	var cnt [256]int
	free := 255 - m
	T := free*45/min(free, 20) + 50
	prev := ""
	same := 0
	for t := 0; t < T; t++ {
		nw := c17one(c, given, p, 2, min(free, 20), "choice of points")
		if nw == nil {
			return
		}
		s := fmt.Sprint(points(nw))
		if s == prev && free > 20 {
			same++
		}
		prev = s
		for _, x := range points(nw) {
			cnt[x]++
		}
	}
	if same > 0 {
		c.Violate("not-fresh", "Regenerate chose the same 20 points twice in a row")
		return
	}
	for _, g := range given {
		cnt[g[len(g)-1]]++
	}
	for x := 1; x < 256; x++ {
		c.Eval(1)
		if cnt[x] == 0 {
			c.Violate("excluded", "Regenerate never chose the unused point %d in %d calls for %d points each", x, T, min(free, 20))
			return
		}
	}
	c.Distinct("points", i, m)
}

// c17long: long shares, several new ones.
func c17long(c *C, i int) {
	l := []int{700, 1023, 1024, 1025, 2047, 4096, 5000, 8191, 16384, 20000, 65535, 65536, 70001, 131072, 262145}[i%15]
	m := c.Range(2, 6)
	cnt := []int{1, 2, 3, 7, 8, 12}[(i/15+i)%6]
	if l > 20000 {
		m, cnt = c.Range(2, 3), min(cnt, 4)
	}
	k := c.Range(2, m)
	given, p, secret := c17given(c, m, k, l, i)
	if given == nil {
		return
	}
	for t := 0; t < 3; t++ {
		nw := c17one(c, given, p, k, cnt, "long")
		if nw == nil || !c17mix(c, given, nw, k, secret) {
			return
		}
		c.Distinct("long", l, m, k, cnt, given[0][:8])
		c.Obs("long shares", int64(cnt))
		if l > 20000 {
			break
		}
	}
}
