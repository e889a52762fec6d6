//go:build !386

package mon

import (
	"bytes"
	"fmt"
	"math"
	"syscall"

	"a.verif/vmon/ref"
	"github.com/fadhilkurnia/shamir/shamir"
)

func init() {
	register(&Monitor{
		ID:      "C09",
		Rule:    "a case is one share set handed to Combine or Regenerate: mutated from genuine shares, assembled, or arbitrary bytes; distinct by content; those a predicate finds malformed must be refused without data, all must return with bounded output",
		Configs: []string{"native", "noasm", "warped"},
		Warp:    []string{"mutate"},
		Need:    map[string]int64{"malformed sets": 100000, "arbitrary sets": 100000},
		Setup: func(c *C) {
			lim := uint64(6 << 30)
			syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: lim, Max: lim})
		},
		Stages: []Stage{
			{Name: "mutate", N: fixed(600, 9000), Run: c09mutate, OpCPU: 20e9},
			{Name: "soup", N: fixed(300, 6000), Run: c09soup, OpCPU: 20e9},
			{Name: "params", N: fixed(64, 640), Run: c09params, OpCPU: 20e9},
			{Name: "short", N: fixed(60, 600), Run: c09short, OpCPU: 20e9},
			{Name: "lengths", N: fixed(60, 600), Run: c09lengths, OpCPU: 60e9},
			{Name: "crowded", N: fixed(80, 1600), Run: c09crowded, OpCPU: 60e9},
		},
	})
}

// shamirMalformed says why a set must be refused ("" if it need not be).
func shamirMalformed(s [][]byte) string {
	if len(s) < 2 {
		return "fewer than two shares"
	}
	seen := map[byte]bool{}
	for _, x := range s {
		if len(x) < 2 {
			return "a share that is too short"
		}
		if len(x) != len(s[0]) {
			return "shares of different lengths"
		}
		if p := x[len(x)-1]; seen[p] {
			return "the same point twice"
		} else {
			seen[p] = true
		}
	}
	return ""
}

// ssmsMalformed is the same for SSMS; nil and empty entries are left out.
func ssmsMalformed(s [][]byte, n, k int) string {
	if k < 2 || n > 255 || k > n {
		return "invalid n or k"
	}
	pts, ids := map[byte]bool{}, map[byte]bool{}
	l := -1
	for _, x := range s {
		if len(x) == 0 {
			continue
		}
		if len(x) < ref.MetaLen+2 {
			return "a share that is too short"
		}
		if l >= 0 && len(x) != l {
			return "shares of different lengths"
		}
		l = len(x)
		if id := x[len(x)-1]; int(id) >= n {
			return "a part number outside 0..n-1"
		} else {
			ids[id] = true
		}
		if p := x[ref.MetaLen-1]; pts[p] {
			return "the same point twice"
		} else {
			pts[p] = true
		}
	}
	if l < 0 {
		return "no shares"
	}
	if len(pts) < 2 {
		return "fewer than two shares"
	}
	if len(ids) < k {
		return "fewer than k parts"
	}
	return ""
}

func c09combine(c *C, cb Combiner, s [][]byte, n, k int, how string) bool {
	why := shamirMalformed(s)
	bound := 0
	for _, x := range s {
		bound = max(bound, len(x)-1)
	}
	if cb.SSMS {
		why = ssmsMalformed(s, n, k)
		bound = 0
		for _, x := range s {
			bound = max(bound, len(x)-ref.MetaLen-1)
		}
		bound *= max(0, min(k, 255))
	}
	before := hexes(s)
	var got []byte
	var err error
	if !c.Do(fmt.Sprintf("%s(%d shares, n=%d, k=%d; %s)", cb.Name, len(s), n, k, how), func() { got, err = cb.Combine(s, n, k) }) {
		if v := c.Violations(); v > 0 {
			c.res.Violations[len(c.res.Violations)-1].Detail = map[string]any{"shares": before}
		}
		return false
	}
	c.Eval(1)
	d := map[string]any{"shares": before, "got": Hex(got), "err": fmt.Sprint(err), "how": how}
	if why != "" {
		c.Obs("malformed sets", 1)
		c.Obs("malformed: "+why, 1)
		if err == nil {
			c.ViolateD(d, "accepted", "%s(%d shares, n=%d, k=%d) with %s returned %d bytes and no error (%s)", cb.Name, len(s), n, k, why, len(got), how)
			return false
		}
	} else {
		c.Obs("arbitrary sets", 1)
	}
	if err != nil && len(got) != 0 {
		c.ViolateD(d, "data-with-error", "%s(%d shares, n=%d, k=%d) failed (%v) but returned %d bytes (%s)", cb.Name, len(s), n, k, err, len(got), how)
		return false
	}
	if err == nil && len(got) > bound {
		c.ViolateD(d, "too-long", "%s(%d shares, n=%d, k=%d) returned %d bytes, the shares can carry %d (%s)", cb.Name, len(s), n, k, len(got), bound, how)
		return false
	}
	return true
}

func c09regen(c *C, s [][]byte, cnt int, how string) bool {
	why := shamirMalformed(s)
	before := hexes(s)
	var got [][]byte
	var err error
	if !c.Do(fmt.Sprintf("shamir.Regenerate(%d shares, %d; %s)", len(s), cnt, how), func() { got, err = shamir.Regenerate(s, cnt) }) {
		return false
	}
	c.Eval(1)
	d := map[string]any{"shares": before, "err": fmt.Sprint(err), "how": how}
	if why != "" {
		c.Obs("malformed sets", 1)
		if err == nil {
			c.ViolateD(d, "accepted", "shamir.Regenerate(%d shares, %d) with %s returned %d shares and no error (%s)", len(s), cnt, why, len(got), how)
			return false
		}
	}
	if err != nil && len(got) != 0 {
		c.ViolateD(d, "data-with-error", "shamir.Regenerate(%d shares, %d) failed (%v) but returned %d shares (%s)", len(s), cnt, err, len(got), how)
		return false
	}
	if err == nil && len(got) != max(0, cnt) {
		c.ViolateD(d, "too-long", "shamir.Regenerate(%d shares, %d) returned %d shares (%s)", len(s), cnt, len(got), how)
		return false
	}
	for _, g := range got {
		if len(g) != len(s[0]) {
			c.ViolateD(d, "too-long", "shamir.Regenerate(%d shares, %d) returned a share of %d bytes for shares of %d (%s)", len(s), cnt, len(g), len(s[0]), how)
			return false
		}
	}
	return true
}

// mutateSet applies one structure-aware change to a share set.
func mutateSet(c *C, s [][]byte, ssms bool) ([][]byte, string) {
	s = clone(s)
	if len(s) == 0 {
		return append(s, c.Bytes(c.IntN(30))), "added"
	}
	i := c.IntN(len(s))
	j := c.IntN(len(s))
	point := func(x []byte) int {
		if ssms {
			return min(len(x), ref.MetaLen) - 1
		}
		return len(x) - 1
	}
	switch c.IntN(20) {
	case 0:
		return append(s[:i], s[i+1:]...), "one removed"
	case 1:
		return s[:c.IntN(min(3, len(s))+1)], "cut to few"
	case 2:
		s[i] = nil
		return s, "one nil"
	case 3:
		s[i] = []byte{}
		return s, "one empty"
	case 4:
		s[i] = s[i][:c.IntN(len(s[i])+1)]
		return s, "one truncated"
	case 5:
		s[i] = append(s[i], c.Bytes(c.Range(1, 40))...)
		return s, "one extended"
	case 6:
		if len(s[i]) > 0 {
			s[i] = s[i][1:]
		}
		return s, "one shifted"
	case 7:
		return append(s, append([]byte(nil), s[i]...)), "copy appended"
	case 8:
		if i != j && len(s[i]) > 0 && len(s[j]) > 0 && point(s[i]) >= 0 && point(s[j]) >= 0 {
			s[i][point(s[i])] = s[j][point(s[j])]
		}
		return s, "same point"
	case 9:
		if len(s[i]) > 0 {
			s[i][len(s[i])-1] = byte(c.IntN(256))
		}
		return s, "last byte changed"
	case 10:
		if len(s[i]) > 0 && len(s[j]) > 0 {
			s[i][len(s[i])-1] = s[j][max(0, len(s[j])-1)%max(1, len(s[j]))]
		}
		return s, "last byte copied"
	case 11:
		if len(s[i]) > 0 {
			s[i][c.IntN(len(s[i]))] ^= 1 << c.IntN(8)
		}
		return s, "bit flipped"
	case 12:
		if len(s[i]) > 0 && point(s[i]) >= 0 {
			s[i][point(s[i])] = 0
		}
		return s, "zero point"
	case 13:
		l := c.IntN(30)
		for x := range s {
			s[x] = s[x][:min(len(s[x]), l)]
		}
		return s, "all truncated"
	case 14:
		l := c.Range(1, 30)
		for x := range s {
			s[x] = append(s[x], make([]byte, l)...)
		}
		return s, "all extended"
	case 15: // wrong metadata: the recovered length is arbitrary
		for x := range s {
			for y := 14; y < min(20, len(s[x])); y++ {
				s[x][y] = byte(c.IntN(256))
			}
		}
		return s, "metadata changed"
	case 16:
		for x := range s {
			s[x] = make([]byte, len(s[x]))
		}
		return s, "all zero"
	case 17:
		if len(s[i]) > 1 {
			s[i] = s[i][:len(s[i])-1]
		}
		return s, "last byte dropped"
	case 18:
		s[i] = s[i][:0:0]
		s[j] = nil
		return s, "two emptied"
	}
	s[i], s[j] = s[j], s[i]
	return s, "swapped"
}

func c09mutate(c *C, i int) {
	sps := allSplitters()
	sp := sps[i%len(sps)]
	cbs := shamirCombiners()
	if sp.SSMS {
		cbs = ssmsCombiners()
	}
	for r := 0; r < 8; r++ {
		n := c.Range(2, 8)
		k := c.Range(2, n)
		if r == 7 && i%5 == 0 {
			n = c.Range(200, 255)
			k = c.Range(2, 12)
		}
		l := c.Range(1, 40)
		if c.IntN(10) == 0 {
			l = c.Range(41, 3000)
		}
		secret := anySecret(c, l)
		sh := checkSplit(c, sp, secret, n, k)
		if sh == nil {
			return
		}
		if n > 20 {
			sh = sh[:k+3]
		}
		for t := 0; t < 40; t++ {
			s, how := mutateSet(c, sh, sp.SSMS)
			for x := c.IntN(3); x > 0; x-- {
				var h string
				s, h = mutateSet(c, s, sp.SSMS)
				how += ", " + h
			}
			c.Distinct(sp.Name, n, k, how, l)
			if !c09combine(c, pick(c, cbs), s, n, k, how) {
				return
			}
			if !sp.SSMS && !c09regen(c, s, []int{0, 1, 2, 5, 300, -1}[c.IntN(5)], how) {
				return
			}
		}
	}
	if i < 3 {
		c.Sample(map[string]any{"entry": sp.Name, "mutations": "structure-aware, up to 3 at once"})
	}
}

// c09soup: arbitrary bytes.
func c09soup(c *C, i int) {
	all := append(shamirCombiners(), ssmsCombiners()...)
	for r := 0; r < 400; r++ {
		m := c.IntN(8)
		if r%50 == 0 {
			m = c.IntN(300)
		}
		s := make([][]byte, m)
		l := c.IntN(50)
		mode := c.IntN(5)
		for x := range s {
			if mode == 0 {
				l = c.IntN(50)
			}
			s[x] = c.Bytes(l)
			if l > 0 && mode >= 2 { // plausible numbers
				s[x][l-1] = byte(x)
			}
			if l > 20 && mode >= 3 {
				s[x][20] = byte(x + 1)
			}
			if mode == 4 && l > 21 { // small key material gives small lengths
				for y := 16; y < 20; y++ {
					s[x][y] = 0
				}
				s[x][16] = byte(r)
			}
		}
		if mode >= 2 {
			c.R.Shuffle(len(s), func(a, b int) { s[a], s[b] = s[b], s[a] })
		}
		n := c.Range(0, 12)
		k := c.Range(0, 12)
		if mode >= 3 {
			n = max(1, m)
			k = c.Range(1, n)
		}
		c.Distinct("soup", r, i)
		if !c09combine(c, pick(c, all), s, n, k, "arbitrary bytes") {
			return
		}
		if r%4 == 0 && m < 20 && !c09regen(c, s, c.IntN(6), "arbitrary bytes") {
			return
		}
	}
}

// c09params: genuine shares with any n and k.
func c09params(c *C, i int) {
	sps, cbs := ssmsSplitters(), ssmsCombiners()
	n := c.Range(2, 9)
	k := c.Range(2, n)
	sh := checkSplit(c, sps[i%3], anySecret(c, c.Range(1, 60)), n, k)
	if sh == nil {
		return
	}
	vals := append([]int{}, extremeInts...)
	for v := -3; v <= 14; v++ {
		vals = append(vals, v)
	}
	for _, a := range vals {
		for _, b := range vals {
			if c.IntN(4) != 0 && (a < -3 || a > 20) {
				continue
			}
			c.Distinct("params", n, k, a, b)
			if !c09combine(c, pick(c, cbs), clone(sh), a, b, fmt.Sprintf("genuine shares of n=%d, k=%d", n, k)) {
				return
			}
		}
	}
	// the Shamir combiner of a worker does not need n and k, but must survive any
	sps = shamirSplitters()
	sh = checkSplit(c, sps[i%len(sps)], anySecret(c, 9), n, k)
	if sh == nil {
		return
	}
	cb := pick(c, shamirCombiners())
	for _, b := range []int{0, -1, math.MaxInt64, math.MinInt64, 300} {
		if !c09combine(c, cb, sh, b, b, "genuine Shamir shares, odd n and k") {
			return
		}
	}
	for _, cnt := range []int{-1, -2, math.MinInt64, math.MinInt32, 254, 255, 256, 1000, 1 << 20, math.MaxInt32, math.MaxInt64, 256 - n, 1<<32 + 1, 1 << 40} {
		var got [][]byte
		var err error
		if !c.Do(fmt.Sprintf("shamir.Regenerate(%d shares, %d)", n, cnt), func() { got, err = shamir.Regenerate(sh, cnt) }) {
			return
		}
		c.Eval(1)
		if err == nil || len(got) != 0 {
			c.Violate("accepted", "shamir.Regenerate(%d shares, %d) returned %d shares, error %v", n, cnt, len(got), err)
			return
		}
	}
}

// c09short: all combinations of very short shares and few of them.
func c09short(c *C, i int) {
	all := append(shamirCombiners(), ssmsCombiners()...)
	mk := func(l int) []byte {
		switch l {
		case 0:
			return nil
		case 1:
			return []byte{}
		}
		b := c.Bytes(l - 1)
		b[l-2] = byte(c.IntN(4))
		return b
	}
	for _, cb := range all {
		if !c09combine(c, cb, nil, 3, 2, "nil set") || !c09combine(c, cb, [][]byte{}, 3, 2, "empty set") {
			return
		}
		for a := 0; a <= 26; a++ {
			if !c09combine(c, cb, [][]byte{mk(a)}, 3, 2, "one short share") {
				return
			}
			for b := 0; b <= 26; b++ {
				if !c09combine(c, cb, [][]byte{mk(a), mk(b)}, c.Range(1, 4), c.Range(0, 3), "two short shares") {
					return
				}
				if (a+b+i)%3 == 0 && !c09combine(c, cb, [][]byte{mk(a), mk(b), mk(a), mk(c.IntN(27))}, 4, 2, "short shares") {
					return
				}
				c.Distinct(cb.Name, a, b)
			}
		}
	}
	for a := 0; a <= 6; a++ {
		for b := 0; b <= 6; b++ {
			if !c09regen(c, [][]byte{mk(a), mk(b)}, c.IntN(4), "two short shares") || !c09regen(c, [][]byte{mk(a)}, c.IntN(4), "one short share") {
				return
			}
		}
	}
	if !c09regen(c, nil, 1, "nil set") || !c09regen(c, [][]byte{}, 0, "empty set") {
		return
	}
}

// c09lengths: otherwise genuine shares of which one differs in length, by as
// little as a byte and as much as a multiple of 2^8, 2^16 or 2^24.
func c09lengths(c *C, i int) {
	all := append(shamirCombiners(), ssmsCombiners()...)
	by := []int{1, 2, 16, 255, 256, 257, 512, 1024, 4096, 32768, 65535, 65536, 65537, 2 * 65536, 1 << 20, 1 << 24, 1<<24 + 65536}
	for x, d := range by {
		if d > 1<<19 && (i+x)%4 > 0 {
			continue
		}
		cb := all[(i+x)%len(all)]
		k := c.Range(2, 5)
		n := c.Range(k, 7)
		l := c.Range(1, 40)
		secret := c.Bytes(l)
		var s [][]byte
		if cb.SSMS {
			s = ref.MakeSSMS(secret, c.Bytes(16), n, k, pointList(c, n), c.Fill)
		} else {
			s = ref.RandPoly(secret, k, c.Fill).MakeShares(pointList(c, n))
		}
		s = subset(c, s, c.Range(k, n))
		at := c.IntN(len(s))
		old := s[at]
		// the tail, with point or part number, stays where readers look for it
		b := make([]byte, len(old)+d)
		switch c.IntN(3) {
		case 0: // at both ends
			copy(b, old)
			copy(b[len(b)-len(old):], old)
		case 1:
			copy(b[:min(21, len(b)-1)], old)
			b[len(b)-1] = old[len(old)-1]
		case 2:
			for y := range b {
				b[y] = old[y%len(old)]
			}
			b[len(b)-1] = old[len(old)-1]
		}
		if !cb.SSMS { // no point twice, wherever it is looked for
			for _, y := range []int{len(old) - 1, len(b) - 1} {
				b[y] = old[len(old)-1]
			}
		}
		set := append([][]byte(nil), s...)
		set[at] = b
		how := fmt.Sprintf("one of %d shares is %d bytes longer", len(s), d)
		if !c09combine(c, cb, set, n, k, how) {
			return
		}
		if c.IntN(2) == 0 { // one shorter than all others
			if d < 1<<18 {
				for y := range set {
					set[y] = append(bytes.Repeat([]byte{byte(y)}, d), s[y]...)
				}
				set[at] = old
				how = fmt.Sprintf("one of %d shares is %d bytes shorter", len(s), d)
				if !c09combine(c, cb, set, n, k, how) {
					return
				}
			}
		}
		if !cb.SSMS && d < 1<<18 && !c09regen(c, set, c.IntN(4), how) {
			return
		}
		c.Obs("differing lengths", 1)
		c.Distinct("lengths", cb.Name, d, at == 0)
	}
}

// c09crowded: large sets, up to every point there is, that one share anywhere
// in them makes malformed.
func c09crowded(c *C, i int) {
	all := append(shamirCombiners(), ssmsCombiners()...)
	for r := 0; r < 12; r++ {
		cb := all[(i+r)%len(all)]
		m := c.Range(2, 255)
		switch (i + r) % 4 {
		case 0:
			m = c.Range(250, 255)
		case 1:
			m = []int{255, 256, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 240, 254}[c.IntN(16)]
		}
		if cb.SSMS {
			m = min(m, 255)
		}
		l := c.Range(1, 5)
		xs := c.R.Perm(255)
		if (i+r)%5 == 0 {
			for j := range xs {
				xs[j] = j
			}
		}
		pts := make([]byte, m)
		for j := range pts {
			if j < 255 {
				pts[j] = byte(xs[j] + 1)
			} // the 256th is 0
		}
		k := c.Range(2, min(m, 20))
		secret := c.Bytes(l)
		var s [][]byte
		if cb.SSMS {
			s = ref.MakeSSMS(secret, c.Bytes(16), m, k, pts, c.Fill)
		} else {
			s = ref.RandPoly(secret, k, c.Fill).MakeShares(pts)
		}
		if c.IntN(2) == 0 {
			s = subset(c, s, m)
		}
		pos := func() int { // mostly near the ends
			switch c.IntN(4) {
			case 0:
				return c.IntN(min(3, len(s)))
			case 1:
				return len(s) - 1 - c.IntN(min(3, len(s)))
			}
			return c.IntN(len(s))
		}
		put := func(at int, x []byte) {
			s = append(s[:at:at], append([][]byte{x}, s[at:]...)...)
		}
		how := fmt.Sprintf("%d shares", m)
		kind := c.IntN(5)
		switch kind {
		case 0, 1:
			for x := 1 + c.IntN(2)*c.IntN(300); x > 0; x-- {
				y := append([]byte(nil), s[pos()]...)
				if p := c.IntN(len(y)); kind == 1 && (cb.SSMS && p != ref.MetaLen-1 && p != len(y)-1 || !cb.SSMS && p != len(y)-1) {
					y[p] ^= 1 + byte(c.IntN(255))
				}
				if c.IntN(2) == 0 {
					s = append(s, y)
				} else {
					put(pos(), y)
				}
			}
			how += ", some of them again"
		case 2:
			s[pos()] = c.Bytes(c.IntN(2))
			how += ", one of them cut to nothing"
		case 3:
			p := pos()
			s[p] = append([]byte(nil), s[p][:len(s[p])-1]...)
			how += ", one of them cut"
		case 4:
			p := pos()
			s[p] = append(append([]byte(nil), s[p]...), byte(p))
			how += ", one of them longer"
		}
		c.Distinct(cb.Name, "crowded", m, k, l, how)
		if !c09combine(c, cb, s, m, k, how) {
			return
		}
		if !cb.SSMS && !c09regen(c, s, c.IntN(3), how) {
			return
		}
		c.Obs("crowded sets", 1)
	}
}
