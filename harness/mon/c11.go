package mon

import (
	"fmt"
	"math"
	"os"
	"time"

	"github.com/fadhilkurnia/shamir/csprng"
	"github.com/fadhilkurnia/shamir/randomizer"
)

func init() {
	register(&Monitor{
		ID:          "C11",
		Rule:        "a case is one kind of list (permutation or unique bytes, of either source) at one n; distinct by (kind, n); every list is checked for validity, and all lists of a case together for which value was seen at which position",
		Configs:     []string{"native", "x386", "warped"},
		Warp:        []string{"hostile", "interleaved", "fresh"},
		Need:        map[string]int64{"lists": 3000000, "sizes": 760},
		Assumptions: []string{"that a value can take a position is decided by having seen it there (or not at the expected rate): a bias that excludes nothing is not judged", "a request for 0..255 unique bytes may leave out one value of 0..255 throughout (255 numbers in 256), as callers add one and must not reach zero"},
		Stages: []Stage{
			{Name: "each", N: fixed(256*3, 256*3*3), Run: c11each, OpCPU: 10 * time.Second},
			{Name: "hostile", N: fixed(40, 400), Run: c11hostile, OpCPU: 10 * time.Second},
			{Name: "interleaved", N: fixed(20, 200), Run: c11interleaved},
			{Name: "successive", N: fixed(144, 1440), Run: c11successive},
			{Name: "fresh", N: fixed(16, 160), Run: c11fresh, RealEntropy: true},
		},
	})
}

var c11kinds = []string{"csprng.Perm", "randomizer.Perm", "csprng.GetUniqueBytes"}

type c11src struct {
	c *csprng.CSPRNG
	r *randomizer.Randomizer
}

func newC11src() c11src { return c11src{csprng.NewCSPRNG(), randomizer.NewRandomizer()} }

func (s c11src) list(c *C, kind, n int) ([]byte, bool) {
	var b []byte
	ok := c.Do(fmt.Sprintf("%s(%d)", c11kinds[kind], n), func() {
		switch kind {
		case 0:
			b = s.c.Perm(byte(n))
		case 1:
			b = s.r.Perm(byte(n))
		case 2:
			b = s.c.GetUniqueBytes(byte(n))
		}
	})
	return b, ok
}

func c11valid(c *C, kind, n int, b []byte, how string) bool {
	c.Eval(1)
	c.Obs("lists", 1)
	if len(b) != n {
		c.Violate("length", "%s(%d) returned %d bytes%s", c11kinds[kind], n, len(b), how)
		return false
	}
	var seen [256]bool
	for i, v := range b {
		if seen[v] {
			c.ViolateD(map[string]any{"list": Hex(b)}, "duplicate", "%s(%d) contains %d twice (again at %d)%s", c11kinds[kind], n, v, i, how)
			return false
		}
		seen[v] = true
		if kind < 2 && int(v) >= n {
			c.ViolateD(map[string]any{"list": Hex(b)}, "range", "%s(%d) contains %d%s", c11kinds[kind], n, v, how)
			return false
		}
	}
	return true
}

// c11each: one kind and n, many lists; validity of each, and every value must
// turn up at every position.
func c11each(c *C, i int) {
	kind, n := i%3, i/3%256
	T := n*45 + 200
	if kind == 2 {
		T = 256*45 + 200
	}
	if c.Thorough {
		T *= 2
	}
	src := newC11src()
	m := 256
	cnt := make([]int32, n*m)
	for t := 0; t < T; t++ {
		if t%500 == 499 {
			src = newC11src()
		}
		b, ok := src.list(c, kind, n)
		if !ok || !c11valid(c, kind, n, b, "") {
			return
		}
		for j, v := range b {
			cnt[j*m+int(v)]++
		}
	}
	c.Obs("sizes", 1)
	c.Distinct(c11kinds[kind], n)
	if kind < 2 && n < 2 {
		return
	}
	// coverage: with a fair shuffle a cell is missed with probability e^-45;
	// the library's modulo shuffle favours some values by at most 2x, so every
	// cell still gets at least about half its share
	vals := n
	var absent []int
	if kind == 2 {
		vals = 256
		var tot [256]int32
		for j := 0; j < n; j++ {
			for v := 0; v < 256; v++ {
				tot[v] += cnt[j*m+v]
			}
		}
		for v := 0; v < 256; v++ {
			if tot[v] == 0 && n > 0 {
				absent = append(absent, v)
			}
		}
		if len(absent) > 1 {
			c.Violate("excluded", "%s(%d): the values %v never occur in %d lists", c11kinds[kind], n, absent, T)
			return
		}
	}
	// adaptively: cells not seen get more lists before they count as excluded
	missing := func() [][2]int {
		var l [][2]int
		for j := 0; j < n; j++ {
			for v := 0; v < vals; v++ {
				if cnt[j*m+v] == 0 && !(len(absent) == 1 && absent[0] == v) {
					l = append(l, [2]int{j, v})
				}
			}
		}
		return l
	}
	miss := missing()
	for extra := 0; len(miss) > 0 && extra < 3*T; extra++ {
		b, ok := src.list(c, kind, n)
		if !ok || !c11valid(c, kind, n, b, "") {
			return
		}
		for j, v := range b {
			cnt[j*m+int(v)]++
		}
		if extra%200 == 199 {
			miss = missing()
		}
	}
	miss = missing()
	c.Eval(int64(n * vals))
	c.Obs("cells", int64(n*vals))
	if len(miss) > 0 {
		c.ViolateD(map[string]any{"missing": miss[:min(len(miss), 50)]}, "excluded", "%s(%d): %d combinations never occur in %d lists, first: value %d at position %d", c11kinds[kind], n, len(miss), 4*T, miss[0][1], miss[0][0])
		return
	}
	// nor may one cell dominate
	e := float64(T) / float64(vals)
	if kind == 2 {
		e = float64(T) / 255
	}
	for j := 0; j < n; j++ {
		for v := 0; v < vals; v++ {
			if x := float64(cnt[j*m+v]); n > 2 && x > 4*e && cellTail(int(x), 4*e) > tailLimit {
				c.Violate("dominant", "%s(%d): value %d is at position %d in %d of %d lists", c11kinds[kind], n, v, j, cnt[j*m+v], T)
				return
			}
		}
	}
	if i < 3 {
		c.Sample(map[string]any{"kind": c11kinds[kind], "n": n, "lists": T})
	}
}

// c11hostile: key streams that begin with 255s, zeros and repetitions.
func c11hostile(c *C, i int) {
	for rep := 0; rep < 3; rep++ {
		key, st := hostileKey(c, i%10)
		if key == nil {
			continue
		}
		c.Obs("hostile streams", 1)
		how := fmt.Sprintf(" with a key stream starting %x", st[:24])
		for n := 0; n < 256; n++ {
			for kind := 0; kind < 3; kind += 2 {
				s := c11src{c: csprng.NewCSPRNGWithKeyIV(key)}
				for t := 0; t < 2; t++ {
					b, ok := s.list(c, kind, n)
					if !ok || !c11valid(c, kind, n, b, how) {
						return
					}
				}
			}
		}
		c.Distinct("hostile", key)
	}
}

// c11interleaved: one long-lived source, all kinds and reads mixed.
func c11interleaved(c *C, i int) {
	src := newC11src()
	for t := 0; t < 6000; t++ {
		kind, n := c.IntN(3), c.IntN(256)
		if c.IntN(2) == 0 {
			n = c.IntN(24)
		}
		b, ok := src.list(c, kind, n)
		if !ok || !c11valid(c, kind, n, b, " in a mixed history") {
			return
		}
		// the list belongs to the caller
		for j := range b {
			b[j] = 0xee
		}
		if c.IntN(4) == 0 {
			buf := make([]byte, readSize(c)%600)
			c.Do("Read", func() { src.c.Read(buf); src.r.Read(buf) })
		}
	}
	c.Distinct("interleaved", i)
}

// c11fresh: long lists of one or many sources never come twice, and two
// successive ones agree no more than chance.
func c11fresh(c *C, i int) {
	kind := i % 3
	src := newC11src()
	seen := map[string]int{}
	var prev []byte
	agree, cells := 0, 0
	n := []int{32, 64, 255, 128, 17, 200}[i/3%6]
	for t := 0; t < 1500; t++ {
		if i%2 == 0 {
			src = newC11src()
		}
		b, ok := src.list(c, kind, n)
		if !ok || !c11valid(c, kind, n, b, "") {
			return
		}
		if p, dup := seen[string(b)]; dup {
			c.ViolateD(map[string]any{"list": Hex(b)}, "repeated", "%s(%d): lists %d and %d are equal", c11kinds[kind], n, p, t)
			return
		}
		seen[string(b)] = t
		if prev != nil {
			for j := range b {
				cells++
				if b[j] == prev[j] {
					agree++
				}
			}
		}
		prev = b
	}
	e := float64(cells) / float64(n)
	if kind == 2 {
		e = float64(cells) / 255
	}
	c.Eval(1)
	if t := cellTail(agree, 2*e); float64(agree) > 2*e && t > tailLimit {
		c.Violate("related", "%s(%d): successive lists agree in %d of %d places, expected about %.0f", c11kinds[kind], n, agree, cells, e)
	}
	c.Distinct("fresh", kind, n, i)
}

// c11successive relates two lists taken one after the other from one source,
// and the places within one list: how many values the first (or last) places
// of both have in common, and sums and differences of single places.
func c11successive(c *C, i int) {
	kinds := [][2]int{{0, 0}, {1, 1}, {2, 2}, {2, 2}, {0, 2}, {2, 0}}[i%6]
	v := i / 6
	u := 255
	if kinds[0] < 2 && kinds[1] < 2 {
		u = []int{255, 100, 64, 128, 200, c.Range(64, 255)}[v%6]
	}
	size := func(kind int) int {
		if kind < 2 {
			return u
		}
		return []int{c.Range(20, 40), c.Range(60, 127), c.Range(2, 19), c.Range(128, 254), c.Range(20, 127)}[c.IntN(5)]
	}
	na, nb := size(kinds[0]), size(kinds[1])
	if i%6 == 2 {
		nb = na
	}
	T := 3000
	if c.Thorough {
		T = 12000
	}
	what := fmt.Sprintf("%s(%d) then %s(%d)", c11kinds[kinds[0]], na, c11kinds[kinds[1]], nb)
	ha, hb := max(1, min(na, c.Range(1, na))), max(1, min(nb, c.Range(1, nb)))
	if i%6 == 2 || v%2 == 0 {
		ha, hb = max(1, min(na, u/2)), max(1, min(nb, u/2))
	}
	type cell struct{ sum, xor [256]int32 }
	pos := func(n int) []int { return []int{0, 1, n / 2, n - 1} }
	pa, pb := pos(na), pos(nb)
	var across, within [4][4]cell
	var common [4]int64 // first/first, last/first, first/last, last/last
	src := newC11src()
	for t := 0; t < T; t++ {
		if t%100 == 99 {
			src = newC11src()
		}
		a, ok := src.list(c, kinds[0], na)
		if !ok || !c11valid(c, kinds[0], na, a, "") {
			return
		}
		b, ok := src.list(c, kinds[1], nb)
		if !ok || !c11valid(c, kinds[1], nb, b, "") {
			return
		}
		for x, as := range [][]byte{a[:ha], a[na-ha:]} {
			var in [256]bool
			for _, w := range as {
				in[w] = true
			}
			for y, bs := range [][]byte{b[:hb], b[nb-hb:]} {
				for _, w := range bs {
					if in[w] {
						common[x+2*y]++
					}
				}
			}
		}
		for x := range pa {
			for y := range pb {
				p, q := a[pa[x]], b[pb[y]]
				across[x][y].sum[(int(q)+256-int(p))&255]++
				across[x][y].xor[q^p]++
			}
			for y := range pa {
				p, q := a[pa[x]], a[pa[y]]
				within[x][y].sum[(int(q)+256-int(p))&255]++
				within[x][y].xor[q^p]++
			}
		}
	}
	c.Distinct(what, ha, hb)
	mean := float64(ha) * float64(hb) / float64(u)
	sd := math.Sqrt(mean * (1 - float64(hb)/float64(u)) * float64(u-ha) / float64(u-1) * float64(T))
	for x, got := range common {
		c.Eval(1)
		r := float64(got) / (mean * float64(T))
		if d := math.Abs(float64(got) - mean*float64(T)); d > 12*sd+20 && (r < 0.75 || r > 1.5) {
			c.Violate("related", "%s: %s %d values of the first list and %s %d of the second have %d values in common in %d pairs of lists, expected %.0f", what,
				[]string{"the first", "the last"}[x%2], ha, []string{"the first", "the last"}[x/2], hb, got, T, mean*float64(T))
			return
		}
	}
	for x := range pa {
		for y := range pb {
			for w := 0; w < 256; w++ {
				if n := max(across[x][y].sum[w], across[x][y].xor[w]); int(n) > T/8 {
					c.Violate("related", "%s: in %d of %d pairs, place %d of the second list differs from place %d of the first by %d", what, n, T, pb[y], pa[x], w)
					return
				}
			}
		}
		for y := range pa {
			for w := 0; w < 256 && pa[x] != pa[y]; w++ {
				if n := max(within[x][y].sum[w], within[x][y].xor[w]); int(n) > T/8 {
					c.Violate("related", "%s(%d): in %d of %d lists, place %d differs from place %d by %d", c11kinds[kinds[0]], na, n, T, pa[y], pa[x], w)
					return
				}
			}
		}
	}
	if os.Getenv("VMON_DEBUG") != "" {
		for _, got := range common {
			fmt.Fprintln(os.Stderr, what, ha, hb, float64(got)/(mean*float64(T)), (float64(got)-mean*float64(T))/sd)
		}
	}
}
