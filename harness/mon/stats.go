package mon

import (
	"fmt"
	"strings"
)

const (
	zLimit    = 9.0  // Wilson-Hilferty deviate; p is far below 1e-15
	tailLimit = 18.0 // -log10 of a single cell's tail bound
)

// column is one observed byte in each of T executions.
type column struct {
	name string
	v    []byte
	// uniform: must be uniform on 0..255
	uniform bool
	group   int // columns of different groups must be independent; 0: of all
}

// testColumns judges uniformity and independence of the columns. Columns that
// are in the same non-zero group are not compared with one another. Pairs
// among at most maxPairs columns are tested; the affine test covers all.
func testColumns(c *C, what string, cols []column, witness any) {
	if len(cols) == 0 {
		return
	}
	T := len(cols[0].v)
	bad := func(key, format string, a ...any) {
		c.ViolateD(map[string]any{"samples": T, "what": what, "first_rows": firstRows(cols), "case": witness}, key, "%s: %s", what, fmt.Sprintf(format, a...))
	}
	// marginals
	marg := make([][]int, len(cols))
	for i, col := range cols {
		cnt := make([]int, 256)
		for _, b := range col.v {
			cnt[b]++
		}
		marg[i] = cnt
		if !col.uniform {
			continue
		}
		c.Eval(1)
		if z := chi2uniform(cnt); z > zLimit {
			bad("not-uniform", "%s is not uniform over %d executions (chi-square deviate %.1f)", col.name, T, z)
			return
		}
		e := float64(T) / 256
		for v, n := range cnt {
			if t := cellTail(n, e); t > tailLimit {
				bad("not-uniform", "%s has the value %d in %d of %d executions, expected %.1f", col.name, v, n, T, e)
				return
			}
		}
	}
	// pairs
	for i := range cols {
		for j := i + 1; j < len(cols); j++ {
			a, b := cols[i], cols[j]
			if a.group != 0 && a.group == b.group {
				continue
			}
			if !a.uniform && !b.uniform {
				continue
			}
			c.Eval(1)
			if a.uniform && b.uniform {
				cnt := make([]int, 256)
				for t := range a.v {
					cnt[a.v[t]^b.v[t]]++
				}
				if z := chi2uniform(cnt); z > zLimit {
					bad("dependent", "%s and %s are dependent: their XOR is not uniform (deviate %.1f)", a.name, b.name, z)
					return
				}
			}
			for _, sh := range [][2]uint{{0, 0}, {4, 4}, {0, 4}, {4, 0}} {
				cnt := make([]int, 256)
				for t := range a.v {
					cnt[int(a.v[t]>>sh[0]&15)<<4|int(b.v[t]>>sh[1]&15)]++
				}
				if z := indep(cnt, T); z > zLimit {
					bad("dependent", "%s (bits %d-%d) and %s (bits %d-%d) are dependent (contingency deviate %.1f)", a.name, sh[0], sh[0]+3, b.name, sh[1], sh[1]+3, z)
					return
				}
			}
		}
	}
	// affine relations over GF(2) among all columns (this includes every
	// GF(2^8)-linear relation)
	testAffine(c, what, cols, witness)
}

func indep(cnt []int, T int) float64 {
	var r, k [16]int
	for i, v := range cnt {
		r[i>>4] += v
		k[i&15] += v
	}
	x := 0.0
	nr, nk := 0, 0
	for i := 0; i < 16; i++ {
		if r[i] > 0 {
			nr++
		}
		if k[i] > 0 {
			nk++
		}
	}
	if nr < 2 || nk < 2 {
		return 0
	}
	for i, v := range cnt {
		e := float64(r[i>>4]) * float64(k[i&15]) / float64(T)
		if e > 0 {
			d := float64(v) - e
			x += d * d / e
		}
	}
	return chi2z(x, (nr-1)*(nk-1))
}

func testAffine(c *C, what string, cols []column, witness any) {
	var act []column
	for _, col := range cols {
		if !constant(col.v) || col.uniform {
			act = append(act, col)
		}
	}
	bits := len(act)*8 + 1
	T := len(act[0].v)
	need := bits + 128
	if T < need {
		return
	}
	rows := make([][]uint64, need)
	for t := range rows {
		row := make([]uint64, (bits+63)/64)
		row[0] = 1
		for i, col := range act {
			b := col.v[t]
			for k := 0; k < 8; k++ {
				if b>>k&1 == 1 {
					p := 1 + i*8 + k
					row[p/64] |= 1 << (p % 64)
				}
			}
		}
		rows[t] = row
	}
	c.Eval(1)
	free, dep := columnDeps(rows, bits)
	if free == 0 {
		return
	}
	// relations among non-uniform columns alone (e.g. an ASCII secret) do not count
	var names []string
	hasUni := false
	for _, d := range dep {
		if d == 0 {
			names = append(names, "1")
			continue
		}
		col := act[(d-1)/8]
		hasUni = hasUni || col.uniform
		names = append(names, fmt.Sprintf("bit %d of %s", (d-1)%8, col.name))
		if len(names) > 12 {
			names = append(names, "...")
			break
		}
	}
	if !hasUni {
		return
	}
	c.ViolateD(map[string]any{"samples": need, "what": what, "first_rows": firstRows(cols), "case": witness}, "dependent",
		"%s: in all of %d executions this XOR is 0: %s (%d such relations)", what, need, strings.Join(names, " + "), free)
}

func constant(v []byte) bool {
	for _, b := range v {
		if b != v[0] {
			return false
		}
	}
	return true
}

func firstRows(cols []column) []string {
	var o []string
	for i, col := range cols {
		if i == 24 {
			break
		}
		o = append(o, fmt.Sprintf("%s: %x", col.name, col.v[:min(16, len(col.v))]))
	}
	return o
}

// tally is a set of named 256-cell histograms.
type tally map[string]*[256]int

func (t tally) add(name string, v byte) {
	h := t[name]
	if h == nil {
		h = new([256]int)
		t[name] = h
	}
	h[v]++
}

func (t tally) get(name string) *[256]int {
	h := t[name]
	if h == nil {
		h = new([256]int)
		t[name] = h
	}
	return h
}

// judge tests every histogram for uniformity.
func (t tally) judge(c *C, what string, witness any) {
	for name, h := range t {
		n := 0
		for _, v := range h {
			n += v
		}
		c.Eval(1)
		e := float64(n) / 256
		if n >= 256*8 {
			if z := chi2uniform(h[:]); z > zLimit {
				c.ViolateD(map[string]any{"histogram": h[:], "samples": n, "case": witness}, "not-uniform", "%s: %s is not uniform over %d observations (chi-square deviate %.1f)", what, name, n, z)
				return
			}
		}
		for v, k := range h {
			if x := cellTail(k, e); x > tailLimit {
				c.ViolateD(map[string]any{"histogram": h[:], "samples": n, "case": witness}, "not-uniform", "%s: %s has the value %d %d times in %d observations, expected %.2f", what, name, v, k, n, e)
				return
			}
		}
		c.Obs("histogram entries", int64(n))
	}
}

// winSet finds repeated 12-byte windows.
type winSet struct {
	m map[[winLen]byte]winRef
}

const winLen = 12

type winRef struct {
	split int
	pos   int
	kind  string
}

func newWinSet() *winSet { return &winSet{m: map[[winLen]byte]winRef{}} }

// add enters all windows of s at the given step, and returns a clash.
func (w *winSet) add(s []byte, step int, split int, kind string) (winRef, int, bool) {
	for i := 0; i+winLen <= len(s); i += step {
		var k [winLen]byte
		copy(k[:], s[i:])
		if r, ok := w.m[k]; ok {
			return r, i, true
		}
		w.m[k] = winRef{split, i, kind}
	}
	return winRef{}, 0, false
}

// zeroRun returns the longest run of one byte value.
func longestRun(s []byte) (int, byte) {
	best, bv := 0, byte(0)
	for i := 0; i < len(s); {
		j := i
		for j < len(s) && s[j] == s[i] {
			j++
		}
		if j-i > best {
			best, bv = j-i, s[i]
		}
		i = j
	}
	return best, bv
}
