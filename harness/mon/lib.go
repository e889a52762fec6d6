package mon

import (
	"bytes"
	"fmt"
	"math"
	"unsafe"

	"github.com/fadhilkurnia/shamir/csprng"
	"github.com/fadhilkurnia/shamir/shamir"
)

// Splitter is one way of making shares, as offered by the library's API.
type Splitter struct {
	Name string
	SSMS bool
	// Split splits; the state behind it (sources, workers) belongs to the case.
	Split func(secret []byte, n, k int) ([][]byte, error)
}

// Combiner is one way of combining.
type Combiner struct {
	Name    string
	SSMS    bool
	Combine func(shares [][]byte, n, k int) ([]byte, error)
}

// shamirSplitters returns all Shamir split entry points over fresh state.
func shamirSplitters() []Splitter {
	return shamirSplittersOn(csprng.NewCSPRNG(), csprng.NewCSPRNG())
}

func shamirSplittersOn(r1, r2 *csprng.CSPRNG) []Splitter {
	l := []Splitter{
		{"shamir.Split", false, shamir.Split},
		{"shamir.SplitWithRandomizer", false, func(s []byte, n, k int) ([][]byte, error) { return shamir.SplitWithRandomizer(s, n, k, r1) }},
		{"shamir.SplitWithRandomizerOld", false, func(s []byte, n, k int) ([][]byte, error) {
			return shamir.SplitWithRandomizerOld(s, n, k, r2)
		}},
		{"shamir.SplitGeneric", false, shamir.SplitGeneric},
		{"shamir.SplitP", false, shamir.SplitP},
	}
	return append(l, workerShamirSplitters()...)
}

func pick[T any](c *C, l []T) T { return l[c.IntN(len(l))] }

// secretFamilies are the shapes of secret contents used everywhere.
var secretFamilies = []string{"random", "zero", "ff", "same", "ascii", "counter", "sparse", "last", "first"}

// mkSecret makes a secret of the given family.
func mkSecret(c *C, fam string, l int) []byte {
	s := make([]byte, l)
	switch fam {
	case "random":
		c.Fill(s)
	case "zero":
	case "ff":
		for i := range s {
			s[i] = 0xff
		}
	case "same":
		b := byte(c.IntN(256))
		for i := range s {
			s[i] = b
		}
	case "ascii":
		c.Fill(s)
		for i := range s {
			s[i] = 'a' + s[i]%26
		}
	case "counter":
		for i := range s {
			s[i] = byte(i)
		}
	case "sparse":
		for i := 0; i < l; i += 1 + c.IntN(40) {
			s[i] = byte(c.IntN(256))
		}
	case "last":
		s[l-1] = 1 + byte(c.IntN(255))
	case "first":
		s[0] = 1 + byte(c.IntN(255))
	default:
		panic("family " + fam)
	}
	return s
}

func anySecret(c *C, l int) []byte {
	if c.IntN(2) == 0 {
		return mkSecret(c, "random", l)
	}
	return mkSecret(c, pick(c, secretFamilies), l)
}

func clone(s [][]byte) [][]byte {
	o := make([][]byte, len(s))
	for i := range s {
		o[i] = append([]byte(nil), s[i]...)
	}
	return o
}

// subset picks k of the shares in random order.
func subset(c *C, shares [][]byte, k int) [][]byte {
	p := c.R.Perm(len(shares))
	if c.IntN(8) == 0 && k > 0 {
		// in the order in which they are, or against it, from anywhere
		from, back := c.IntN(len(shares)), c.IntN(3) == 0
		if c.IntN(2) == 0 {
			from = 0
		}
		for i := range p {
			p[i] = (from + i) % len(p)
			if back {
				p[i] = (from + len(p) - 1 - i) % len(p)
			}
		}
	}
	o := make([][]byte, k)
	for i := range o {
		o[i] = shares[p[i]]
	}
	return o
}

func hexes(s [][]byte) []string {
	var o []string
	for i, b := range s {
		if i == 8 {
			o = append(o, fmt.Sprintf("... %d more", len(s)-8))
			break
		}
		o = append(o, Hex(b))
	}
	return o
}

func points(shares [][]byte) []int {
	var p []int
	for _, s := range shares {
		if len(s) > 0 {
			p = append(p, int(s[len(s)-1]))
		}
	}
	return p
}

// checkSplit runs a split that must succeed and checks the shape of the result.
func checkSplit(c *C, sp Splitter, secret []byte, n, k int) [][]byte {
	var sh [][]byte
	var err error
	if !c.Do(fmt.Sprintf("%s(len=%d, n=%d, k=%d)", sp.Name, len(secret), n, k), func() { sh, err = sp.Split(secret, n, k) }) {
		return nil
	}
	if err != nil {
		c.ViolateD(map[string]any{"secret": Hex(secret)}, "split-error", "%s(len=%d, n=%d, k=%d) failed: %v", sp.Name, len(secret), n, k, err)
		return nil
	}
	if len(sh) != n {
		c.ViolateD(map[string]any{"secret": Hex(secret)}, "share-count", "%s(len=%d, n=%d, k=%d) returned %d shares", sp.Name, len(secret), n, k, len(sh))
		return nil
	}
	return sh
}

func shamirCombiners() []Combiner {
	l := []Combiner{{"shamir.Combine", false, func(s [][]byte, n, k int) ([]byte, error) { return shamir.Combine(s) }}}
	return append(l, workerShamirCombiners()...)
}

// checkCombine combines and compares with the secret.
func checkCombine(c *C, cb Combiner, shares [][]byte, n, k int, secret []byte, what string) bool {
	var got []byte
	var err error
	if !c.Do(fmt.Sprintf("%s(%d shares, n=%d, k=%d, len=%d) of %s", cb.Name, len(shares), n, k, len(secret), what), func() { got, err = cb.Combine(shares, n, k) }) {
		return false
	}
	c.Eval(1)
	if err != nil || !bytes.Equal(got, secret) {
		msg := "returned other bytes"
		if err != nil {
			msg = "failed: " + err.Error()
		}
		c.ViolateD(map[string]any{"secret": Hex(secret), "got": Hex(got), "shares": hexes(shares), "points": points(shares)},
			"combine", "%s of %d shares of %s (n=%d, k=%d, secret length %d) %s", cb.Name, len(shares), what, n, k, len(secret), msg)
		return false
	}
	return true
}

// addrRange is the memory a slice can reach.
type addrRange struct {
	lo, hi uintptr
	what   string
}

func rangeOf(b []byte, what string) (addrRange, bool) {
	if cap(b) == 0 {
		return addrRange{}, false
	}
	p := uintptr(unsafe.Pointer(unsafe.SliceData(b)))
	return addrRange{p, p + uintptr(cap(b)), what}, true
}

// firstDiff is the first index at which a and b differ, or -1.
func firstDiff(a, b [][]byte) int {
	for i := range a {
		if !bytes.Equal(a[i], b[i]) {
			return i
		}
	}
	return -1
}

// --- statistics -------------------------------------------------------------

// chi2z turns a chi-square statistic into a normal deviate (Wilson-Hilferty).
func chi2z(x float64, df int) float64 {
	d := float64(df)
	return (math.Cbrt(x/d) - (1 - 2/(9*d))) / math.Sqrt(2/(9*d))
}

func chi2uniform(cnt []int) (z float64) {
	n := 0
	for _, v := range cnt {
		n += v
	}
	e := float64(n) / float64(len(cnt))
	x := 0.0
	for _, v := range cnt {
		d := float64(v) - e
		x += d * d / e
	}
	return chi2z(x, len(cnt)-1)
}

// chi2indep tests independence in an r x c table with fixed uniform marginals.
func chi2table(cnt []int, exp []float64) (z float64) {
	x := 0.0
	df := -1
	for i, v := range cnt {
		if exp[i] == 0 {
			continue
		}
		d := float64(v) - exp[i]
		x += d * d / exp[i]
		df++
	}
	return chi2z(x, df)
}

// cellZ is the signed deviate of one cell, exact in the far tails by the
// Poisson/Chernoff bound: it returns -log10 of an upper bound of the tail.
func cellTail(obs int, exp float64) float64 {
	o := float64(obs)
	if o == exp {
		return 0
	}
	var kl float64
	if obs == 0 {
		kl = exp
	} else {
		kl = o*math.Log(o/exp) - o + exp
	}
	return kl / math.Ln10
}

// columnDeps returns the GF(2) dependencies among the columns of rows (nr x bits):
// the null space dimension and one dependency as a list of columns.
func columnDeps(rows [][]uint64, bits int) (int, []int) {
	// eliminate on rows, find pivot columns; the free columns give dependencies
	w := (bits + 63) / 64
	m := make([][]uint64, len(rows))
	for i := range rows {
		m[i] = append([]uint64(nil), rows[i][:w]...)
	}
	pivRow := make([]int, bits)
	for i := range pivRow {
		pivRow[i] = -1
	}
	r := 0
	for col := 0; col < bits && r < len(m); col++ {
		wi, bi := col/64, uint(col%64)
		p := -1
		for i := r; i < len(m); i++ {
			if m[i][wi]>>bi&1 == 1 {
				p = i
				break
			}
		}
		if p < 0 {
			continue
		}
		m[r], m[p] = m[p], m[r]
		for i := range m {
			if i != r && m[i][wi]>>bi&1 == 1 {
				for x := wi; x < w; x++ {
					m[i][x] ^= m[r][x]
				}
			}
		}
		pivRow[col] = r
		r++
	}
	free := 0
	var dep []int
	for col := 0; col < bits; col++ {
		if pivRow[col] >= 0 {
			continue
		}
		free++
		if dep == nil {
			// column col equals the XOR of the pivot columns whose row has a 1 here
			dep = []int{col}
			for pc := 0; pc < bits; pc++ {
				if pr := pivRow[pc]; pr >= 0 && m[pr][col/64]>>(uint(col)%64)&1 == 1 {
					dep = append(dep, pc)
				}
			}
		}
	}
	return free, dep
}

// pointList makes n points: chosen at random, or following a simple rule.
func pointList(c *C, n int) []byte {
	xs := make([]byte, n)
	switch c.IntN(6) {
	case 0: // 1, 2, 3, ...
		for j := range xs {
			xs[j] = byte(j + 1)
		}
	case 1: // down
		for j := range xs {
			xs[j] = byte(n - j)
		}
	case 2: // a stretch, around the end
		from, step := c.IntN(255), []int{1, 254, 2, 4, 7, 8, 11, 16, 32, 64, 128, 253}[c.IntN(12)]
		for j := range xs {
			xs[j] = byte((from+j*step)%255 + 1)
		}
	default:
		for j, v := range c.R.Perm(255)[:n] {
			xs[j] = byte(v + 1)
		}
	}
	return xs
}
