package mon

import (
	"fmt"
	"math/bits"
	"strings"

	"a.verif/vmon/ref"
)

// affineSpan collects bit vectors and finds the affine relations over GF(2)
// that all of them satisfy. Vectors of independent uniform bytes satisfy none:
// with 90 vectors more than bits, the chance of one is 2^-89.
type affineSpan struct {
	dim   int // in bits
	first []uint64
	pivot [][]uint64 // by leading bit
	seen  int
	rank  int
}

const rankSpare = 90

func newAffineSpan(bytes int) *affineSpan {
	return &affineSpan{dim: bytes * 8, pivot: make([][]uint64, bytes*8)}
}

// need is how many vectors are wanted.
func (a *affineSpan) need() int { return a.dim + rankSpare }

func (a *affineSpan) add(v []byte) {
	w := make([]uint64, (a.dim+63)/64)
	for i, b := range v {
		w[i/8] |= uint64(b) << (i % 8 * 8)
	}
	a.seen++
	if a.first == nil {
		a.first = w
		return
	}
	for i := range w {
		w[i] ^= a.first[i]
	}
	for i := range w {
		for w[i] != 0 {
			p := i*64 + bits.TrailingZeros64(w[i])
			r := a.pivot[p]
			if r == nil {
				a.pivot[p] = w
				a.rank++
				return
			}
			for j := i; j < len(w); j++ {
				w[j] ^= r[j]
			}
		}
	}
}

// relation returns the bits of one relation, if there is any.
func (a *affineSpan) relation() []int {
	free := -1
	for p := a.dim - 1; p >= 0; p-- {
		if a.pivot[p] == nil {
			free = p
			break
		}
	}
	if free < 0 {
		return nil
	}
	// the functional f with f(free) = 1, f(other free) = 0, f(every row) = 0,
	// determined from the highest pivot down
	f := make([]uint64, (a.dim+63)/64)
	f[free/64] |= 1 << (free % 64)
	for p := a.dim - 1; p >= 0; p-- {
		r := a.pivot[p]
		if r == nil {
			continue
		}
		par := 0
		for j := range r {
			par ^= bits.OnesCount64(r[j]&f[j]) & 1
		}
		if par == 1 {
			f[p/64] |= 1 << (p % 64)
		}
	}
	var out []int
	for p := 0; p < a.dim; p++ {
		if f[p/64]>>(p%64)&1 == 1 {
			out = append(out, p)
		}
	}
	return out
}

// pointSpan watches vectors that contain share points. Relations among points
// alone (as there are when points are not chosen at random) do not count.
type pointSpan struct {
	all, rest, points *affineSpan
	isPoint           func(byteIdx int) bool
	idx               []int // of the bytes that are no points
}

func newPointSpan(bytes int, isPoint func(byteIdx int) bool) *pointSpan {
	s := &pointSpan{all: newAffineSpan(bytes), isPoint: isPoint}
	for i := 0; i < bytes; i++ {
		if !isPoint(i) {
			s.idx = append(s.idx, i)
		}
	}
	s.rest, s.points = newAffineSpan(len(s.idx)), newAffineSpan(bytes-len(s.idx))
	return s
}

func (s *pointSpan) add(v []byte) {
	s.all.add(v)
	var r, p []byte
	for i, b := range v {
		if s.isPoint(i) {
			p = append(p, b)
		} else {
			r = append(r, b)
		}
	}
	s.rest.add(r)
	s.points.add(p)
}

func (s *pointSpan) judge(c *C, what string, name func(byteIdx int) string) bool {
	if s.points.relation() == nil {
		return s.all.judge(c, what, name)
	}
	return s.rest.judge(c, what, func(i int) string { return name(s.idx[i]) })
}

func (a *affineSpan) judge(c *C, what string, name func(byteIdx int) string) bool {
	c.Eval(int64(a.seen))
	c.Obs("vectors searched for linear relations", int64(a.seen))
	if a.seen < a.need() {
		Inconclusive("only %d vectors of %d bits", a.seen, a.dim)
	}
	rel := a.relation()
	if rel == nil {
		return true
	}
	var terms []string
	for _, p := range rel {
		if len(terms) == 8 {
			terms = append(terms, fmt.Sprintf("... (%d terms)", len(rel)))
			break
		}
		terms = append(terms, fmt.Sprintf("bit %d of %s", p%8, name(p/8)))
	}
	c.Violate("dependent", "%s: in all of %d observations the sum of %s is the same (rank %d of %d)", what, a.seen, strings.Join(terms, ", "), a.rank, a.dim)
	return false
}

// c03rank looks for linear relations among the coefficients of one byte, of
// two bytes of a split and of two splits, and with secret and points.
func c03rank(c *C, i int) {
	sps := shamirSplitters()
	sp := sps[i%len(sps)]
	kind := i / len(sps) % 5
	ks := []int{2, 66, 3, 5, 9, 17, 4, 33, 8, 100, 40, 24, 7, 130, 60, 12, 255, 180}
	k := ks[(i/len(sps)/5*3+kind*4+i)%len(ks)]
	if i >= 5*len(sps)*3 {
		k = c.Range(2, 60)
		if i%4 == 0 {
			k = c.Range(2, 255)
		}
	}
	switch kind {
	case 0, 1, 2: // two bytes of one split
		g := 2
		if kind == 2 && k < 60 {
			g = c.Range(3, 4)
		}
		a := newAffineSpan(g * k)
		d := 1
		if kind == 1 {
			d = pick(c, []int{1, 2, 3, 4, 8, 16, 32, 64, 128, 255, 256, 512, 1023, 1024, 1025, 2048})
		}
		step := 1
		off := 0
		if kind == 1 && k < 40 { // relations within blocks
			step = pick(c, []int{1, 1, 2, 3, 4, 8, 16, 32, 64, 128})
			off = c.IntN(step)
			if d > step && step > 1 && c.IntN(2) == 0 {
				d = c.Range(1, step)
			}
		}
		if kind != 1 {
			step = g
		}
		l := step*a.need() + off + (g-1)*d
		n := min(255, k+i%2)
		secret := c.Bytes(l)
		sh := checkSplit(c, sp, secret, n, k)
		if sh == nil {
			return
		}
		p := recoverPoly(c, sp, sh, secret, n, k)
		if p == nil {
			return
		}
		v := make([]byte, 0, g*k)
		for b, t := off, 0; t < a.need(); t++ {
			v = v[:0]
			for j := 0; j < g; j++ {
				v = append(v, p[b+j*d]...)
			}
			a.add(v)
			b += step
		}
		what := fmt.Sprintf("%s(len=%d, n=%d, k=%d), %d bytes %d apart, from %d in steps of %d", sp.Name, l, n, k, g, d, off, step)
		c.Distinct(what)
		a.judge(c, what, func(x int) string { return coefName(x%k, fmt.Sprintf("byte i+%d", x/k*d)) })
	case 3: // two splits
		a := newAffineSpan(2 * k)
		l := a.need()
		n := min(255, k+i%2)
		secret := c.Bytes(l)
		fresh := (i/len(sps)/5+i)%3 == 0
		var ps [2]ref.Poly
		for t := range ps {
			if fresh {
				secret = c.Bytes(l)
			}
			sh := checkSplit(c, sp, secret, n, k)
			if sh == nil {
				return
			}
			if ps[t] = recoverPoly(c, sp, sh, secret, n, k); ps[t] == nil {
				return
			}
		}
		for b := 0; b < l; b++ {
			// equal secret bytes are no relation of interest
			v := append(append([]byte{}, ps[0][b]...), ps[1][b]...)
			if !fresh {
				v[k] = byte(c.IntN(256))
			}
			a.add(v)
		}
		what := fmt.Sprintf("two calls of %s(len=%d, n=%d, k=%d)", sp.Name, l, n, k)
		c.Distinct(what)
		a.judge(c, what, func(x int) string { return coefName(x%k, fmt.Sprintf("byte i, split %d", x/k)) })
	case 4: // whole splits of short secrets, with the points
		l := c.Range(1, 20)
		k = c.Range(2, 5)
		if l < 4 {
			k = c.Range(2, 24)
		}
		n := c.Range(k, k+12)
		splits := 1 + c.IntN(2)
		per := l*k + n
		a := newPointSpan(splits*per, func(x int) bool { return x%per >= l*k })
		var v []byte
		for t := 0; t < a.all.need(); t++ {
			v = v[:0]
			for s := 0; s < splits; s++ {
				secret := c.Bytes(l)
				sh := checkSplit(c, sp, secret, n, k)
				if sh == nil {
					return
				}
				p := recoverPoly(c, sp, sh, secret, n, k)
				if p == nil {
					return
				}
				for b := range p {
					v = append(v, p[b]...)
				}
				for _, s := range sh {
					v = append(v, s[l])
				}
			}
			a.add(v)
		}
		what := fmt.Sprintf("%d calls of %s(len=%d, n=%d, k=%d)", splits, sp.Name, l, n, k)
		c.Distinct(what)
		a.judge(c, what, func(x int) string {
			s, x := x/per, x%per
			if x >= l*k {
				return fmt.Sprintf("point %d, split %d", x-l*k, s)
			}
			return coefName(x%k, fmt.Sprintf("byte %d, split %d", x/k, s))
		})
	}
}

func coefName(d int, where string) string {
	if d == 0 {
		return "the secret, " + where
	}
	return fmt.Sprintf("coefficient %d of %s", d, where)
}

// c03whole looks for linear relations among all coefficients of a split, with
// its secret and points: exactly for short secrets; for long ones among sums
// over stretches and residue classes, and single ones at both ends.
func c03whole(c *C, i int) {
	sps := shamirSplitters()
	sp := sps[i%len(sps)]
	v := i / len(sps)
	var l, k int
	fold := v%2 == 1
	if fold {
		l = []int{4096, 1025, 16384, 2048, 5000, 33000, 8192, 65536}[v/2%8] + c.IntN(3)*c.IntN(200)
		k = 2 + v/2%2
		if l > 20000 {
			k = 2
		}
	} else {
		total := []int{130, 260, 400, 520, 64}[v/2%5]
		if c.Thorough && i%4 == 0 {
			total *= 3
		}
		k = []int{2, 3, 2, 6, 14}[(v/2/5+v/2)%5]
		l = total / (k - 1)
		total = l * (k - 1)
	}
	n := min(255, k+c.IntN(3))
	const mod, parts, ends = 16, 16, 8
	per := mod + parts + 2*ends
	width := k * l
	name := func(x int) string { return coefName(x%k, fmt.Sprintf("byte %d", x/k)) }
	if fold {
		width = k * per
		name = func(x int) string {
			d := x % k
			switch x /= k; {
			case x < mod:
				return coefName(d, fmt.Sprintf("all bytes %d mod %d, added", x, mod))
			case x < mod+parts-1:
				return coefName(d, fmt.Sprintf("the %d. sixteenth, added", x-mod+1))
			case x == mod+parts-1:
				return coefName(d, "all bytes but the last, added")
			case x < mod+parts+ends:
				return coefName(d, fmt.Sprintf("byte %d", x-mod-parts))
			}
			return coefName(d, fmt.Sprintf("byte len-%d", x-mod-parts-ends+2))
		}
	}
	width += n
	a := newPointSpan(width, func(x int) bool { return x >= width-n })
	vec := make([]byte, width)
	for t := 0; t < a.all.need(); t++ {
		secret := c.Bytes(l)
		clear(vec)
		sh := checkSplit(c, sp, secret, n, k)
		if sh == nil {
			return
		}
		cols, err := ref.RecoverCols(sh, k)
		if err == nil && mismatch(cols[0], secret) < l {
			err = fmt.Errorf("other constant terms")
		}
		if err != nil {
			c.Violate("not-a-sharing", "%s(len=%d, n=%d, k=%d): %v", sp.Name, l, n, k, err)
			return
		}
		c.Obs("splits", 1)
		c.Obs("coefficients", int64(l*(k-1)))
		for d := 0; d < k; d++ {
			col := cols[d]
			if !fold {
				for j, b := range col {
					vec[j*k+d] = b
				}
				continue
			}
			// 16 residues, of which the last follows from the sixteenths, so
			// that one sixteenth is left out
			var res [mod]byte
			var part [parts]byte
			sum := byte(0)
			for j, b := range col {
				res[j%mod] ^= b
				sum ^= b
			}
			for p := 0; p < parts; p++ {
				for _, b := range col[p*l/parts : (p+1)*l/parts] {
					part[p] ^= b
				}
			}
			part[parts-1] = sum ^ col[l-1]
			for p, b := range res {
				vec[p*k+d] = b
			}
			for p, b := range part {
				vec[(mod+p)*k+d] = b
			}
			for p := 0; p < ends; p++ {
				vec[(mod+parts+p)*k+d] = col[p]
				vec[(mod+parts+ends+p)*k+d] = col[l-2-p]
			}
		}
		for x, s := range sh {
			vec[width-n+x] = s[l]
		}
		a.add(vec)
	}
	what := fmt.Sprintf("whole splits by %s(len=%d, n=%d, k=%d)", sp.Name, l, n, k)
	if fold {
		what += ", sums"
	}
	c.Distinct(what)
	a.judge(c, what, func(x int) string {
		if x >= width-n {
			return fmt.Sprintf("point %d", x-width+n)
		}
		return name(x)
	})
}
