package mon

import (
	"fmt"
	"math"

	"a.verif/vmon/ref"
)

// relTally watches how the coefficients of one split relate to one another, to
// the points and to the secret: counts of coincidences, which are binomial when
// all is uniform and independent.
type relTally struct {
	ta   tally
	hits map[string]*[3]float64 // observed, expected, variance
}

func newRelTally() *relTally { return &relTally{tally{}, map[string]*[3]float64{}} }

func (r *relTally) count(name string, obs, trials, p float64) {
	h := r.hits[name]
	if h == nil {
		h = new([3]float64)
		r.hits[name] = h
	}
	h[0] += obs
	h[1] += trials * p
	h[2] += trials * p * (1 - p)
}

// setHits counts the members of v that are in set.
func (r *relTally) setHits(name string, v []byte, set *[256]bool) {
	n, m := 0, 0
	for _, in := range set {
		if in {
			m++
		}
	}
	for _, x := range v {
		if set[x] {
			n++
		}
	}
	r.count(name, float64(n), float64(len(v)), float64(m)/256)
}

// pairs counts the equal pairs in v.
func (r *relTally) pairs(name string, v []byte) {
	var h [256]int
	for _, x := range v {
		h[x]++
	}
	n := 0
	for _, k := range h {
		n += k * (k - 1) / 2
	}
	r.count(name, float64(n), float64(len(v)*(len(v)-1)/2), 1.0/256)
}

func (r *relTally) add(p ref.Poly, k int, xs, secret []byte) {
	if len(xs) == 0 {
		return
	}
	var pts, raw, sec [256]bool
	for _, x := range xs {
		pts[x] = true
		raw[x-1] = true
	}
	for _, s := range secret {
		sec[s] = true
	}
	lc := "short"
	if len(p) > 20 {
		lc = "longer"
	}
	var all []byte
	for d := 1; d < k; d++ {
		col := make([]byte, len(p))
		for b := range p {
			col[b] = p[b][d]
		}
		all = append(all, col...)
		var names []string
		if d <= 2 {
			names = append(names, fmt.Sprintf("coefficients %d", d))
		}
		if k-d <= 2 && k > 4 {
			names = append(names, fmt.Sprintf("coefficients k-%d", k-d))
		}
		for _, nm := range names {
			nm += " of " + lc + " secrets"
			r.pairs("equal pairs of "+nm, col)
			r.setHits(nm+" that are points", col, &pts)
			r.setHits(nm+" that are points less one", col, &raw)
			r.setHits(nm+" that are secret bytes", col, &sec)
		}
		for b, v := range col {
			for j := 0; j < 3; j++ {
				a, z := xs[min(j, len(xs)-1)], xs[max(len(xs)-1-j, 0)]
				r.ta.add(fmt.Sprintf("coefficient XOR point %d", j), v^a)
				r.ta.add(fmt.Sprintf("coefficient - point %d", j), v-a)
				r.ta.add(fmt.Sprintf("coefficient XOR point n-%d", j+1), v^z)
				r.ta.add(fmt.Sprintf("coefficient - point n-%d", j+1), v-z)
			}
			x := xs[b%len(xs)]
			r.ta.add("coefficient of byte i XOR point i", v^x)
			r.ta.add("coefficient of byte i - point i", v-x)
			r.ta.add("coefficient XOR secret byte", v^secret[b])
			r.ta.add("coefficient - secret byte", v-secret[b])
			if b > 0 {
				r.ta.add("coefficient XOR the previous byte's", v^col[b-1])
				r.ta.add("coefficient - the previous byte's", v-col[b-1])
			}
			if d > 1 {
				r.ta.add("coefficient XOR the next lower one", v^p[b][d-1])
			}
		}
	}
	r.pairs("equal pairs of coefficients of "+lc+" secrets", all)
	r.setHits("coefficients of "+lc+" secrets that are points", all, &pts)
}

func (r *relTally) judge(c *C, what string) {
	for name, h := range r.hits {
		c.Eval(1)
		if h[2] < 100 {
			continue
		}
		if z := (h[0] - h[1]) / math.Sqrt(h[2]); math.Abs(z) > 10 {
			c.Violate("dependent", "%s: %.0f %s, expected %.0f (%.1f standard deviations off)", what, h[0], name, h[1], z)
			return
		}
	}
	r.ta.judge(c, what, nil)
}

var wideN = [][2]int{{2, 19}, {20, 63}, {64, 127}, {128, 200}, {201, 255}}

// wideShape: many parts, and thresholds from the lowest on.
func wideShape(c *C, nc, kc int) (n, k int) {
	n = c.Range(wideN[nc][0], wideN[nc][1])
	switch kc {
	case 0:
		return n, 2
	case 1:
		return n, min(n, c.Range(3, 4))
	}
	return n, c.Range(2, min(n, 40))
}

// c03wide: many shares under low thresholds; coefficients against points.
func c03wide(c *C, i int) {
	sps := shamirSplitters()
	sp := sps[i%len(sps)]
	nc, kc := i/len(sps)%5, i/len(sps)/5%3
	r := newRelTally()
	for rep := 0; rep < 700; rep++ {
		n, k := wideShape(c, nc, kc)
		l := c.Range(1, 20)
		if rep%2 == 1 {
			l = c.Range(1, 300)
		}
		if k > 4 {
			l = min(l, 40)
		}
		secret := mkSecret(c, secretFamilies[rep%len(secretFamilies)], l)
		sh := checkSplit(c, sp, secret, n, k)
		if sh == nil {
			return
		}
		p := recoverPoly(c, sp, sh, secret, n, k)
		if p == nil {
			return
		}
		c.Distinct(sp.Name, "wide", n, k, l)
		var xs []byte
		for _, s := range sh {
			xs = append(xs, s[l])
		}
		r.add(p, k, xs, secret)
	}
	r.judge(c, fmt.Sprintf("%s, n=%d..%d, k class %d", sp.Name, wideN[nc][0], wideN[nc][1], kc))
}
