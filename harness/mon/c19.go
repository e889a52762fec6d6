//go:build !386

package mon

import (
	"bytes"
	"fmt"
	"strings"

	"a.verif/vmon/ref"
	"github.com/fadhilkurnia/shamir/krawczyk"
	"github.com/fadhilkurnia/shamir/shamir"
)

func init() {
	register(&Monitor{
		ID:      "C19",
		Rule:    "a case is a history of mixed requests (valid, invalid, unknown algorithms) on a few long-lived workers; every answer is compared with the model of the algorithm asked for and with the package called directly; distinct by the requests",
		Configs: []string{"native", "noasm", "warped"},
		Warp:    []string{"history"},
		Need:    map[string]int64{"requests": 60000, "unknown algorithms": 10000, "cross combinations": 20000, "compared with the package": 10000},
		Stages: []Stage{
			{Name: "history", N: fixed(160, 3000), Run: c19history},
			{Name: "names", N: fixed(40, 400), Run: c19names},
			{Name: "grid", N: fixed(254, 254*4), Run: c19grid},
			{Name: "foreign", N: fixed(200, 3000), Run: c19foreign},
			{Name: "malformed", N: fixed(120, 2000), Run: c19malformed},
		},
	})
}

var oddNames = []string{"", "Shamir", "SHAMIR", "shamir ", " shamir", "shamir\x00", "shami", "shamirs", "sha", "s", "sss", "ssms", "SSMS", "Krawczyk", "KRAWCZYK", "krawczy", "krawczyk ", "krawczyk\n", "krawczykk", "k",
	"aes", "none", "default", "0", "1", "null", "shamir,krawczyk", "shamirkrawczyk", "krawczyk/shamir", "AlgShamir", "AlgSSMS", "ſhamir", "ｓｈａｍｉｒ", "shаmir", "\xff\xfe", "rsa", "blakley", "reed-solomon", "shamir_old", "shamir-generic", "shamirp", "worker"}

func oddName(c *C) string {
	switch c.IntN(5) {
	case 0:
		b := []byte(algShamir)
		b[c.IntN(len(b))] ^= 1 << c.IntN(8)
		return string(b)
	case 1:
		b := []byte(algSSMS)
		b[c.IntN(len(b))] ^= 1 << c.IntN(8)
		return string(b)
	case 2:
		n := algShamir
		if c.IntN(2) == 0 {
			n = algSSMS
		}
		x := c.IntN(len(n) + 1)
		if c.IntN(2) == 0 {
			return n[:x]
		}
		return n[:x] + string(rune('a'+c.IntN(26))) + n[x:]
	case 3:
		if c.IntN(10) == 0 {
			return strings.Repeat("x", 100000)
		}
	}
	return oddNames[c.IntN(len(oddNames))]
}

type c19set struct {
	alg    string
	secret []byte
	sh     [][]byte
	n, k   int
	by     string
}

// c19isShares: the shares are what the algorithm asked for makes.
func c19isShares(c *C, s c19set) bool {
	var err error
	if s.alg == algShamir {
		var p ref.Poly
		if p, err = ref.Recover(s.sh, s.k); err == nil && !bytes.Equal(p.Secret(), s.secret) {
			err = fmt.Errorf("they share other bytes")
		}
	} else {
		var o *ref.SSMS
		if o, err = ref.OpenSSMS(s.sh, s.n, s.k); err == nil && !bytes.Equal(o.Secret, s.secret) {
			err = fmt.Errorf("they hold other bytes")
		}
	}
	if err == nil && len(s.sh) != s.n {
		err = fmt.Errorf("%d shares", len(s.sh))
	}
	c.Eval(1)
	if err != nil {
		c.ViolateD(map[string]any{"secret": Hex(s.secret), "shares": hexes(s.sh)}, "unfaithful", "%s for algorithm %q (len=%d, n=%d, k=%d) did not give a sharing by that algorithm: %v", s.by, s.alg, len(s.secret), s.n, s.k, err)
		return false
	}
	return true
}

func c19combine(c *C, s c19set, how int, ws []workerPair, w int) bool {
	sub := subset(c, s.sh, c.Range(s.k, s.n))
	var got []byte
	var err error
	name := fmt.Sprintf("worker %d Combine(%q)", w, s.alg)
	n, k := s.n, s.k
	if how == 0 {
		name = "package Combine"
		if s.alg == algShamir {
			c.Do(name, func() { got, err = shamir.Combine(sub) })
		} else {
			c.Do(name, func() { got, err = krawczyk.Combine(sub, n, k) })
		}
	} else {
		if s.alg == algShamir && c.IntN(8) == 0 {
			// the Shamir package does not ask for them
			n, k = c.Range(-1, 300), c.Range(-1, 300)
		}
		c.Do(name, func() { got, err = ws[w].Combine(s.alg, sub, n, k) })
	}
	c.Eval(1)
	c.Obs("requests", 1)
	c.Obs("cross combinations", 1)
	if err != nil || !bytes.Equal(got, s.secret) {
		c.ViolateD(map[string]any{"secret": Hex(s.secret), "got": Hex(got), "shares": hexes(sub)}, "combine", "%s of %d shares made by %s for %q (n=%d, k=%d; passed %d, %d): %d bytes, %v", name, len(sub), s.by, s.alg, s.n, s.k, n, k, len(got), err)
		return false
	}
	return true
}

func c19make(c *C, ws []workerPair) (s c19set, ok bool) {
	s.alg = []string{algShamir, algSSMS}[c.IntN(2)]
	s.n = c.Range(2, 9)
	if c.IntN(15) == 0 {
		s.n = c.Range(10, 255)
	}
	s.k = c.Range(2, min(s.n, 12))
	l := c.Range(1, 60)
	if c.IntN(8) == 0 {
		l = c.Range(60, 3000)
	}
	s.secret = anySecret(c, l)
	var err error
	if c.IntN(4) == 0 {
		s.by = "the package"
		c.Do("package Split", func() {
			if s.alg == algShamir {
				s.sh, err = shamir.Split(s.secret, s.n, s.k)
			} else {
				s.sh, err = krawczyk.Split(s.secret, s.n, s.k)
			}
		})
	} else {
		w := c.IntN(len(ws))
		s.by = fmt.Sprintf("worker %d", w)
		c.Do(s.by+" Split", func() { s.sh, err = ws[w].Split(s.alg, s.secret, s.n, s.k) })
	}
	c.Obs("requests", 1)
	if err != nil {
		c.Violate("split-error", "%s Split(%q, len=%d, n=%d, k=%d): %v", s.by, s.alg, len(s.secret), s.n, s.k, err)
		return s, false
	}
	return s, c19isShares(c, s)
}

func c19refuse(c *C, ws []workerPair, name string, s *c19set) bool {
	if name == algShamir || name == algSSMS {
		return true
	}
	w := c.IntN(len(ws))
	var sh [][]byte
	var got []byte
	var e1, e2 error
	secret, n, k := []byte("a secret"), 3, 2
	in := [][]byte{{1, 2, 3}, {4, 5, 6}}
	if s != nil {
		secret, n, k, in = s.secret, s.n, s.k, s.sh
	}
	if !c.Do(fmt.Sprintf("Split with algorithm %.40q", name), func() { sh, e1 = ws[w].Split(name, secret, n, k) }) ||
		!c.Do(fmt.Sprintf("Combine with algorithm %.40q", name), func() { got, e2 = ws[w].Combine(name, in, n, k) }) {
		return false
	}
	c.Eval(2)
	c.Obs("requests", 2)
	c.Obs("unknown algorithms", 2)
	if e1 == nil || len(sh) > 0 {
		c.Violate("unknown-accepted", "Split with the unknown algorithm %.60q returned %d shares, error %v", name, len(sh), e1)
		return false
	}
	if e2 == nil || len(got) > 0 {
		c.Violate("unknown-accepted", "Combine with the unknown algorithm %.60q returned %d bytes, error %v", name, len(got), e2)
		return false
	}
	return true
}

func c19history(c *C, i int) {
	var ws []workerPair
	for j := 0; j < 3; j++ {
		ws = append(ws, newWorker())
	}
	var sets []c19set
	for t := 0; t < 150; t++ {
		switch x := c.IntN(10); {
		case x < 4 || len(sets) == 0:
			s, ok := c19make(c, ws)
			if !ok {
				return
			}
			sets = append(sets, s)
			if len(sets) > 12 {
				sets = sets[1:]
			}
			c.Distinct(s.alg, s.n, s.k, s.secret)
		case x < 8:
			if !c19combine(c, pick(c, sets), c.IntN(4), ws, c.IntN(len(ws))) {
				return
			}
		case x < 9:
			s := pick(c, sets)
			if !c19refuse(c, ws, oddName(c), &s) {
				return
			}
		default:
			// an invalid request: refused, and it leaves no trace
			s := pick(c, sets)
			w := pick(c, ws)
			c.Obs("requests", 1)
			var e error
			var sh [][]byte
			var got []byte
			n, k := c.Range(-3, 300), c.Range(-3, 300)
			if 2 <= k && k <= n && n <= 255 {
				k = n + 1
			}
			if c.IntN(2) == 0 {
				c.Do("invalid Split", func() { sh, e = w.Split(s.alg, s.secret, n, k) })
			} else {
				c.Do("invalid Combine", func() { got, e = w.Combine(s.alg, s.sh[:1], s.n, s.k) })
			}
			c.Eval(1)
			if e == nil || len(sh) > 0 || len(got) > 0 {
				c.Violate("invalid-accepted", "an invalid request (%q, n=%d, k=%d) was accepted by a worker", s.alg, n, k)
				return
			}
		}
	}
	if i < 2 {
		c.Sample(map[string]any{"workers": 3, "requests": 150, "kinds": "split, combine, unknown algorithm, invalid"})
	}
}

func c19names(c *C, i int) {
	ws := []workerPair{newWorker(), newWorker()}
	s, ok := c19make(c, ws)
	if !ok {
		return
	}
	for _, n := range oddNames {
		if !c19refuse(c, ws, n, &s) || !c19refuse(c, ws, n, nil) {
			return
		}
		c.Distinct("name", n)
	}
	for t := 0; t < 150; t++ {
		n := oddName(c)
		if !c19refuse(c, ws, n, &s) {
			return
		}
		c.Distinct("name", n)
	}
	// the worker still serves
	if s, ok = c19make(c, ws); ok {
		c19combine(c, s, 1, ws, 0)
	}
}

// c19grid: every n, at workers and packages alike.
func c19grid(c *C, i int) {
	n := i%254 + 2
	ws := []workerPair{newWorker(), newWorker()}
	for _, alg := range []string{algShamir, algSSMS} {
		for _, k := range []int{2, c.Range(2, n), min(n, c.Range(2, 30))} {
			if alg == algSSMS && n > 100 && k > 100 {
				k = 100
			}
			s := c19set{alg: alg, n: n, k: k, secret: anySecret(c, c.Range(1, 40)), by: "worker 0"}
			var err error
			if !c.Do("worker 0 Split", func() { s.sh, err = ws[0].Split(alg, s.secret, n, k) }) {
				return
			}
			c.Obs("requests", 1)
			if err != nil {
				c.Violate("split-error", "worker Split(%q, len=%d, n=%d, k=%d): %v", alg, len(s.secret), n, k, err)
				return
			}
			if !c19isShares(c, s) || !c19combine(c, s, 0, ws, 0) || !c19combine(c, s, 1, ws, 1) {
				return
			}
			c.Distinct(alg, n, k, "grid")
		}
	}
}

// c19malformed: answers to malformed share sets and odd numbers equal those of
// the package.
func c19malformed(c *C, i int) {
	w := newWorker()
	for t := 0; t < 60; t++ {
		ss := c.IntN(2) == 0
		n := c.Range(2, 7)
		k := c.Range(2, n)
		secret := anySecret(c, c.Range(1, 50))
		xs := pointList(c, n)
		var sh [][]byte
		alg := algShamir
		if ss {
			alg = algSSMS
			sh = ref.MakeSSMS(secret, c.Bytes(16), n, k, xs, c.Fill)
		} else {
			sh = ref.RandPoly(secret, k, c.Fill).MakeShares(xs)
		}
		how := "genuine"
		if t%4 > 0 {
			sh, how = mutateSet(c, clone(sh), ss)
		}
		if c.IntN(6) == 0 {
			n, k = c.Range(-2, 300), c.Range(-2, 300)
		}
		if t%7 == 6 {
			// shares of one algorithm handed to the other
			ss = !ss
			alg, how = map[bool]string{true: algSSMS, false: algShamir}[ss], how+", of the other algorithm"
		}
		var a, b []byte
		var ea, eb error
		if !c.Do("worker Combine", func() { a, ea = w.Combine(alg, sh, n, k) }) {
			return
		}
		if !c.Do("package Combine", func() {
			if ss {
				b, eb = krawczyk.Combine(sh, n, k)
			} else {
				b, eb = shamir.Combine(sh)
			}
		}) {
			return
		}
		c.Eval(1)
		c.Obs("requests", 1)
		c.Obs("compared with the package", 1)
		c.Distinct(alg, n, k, how, t, i)
		if (ea == nil) != (eb == nil) || !bytes.Equal(a, b) {
			c.ViolateD(map[string]any{"shares": hexes(sh), "worker": Hex(a), "package": Hex(b)}, "differs", "worker Combine(%q, n=%d, k=%d) of a set (%s): %d bytes, %v; the package: %d bytes, %v", alg, n, k, how, len(a), ea, len(b), eb)
			return
		}
	}
}

// c19foreign: shares that were made elsewhere, at points of all kinds, in any
// order, are combined by the algorithm named, whatever they look like.
func c19foreign(c *C, i int) {
	ws := []workerPair{newWorker(), newWorker()}
	for t := 0; t < 20; t++ {
		s := c19set{alg: []string{algShamir, algSSMS}[(i+t)%2], by: "the model"}
		s.n = c.Range(2, 12)
		if c.IntN(8) == 0 {
			s.n = c.Range(13, 255)
		}
		s.k = c.Range(2, min(s.n, 12))
		l := c.Range(1, 80)
		if c.IntN(5) == 0 {
			l = c.Range(80, 3000)
		}
		s.secret = anySecret(c, l)
		xs := pointList(c, s.n)
		if s.alg == algSSMS {
			s.sh = ref.MakeSSMS(s.secret, c.Bytes(16), s.n, s.k, xs, c.Fill)
		} else {
			p := ref.RandPoly(s.secret, s.k, c.Fill)
			if c.IntN(3) == 0 { // looks like the other algorithm's length field
				for y := 16; y < min(20, l); y++ {
					p[y] = append([]byte{s.secret[y]}, make([]byte, s.k-1)...)
				}
			}
			s.sh = p.MakeShares(xs)
		}
		c.Distinct("foreign", s.alg, s.n, s.k, l, xs)
		// all of them as they are, and others
		for how := 0; how < 3; how++ {
			if how == 0 {
				var got []byte
				var err error
				if !c.Do("worker Combine of all shares", func() { got, err = ws[t%2].Combine(s.alg, s.sh, s.n, s.k) }) {
					return
				}
				c.Eval(1)
				c.Obs("requests", 1)
				if err != nil || !bytes.Equal(got, s.secret) {
					c.ViolateD(map[string]any{"secret": Hex(s.secret), "got": Hex(got), "shares": hexes(s.sh)}, "combine", "worker Combine(%q) of %d shares made by the model at points %v (n=%d, k=%d): %d bytes, %v", s.alg, len(s.sh), xs, s.n, s.k, len(got), err)
					return
				}
				continue
			}
			if !c19combine(c, s, how, ws, t%2) {
				return
			}
		}
	}
}
