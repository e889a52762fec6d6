package mon

import (
	"bytes"
	"fmt"
	"math"
	"time"

	"a.verif/vmon/ref"
	"github.com/fadhilkurnia/shamir/galois"
	"github.com/fadhilkurnia/shamir/shamir"
)

func init() {
	register(&Monitor{
		ID:          "C12",
		Rule:        "a case is one operand pair of one field operation (all 65536 pairs of each, exponents 0..1300 for every base plus large ones) or one pair or set of share points; distinct by operation and operands",
		Configs:     []string{"native", "noasm", "x386", "sse2"},
		Exhaustive:  true,
		Need:        map[string]int64{"operand pairs": 65536 * 6, "exponents": 300000, "point pairs": 255 * 254, "division by zero": 255},
		Assumptions: []string{"exhaustive over operand pairs and point pairs; exponents and larger point sets are sampled", "0 divided by 0 is not judged"},
		Stages: []Stage{
			{Name: "ops", N: fixed(256, 256), Run: c12ops},
			{Name: "exp", N: fixed(256, 256), Run: c12exp, OpCPU: 4 * time.Second},
			{Name: "pairs", N: fixed(255, 255), Run: c12pairs},
			{Name: "sets", N: fixed(400, 6000), Run: c12sets},
		},
	})
}

func c12ops(c *C, i int) {
	a := byte(i)
	for x := 0; x < 256; x++ {
		b := byte(x)
		type r struct {
			op        string
			got, want byte
		}
		var l []r
		ok := c.Do(fmt.Sprintf("galois operations on %d and %d", a, b), func() {
			l = append(l, r{"GalAdd", galois.GalAdd(a, b), a ^ b}, r{"GalSub", galois.GalSub(a, b), a ^ b},
				r{"GalMultiply", galois.GalMultiply(a, b), ref.Mul(a, b)}, r{"GalMultiplyLogExp", galois.GalMultiplyLogExp(a, b), ref.Mul(a, b)})
			if b != 0 {
				l = append(l, r{"GalDivide", galois.GalDivide(a, b), ref.Div(a, b)})
			}
		})
		if !ok {
			return
		}
		for _, o := range l {
			c.Eval(1)
			c.Obs("operand pairs", 1)
			c.Distinct(o.op, i, x)
			if o.got != o.want {
				c.Violate("field", "%s(%d, %d) = %d, in the field it is %d", o.op, a, b, o.got, o.want)
				return
			}
		}
	}
	if a != 0 {
		var v byte
		pan, _ := c.Try("GalDivide by zero", func() { v = galois.GalDivide(a, 0) })
		c.Eval(1)
		c.Obs("division by zero", 1)
		if pan == nil {
			c.Violate("div-by-zero", "GalDivide(%d, 0) returned %d instead of panicking", a, v)
		}
	}
	if i == 0 {
		c.Sample("all pairs of all operations, e.g. GalDivide(1, 2) = 142")
	}
}

func c12exp(c *C, i int) {
	a := byte(i)
	one := func(n int) bool {
		var got byte
		if !c.Do(fmt.Sprintf("GalExp(%d, %d)", a, n), func() { got = galois.GalExp(a, n) }) {
			return false
		}
		c.Eval(1)
		c.Obs("exponents", 1)
		c.Distinct("exp", i, n)
		if want := ref.Pow(a, uint64(n)); got != want {
			c.Violate("field", "GalExp(%d, %d) = %d, in the field it is %d", a, n, got, want)
			return false
		}
		return true
	}
	for n := 0; n <= 1300; n++ {
		if !one(n) {
			return
		}
	}
	for sh := uint(11); sh < 63; sh++ {
		if sh > 30 && math.MaxInt == math.MaxInt32 {
			break
		}
		for d := -3; d <= 3; d++ {
			if !one(1<<sh + d) {
				return
			}
		}
		if !one(255<<(sh-8)) || !one(1<<sh+c.IntN(1<<sh-1)) {
			return
		}
	}
	for d := 0; d < 300; d++ {
		if !one(math.MaxInt-d) || !one(math.MaxInt32-d) {
			return
		}
	}
}

// c12pairs: shares at every ordered pair of points, with every secret value:
// Combine and Regenerate compute in the same field.
func c12pairs(c *C, i int) {
	x0 := byte(i + 1)
	all := make([]byte, 256)
	co := make([]byte, 256)
	for v := range all {
		all[v] = byte(v)
	}
	for y := 1; y < 256; y++ {
		x1 := byte(y)
		if x1 == x0 {
			continue
		}
		c.Fill(co)
		if y%16 == 0 {
			for j := range co {
				co[j] = byte(y)
			}
		}
		p := make(ref.Poly, 256)
		for b := range p {
			p[b] = []byte{all[b], co[b]}
		}
		sh := p.MakeShares([]byte{x0, x1})
		var got []byte
		var err error
		if !c.Do(fmt.Sprintf("shamir.Combine of points %d, %d", x0, x1), func() { got, err = shamir.Combine(sh) }) {
			return
		}
		c.Eval(1)
		c.Obs("point pairs", 1)
		c.Distinct("pair", i, y)
		if err != nil || !bytes.Equal(got, all) {
			c.ViolateD(map[string]any{"shares": hexes(sh), "got": Hex(got)}, "combine-field", "combining shares at the points %d and %d over all 256 secret bytes does not give the secret (error %v)", x0, x1, err)
			return
		}
	}
}

// c12sets: larger sets of points, and regeneration at other points.
func c12sets(c *C, i int) {
	k := 2 + i%254
	if i%3 == 0 {
		k = c.Range(2, 9)
	}
	xs := make([]byte, 0, k)
	for _, v := range c.R.Perm(255)[:k] {
		xs = append(xs, byte(v+1))
	}
	secret := anySecret(c, 3)
	p := ref.RandPoly(secret, k, c.Fill)
	if i%5 == 0 {
		for b := range p {
			for d := 1; d < k; d++ {
				p[b][d] = 0
			}
		}
	}
	sh := p.MakeShares(xs)
	checkCombine(c, Combiner{"shamir.Combine", false, func(s [][]byte, n, k int) ([]byte, error) { return shamir.Combine(s) }}, sh, k, k, secret, "model shares")
	if k == 255 {
		return
	}
	cnt := min(5, 255-k)
	var nw [][]byte
	var err error
	if !c.Do(fmt.Sprintf("shamir.Regenerate(%d shares, %d)", k, cnt), func() { nw, err = shamir.Regenerate(sh, cnt) }) {
		return
	}
	if err != nil {
		c.Violate("regenerate", "Regenerate(%d shares, %d) failed: %v", k, cnt, err)
		return
	}
	for _, s := range nw {
		c.Eval(1)
		c.Obs("regenerated shares", 1)
		x := s[len(s)-1]
		if want := p.MakeShares([]byte{x})[0]; !bytes.Equal(want, s) {
			c.ViolateD(map[string]any{"got": Hex(s), "want": Hex(want), "points": points(sh)}, "regenerate-field", "the share regenerated from %d shares at point %d is not the polynomials' value there", k, x)
			return
		}
	}
	c.Distinct("set", xs)
}
