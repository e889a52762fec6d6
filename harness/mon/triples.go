package mon

import (
	"fmt"
	"math"
)

// c03triples looks for coefficients that follow from two others (or from one
// and the secret) in any way: the upper and the lower halves of any three
// bytes close to one another take all combinations equally often.
func c03triples(c *C, i int) {
	sps := shamirSplitters()
	sp := sps[i%len(sps)]
	v := i / len(sps)
	k := []int{4, 3, 6, 5, 10, 2, 20, 70}[v%8]
	l := 1 << 17
	if k > 10 {
		l = 1 << 16
	}
	if c.Thorough {
		l *= 4
	}
	n := min(255, k+c.IntN(3))
	what := fmt.Sprintf("%s(len=%d, n=%d, k=%d)", sp.Name, l, n, k)
	secret := c.Bytes(l)
	cols := hugeCols(c, sp, secret, n, k)
	if cols == nil {
		return
	}
	type elem struct {
		name string
		col  []byte
		lag  int
	}
	es := []elem{{"the secret byte", cols[0], 0}}
	first := 1
	if k > 9 { // a window of the coefficients
		first = c.Range(1, k-8)
	}
	last := min(k-1, first+7)
	for d := first; d <= last; d++ {
		es = append(es, elem{fmt.Sprintf("coefficient %d", d), cols[d], 0})
	}
	es = append(es, elem{fmt.Sprintf("the next byte's coefficient %d", first), cols[first], 1})
	if last > first {
		es = append(es, elem{fmt.Sprintf("the next byte's coefficient %d", last), cols[last], 1})
	}
	far := []int{2, 15, 16, 31, 32, 64, 255, 256, 1024, 4096}
	x := far[c.IntN(len(far))]
	es = append(es, elem{fmt.Sprintf("coefficient %d %d bytes on", first, x), cols[first], x})
	x = 2 * x
	es = append(es, elem{fmt.Sprintf("coefficient %d %d bytes on", first, x), cols[first], x})
	c.Distinct(what, first, x)
	var up, low [4096]int32
	limit := 4095 + 25*math.Sqrt(2*4095)
	for a := 0; a < len(es); a++ {
		for b := a + 1; b < len(es); b++ {
			for d := b + 1; d < len(es); d++ {
				clear(up[:])
				clear(low[:])
				m := l - max(es[a].lag, es[b].lag, es[d].lag)
				A, B, D := es[a].col[es[a].lag:], es[b].col[es[b].lag:], es[d].col[es[d].lag:]
				for j := 0; j < m; j++ {
					p, q, r := A[j], B[j], D[j]
					up[int(p>>4)<<8|int(q>>4)<<4|int(r>>4)]++
					low[int(p&15)<<8|int(q&15)<<4|int(r&15)]++
				}
				c.Eval(2)
				c.Obs("triples", int64(m))
				for h, t := range []*[4096]int32{&up, &low} {
					e := float64(m) / 4096
					chi := 0.0
					for _, o := range t {
						chi += (float64(o) - e) * (float64(o) - e) / e
					}
					if chi > limit {
						c.Violate("triple", "%s: the %s halves of %s, %s and %s depend on one another (chi-square %.0f for 4095 degrees of freedom)", what,
							[]string{"upper", "lower"}[h], es[a].name, es[b].name, es[d].name, chi)
						return
					}
				}
			}
		}
	}
}
