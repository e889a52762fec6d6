package mon

import (
	"fmt"
	"math/bits"
)

// span32 finds affine relations over GF(2) among vectors of up to 32 bits.
type span32 struct {
	pivot [32]uint32
	first uint32
	seen  int
	rank  int
	bits  int
}

// add takes a vector and reports whether no relation is possible any more.
func (s *span32) add(w uint32) bool {
	s.seen++
	if s.seen == 1 {
		s.first = w
		return false
	}
	w ^= s.first
	for w != 0 {
		p := bits.TrailingZeros32(w)
		if s.pivot[p] == 0 {
			s.pivot[p] = w
			s.rank++
			break
		}
		w ^= s.pivot[p]
	}
	return s.rank == s.bits
}

// c03far looks, at every distance, for coefficients late in one long split
// that follow from those some way before: four coefficients at a time, two
// side by side late in the split (or one and the one before) and two at the
// distance, over a stretch of places.
func c03far(c *C, i int) {
	sps := shamirSplitters()
	sp := sps[i%len(sps)]
	shape := []struct{ k, total int }{{64, 200000}, {17, 150000}, {200, 300000}, {2, 140000}, {5, 140000}, {33, 270000}, {3, 100000}, {128, 400000}}[i/len(sps)%8]
	k := shape.k
	l := shape.total/k + c.IntN(50)
	n := k
	secret := mkSecret(c, []string{"random", "zero", "ascii"}[i%3], l)
	sh := checkSplit(c, sp, secret, n, k)
	if sh == nil {
		return
	}
	p := recoverPoly(c, sp, sh, secret, n, k)
	if p == nil {
		return
	}
	what := fmt.Sprintf("%s(len=%d, n=%d, k=%d)", sp.Name, l, n, k)
	c.Distinct(what, "far")
	// the orders in which coefficients may have been drawn; -1 marks a place
	// whose draw cannot be seen (the constant term's)
	row, rowAll, col, colAll := []int16{}, []int16{}, []int16{}, []int16{}
	for b := range p {
		rowAll = append(rowAll, -1)
		for d := 1; d < k; d++ {
			row = append(row, int16(p[b][d]))
			rowAll = append(rowAll, int16(p[b][d]))
		}
	}
	for d := 0; d < k; d++ {
		for b := range p {
			if d == 0 {
				colAll = append(colAll, -1)
			} else {
				col = append(col, int16(p[b][d]))
				colAll = append(colAll, int16(p[b][d]))
			}
		}
	}
	orders := []struct {
		name string
		v    []int16
	}{{"byte by byte", row}, {"byte by byte, with the constant term", rowAll}, {"degree by degree", col}, {"degree by degree, with the constant term", colAll}}
	relations := 0
	for _, o := range orders {
		v := o.v
		if k == 2 && o.name != "byte by byte" {
			continue // the others are the same, or show nothing
		}
		// late places: the very last ones, and some in the middle
		for _, end := range []int{len(v) - 2, len(v) * 3 / 4} {
			for dist := 2; dist < end-400; dist++ {
				for form := 0; form < 2; form++ {
					s := span32{bits: 32}
					full := false
					for q := end; q > end-400 && s.seen < 32+70; q-- {
						x := [4]int16{v[q], v[q+1-2*form], v[q-dist], v[q-dist+1]}
						if x[0]|x[1]|x[2]|x[3] < 0 || dist == 2 {
							continue
						}
						if full = s.add(uint32(x[0]) | uint32(x[1])<<8 | uint32(x[2])<<16 | uint32(x[3])<<24); full {
							break
						}
					}
					relations++
					if !full && s.seen >= 32+70 {
						c.Violate("dependent", "%s: %s, coefficients up to number %d are a fixed function of those %d places before (%d places looked at)", what, o.name, end, dist, s.seen)
						return
					}
				}
			}
		}
	}
	c.Eval(int64(relations))
	c.Obs("distances searched for linear relations", int64(relations))
}
