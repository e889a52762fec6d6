package mon

import (
	"bytes"
	"encoding/binary"
	"fmt"

	"a.verif/vmon/ref"
)

// sparseSet finds repetitions in long stretches of random bytes. All windows
// of what is added are looked up; those entered are the ones at both ends and
// those whose contents select them (one in 16), so that a repetition of some
// 60 bytes is found at any shift with near certainty, and one of 12 bytes at
// an end always.
type sparseSet struct {
	m     map[[winLen]byte]winRef
	bloom []uint64
	names []string
}

func newSparseSet() *sparseSet {
	return &sparseSet{m: map[[winLen]byte]winRef{}, bloom: make([]uint64, 1<<20)}
}

const sparseEnds = 600

// add looks b up and enters it; hit describes a repetition.
func (s *sparseSet) add(c *C, b []byte, name string) (hit string) {
	idx := len(s.names)
	s.names = append(s.names, name)
	for i := 0; i+winLen <= len(b); i++ {
		v := binary.LittleEndian.Uint64(b[i:])
		h := (v ^ uint64(binary.LittleEndian.Uint32(b[i+8:]))<<17) * 0x9e3779b97f4a7c15
		w, bit := h>>44, uint64(1)<<(h>>38&63)
		if s.bloom[w]&bit != 0 {
			if r, ok := s.m[[winLen]byte(b[i:])]; ok {
				return fmt.Sprintf("the 12 bytes %x at %d of %s are those at %d of %s", b[i:i+winLen], i, name, r.pos, s.names[r.split])
			}
		}
		if i < sparseEnds || i+winLen+sparseEnds > len(b) || h>>20&15 == 0 {
			s.bloom[w] |= bit
			s.m[[winLen]byte(b[i:])] = winRef{split: idx, pos: i}
		}
	}
	c.Eval(int64(len(b)))
	c.Obs("windows", int64(len(b)))
	return ""
}

// hugeCols splits and returns the coefficients by degree, having compared the
// constant terms with the secret.
func hugeCols(c *C, sp Splitter, secret []byte, n, k int) [][]byte {
	sh := checkSplit(c, sp, secret, n, k)
	if sh == nil {
		return nil
	}
	cols, err := ref.RecoverCols(sh, k)
	if err == nil && !bytes.Equal(cols[0], secret) {
		err = fmt.Errorf("the constant terms differ from the secret from byte %d on", mismatch(cols[0], secret))
	}
	if err != nil {
		c.Violate("not-a-sharing", "%s(len=%d, n=%d, k=%d): the shares are not evaluations of polynomials of degree < %d with the secret as constant term: %v", sp.Name, len(secret), n, k, k, err)
		return nil
	}
	c.Obs("splits", 1)
	c.Obs("coefficients", int64(len(secret)*(k-1)))
	return cols
}

func mismatch(a, b []byte) int {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			return i
		}
	}
	return len(a)
}

// hugeLen is a length around a power of two or any, of up to top bytes.
func hugeLen(c *C, i, lo, top int) int {
	l := 1 << c.Range(lo, top)
	switch i % 4 {
	case 0:
		return l + []int{0, 1, -1, 15, 17, -16, 1000}[i/4%7]
	case 1:
		return c.Range(l/2, l)
	case 2:
		return l/4*3 + c.IntN(100)
	}
	return c.Range(l-l/16, l+l/16)
}

// shamirOn is a Shamir split entry point chosen by v (0..6).
func interleave(cols [][]byte, from, to int) []byte {
	k := len(cols)
	row := make([]byte, 0, (to-from)*(k-1))
	for j := from; j < to; j++ {
		for d := 1; d < k; d++ {
			row = append(row, cols[d][j])
		}
	}
	return row
}
