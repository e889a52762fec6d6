package mon

import (
	"bytes"
	"fmt"
	"sync"
	"sync/atomic"

	"github.com/fadhilkurnia/shamir/utils"
)

var poisonOnce sync.Once

// c21fill is what buffers going back to the internal pools are filled with.
var c21fill atomic.Pointer[[]byte]
var c21puts atomic.Int64

func c21hook() {
	poisonOnce.Do(func() {
		utils.VerifOnPut = func(p *utils.BytesBufferPool, b *bytes.Buffer) {
			tile := c21fill.Load()
			if b == nil || tile == nil {
				return
			}
			full := b.Bytes()
			full = full[:cap(full)]
			for n := 0; n < len(full); {
				n += copy(full[n:], *tile)
			}
			c21puts.Add(1)
		}
	})
}

// stuck watches one sequence of values over many splits: which bits of which
// element were the same every time.
type stuck struct {
	name  string
	first []byte
	moved []byte // bits that have differed from the first split
	runs  int
}

func (s *stuck) add(at func(j int) byte, n int) {
	if s.first == nil {
		s.first, s.moved = make([]byte, n), make([]byte, n)
		for j := range s.first {
			s.first[j] = at(j)
		}
	} else {
		for j, f := range s.first {
			s.moved[j] |= at(j) ^ f
		}
	}
	s.runs++
}

// judge reports an element that never changed or, after enough splits, a bit
// that never did. By chance this happens once in 10^10 at most.
func (s *stuck) judge(c *C, what string) bool {
	n := float64(len(s.first))
	c.Eval(int64(len(s.first)))
	c.Obs("positions watched", int64(len(s.first)))
	for j, m := range s.moved {
		if m == 0 && n*pow2(-8*(s.runs-1)) < 1e-10 {
			c.Violate("stuck", "%s: %s at position %d is %d in each of %d splits", what, s.name, j, s.first[j], s.runs)
			return false
		}
		if m != 0xff && 8*n*pow2(-(s.runs-1)) < 1e-10 {
			c.Violate("stuck", "%s: %s at position %d keeps its bits %08b in each of %d splits", what, s.name, j, ^m, s.runs)
			return false
		}
	}
	return true
}

func pow2(e int) float64 {
	v := 1.0
	for ; e < 0; e++ {
		v /= 2
	}
	return v
}

// c03positions makes the same split again and again: no coefficient, wherever
// it stands in a long secret, keeps its value, follows the secret, or follows
// its neighbours. Buffers going back to the pools all get the same contents.
func c03positions(c *C, i int) {
	sps := shamirSplitters()
	sp := sps[i%len(sps)]
	v := i / len(sps)
	shapes := []struct{ k, total, runs int }{
		{2, 1 << 17, 66}, {3, 1 << 20, 8}, {2, 1 << 20, 8}, {5, 1 << 17, 66}, {17, 1 << 19, 8}, {65, 1 << 17, 8}, {3, 1 << 15, 66}, {200, 1 << 16, 8},
	}
	s := shapes[v%len(shapes)]
	l := s.total / s.k
	switch v / len(shapes) % 3 {
	case 0:
		l += c.IntN(l/2) + 1
	case 1:
		l += 1
	}
	if c.Thorough {
		l *= 2
	}
	n := min(255, s.k+c.IntN(2))
	what := fmt.Sprintf("%s(len=%d, n=%d, k=%d)", sp.Name, l, n, s.k)
	c.Distinct(what)
	var self, sec, left, low []*stuck
	for d := 1; d < s.k; d++ {
		self = append(self, &stuck{name: fmt.Sprintf("coefficient %d", d)})
		sec = append(sec, &stuck{name: fmt.Sprintf("coefficient %d XOR secret byte", d)})
		left = append(left, &stuck{name: fmt.Sprintf("coefficient %d XOR that of the next byte", d)})
		low = append(low, &stuck{name: fmt.Sprintf("coefficient %d XOR coefficient %d", d, d-1)})
	}
	tile := []byte{[]byte{0, 0x5a, 0xff}[v%3]}
	c21fill.Store(&tile)
	defer c21fill.Store(nil)
	for r := 0; r < s.runs; r++ {
		secret := mkSecret(c, []string{"random", "random", "same"}[v%3], l)
		if r == 0 && v%2 == 0 {
			clear(secret)
		}
		cols := hugeCols(c, sp, secret, n, s.k)
		if cols == nil {
			return
		}
		for d := 1; d < s.k; d++ {
			col, prev := cols[d], cols[d-1]
			self[d-1].add(func(j int) byte { return col[j] }, l)
			sec[d-1].add(func(j int) byte { return col[j] ^ secret[j] }, l)
			left[d-1].add(func(j int) byte { return col[j] ^ col[j+1] }, l-1)
			if d > 1 {
				low[d-1].add(func(j int) byte { return col[j] ^ prev[j] }, l)
			}
		}
	}
	for d := range self {
		for _, w := range []*stuck{self[d], sec[d], left[d], low[d]} {
			if w.runs > 0 && !w.judge(c, what) {
				return
			}
		}
	}
	if i < 3 {
		c.Sample(map[string]any{"entry": sp.Name, "length": l, "k": s.k, "splits_compared": s.runs})
	}
}
