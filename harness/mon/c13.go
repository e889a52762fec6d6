//go:build !386

package mon

import (
	"bytes"
	"fmt"
	"runtime"
	"runtime/debug"
	"syscall"
	"unsafe"

	"a.verif/vmon/ref"
	"github.com/fadhilkurnia/shamir/galois"
)

func init() {
	register(&Monitor{
		ID:          "C13",
		Rule:        "a case is one call of a vector operation, distinct by (operation, constant, length, placement); operands lie between inaccessible pages or in canary-filled memory, results are compared element by element with the field model",
		Configs:     []string{"native", "ssse3", "sse2", "none", "noasm"},
		Need:        map[string]int64{"calls": 1000000, "guarded calls": 400000, "unequal lengths": 50000},
		Assumptions: []string{"the memory multiplying writes its result to is the library's choice (a new slice or the operand itself); both are accepted, and whatever else is written is seen only next to the operands"},
		Stages: []Stage{
			{Name: "mul", N: fixed(256, 256*4), Run: c13mul},
			{Name: "add", N: fixed(160, 1600), Run: c13add},
			{Name: "canary", N: fixed(160, 1600), Run: c13canary},
			{Name: "neighbours", N: fixed(40, 400), Run: c13neighbours},
			{Name: "unequal", N: fixed(60, 600), Run: c13unequal},
			{Name: "long", N: fixed(24, 240), Run: c13long},
		},
	})
}

// guarded memory: pages of data between inaccessible ones.
type guard struct {
	mem []byte // the accessible part
	all []byte
}

const pg = 4096

func newGuard(pages int) *guard {
	all, err := syscall.Mmap(-1, 0, (pages+2)*pg, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		Inconclusive("mmap: %v", err)
	}
	if syscall.Mprotect(all[:pg], syscall.PROT_NONE) != nil || syscall.Mprotect(all[(pages+1)*pg:], syscall.PROT_NONE) != nil {
		Inconclusive("mprotect failed")
	}
	return &guard{all[pg : (pages+1)*pg], all}
}

func (g *guard) free() { syscall.Munmap(g.all) }

// end returns n bytes that end at the inaccessible page, begin n that start at one.
func (g *guard) end(n int) []byte   { return g.mem[len(g.mem)-n:] }
func (g *guard) begin(n int) []byte { return g.mem[:n:n] }

// slackDirty looks at the unused rest of the heap slot that holds a result of
// exactly its own capacity: the allocator cleared it, so whatever is there now
// was written out of bounds. It returns the distance, or -1.
func slackDirty(out, in []byte) int {
	n := len(out)
	if n < 16 || n > 16384 || cap(out) != n || unsafe.SliceData(out) == unsafe.SliceData(in) {
		return -1
	}
	slot := slotSize[n]
	if slot == 0 {
		slot = cap(append([]byte(nil), make([]byte, n)...))
		slotSize[n] = slot
	}
	rest := unsafe.Slice(unsafe.SliceData(out), slot)[n:]
	for i, v := range rest {
		if v != 0 {
			return i
		}
	}
	return -1
}

var slotSize [16385]int

type vop struct {
	name string
	mul  func(c byte, a []byte) []byte
	add  func(a, b []byte) []byte
}

var vops = []vop{
	{"MulConstVector", galois.MulConstVector, nil},
	{"MulConstVectorGeneric", galois.MulConstVectorGeneric, nil},
	{"AddVector", nil, galois.AddVector},
	{"AddVectorGeneric", nil, galois.AddVectorGeneric},
	{"AddVectorBatchGeneric", nil, galois.AddVectorBatchGeneric},
}

// c13call runs one call on prepared operands and judges the result.
func c13call(c *C, op vop, k byte, a, b []byte, place string) bool {
	c.Obs("calls", 1)
	c.Eval(1)
	a0 := append([]byte(nil), a...)
	var got []byte
	desc := fmt.Sprintf("%s(%d, len %d; %s)", op.name, k, len(a), place)
	if op.mul != nil {
		if !c.Do(desc, func() { got = op.mul(k, a) }) {
			return false
		}
		if len(got) != len(a0) {
			c.Violate("length", "%s returned %d elements", desc, len(got))
			return false
		}
		for i := range got {
			if got[i] != ref.Mul(k, a0[i]) {
				c.ViolateD(map[string]any{"in": Hex(a0), "got": Hex(got)}, "element", "%s: element %d of the product is %d, but %d * %d = %d", desc, i, got[i], k, a0[i], ref.Mul(k, a0[i]))
				return false
			}
		}
		if x := slackDirty(got, a); x >= 0 {
			c.Violate("out-of-bounds", "%s wrote behind its result, %d bytes after its end", desc, x)
			return false
		}
		c.Obs("result slack checked", 1)
		// the operand holds either its old contents or the result
		if !bytes.Equal(a, a0) && !bytes.Equal(a, got) {
			c.ViolateD(map[string]any{"in": Hex(a0), "now": Hex(a)}, "operand", "%s left neither the operand nor the product in the operand's memory", desc)
			return false
		}
		return true
	}
	b0 := append([]byte(nil), b...)
	if !c.Do(desc, func() { got = op.add(a, b) }) {
		return false
	}
	if len(got) != len(a0) {
		c.Violate("length", "%s returned %d elements", desc, len(got))
		return false
	}
	for i := range got {
		if w := a0[i] ^ b0[i]; got[i] != w || b[i] != w {
			c.ViolateD(map[string]any{"a": Hex(a0), "b": Hex(b0), "got": Hex(got), "b_now": Hex(b)}, "element", "%s: element %d of the sum is %d (second operand now %d), but %d + %d = %d", desc, i, got[i], b[i], a0[i], b0[i], w)
			return false
		}
	}
	if !bytes.Equal(a, a0) {
		c.ViolateD(map[string]any{"a": Hex(a0), "now": Hex(a)}, "operand", "%s changed its first operand", desc)
		return false
	}
	return true
}

func c13lengths(c *C, i int) []int {
	var l []int
	for n := 0; n <= 300; n++ {
		if n < 70 || n%16 < 2 || n%16 == 15 || (n+i)%5 == 0 {
			l = append(l, n)
		}
	}
	for t := 0; t < 12; t++ {
		l = append(l, c.Range(300, 1300))
	}
	return append(l, 511, 512, 513, 1023, 1024, 1025, 4095, 4096)
}

// c13mul: one constant, all lengths, at both page borders.
func c13mul(c *C, i int) {
	defer debug.SetPanicOnFault(debug.SetPanicOnFault(true))
	k := byte(i)
	g := newGuard(2)
	defer g.free()
	for _, n := range c13lengths(c, i) {
		for p, place := range []string{"ends at an inaccessible page", "starts at an inaccessible page"} {
			for _, op := range vops[:2] {
				a := g.end(n)
				if p == 1 {
					a = g.begin(n)
				}
				c.Fill(a)
				if n < 256 && (n+p)%4 == 0 {
					for j := range a {
						a[j] = byte(j*13 + n)
					}
				}
				c.Obs("guarded calls", 1)
				if !c13call(c, op, k, a, nil, place) {
					return
				}
				c.Distinct(op.name, i, n, p)
			}
		}
	}
	if i == 7 {
		c.Sample(map[string]any{"operation": "MulConstVector", "constant": k, "lengths": "0..300, 300..1300, 4095, 4096", "placement": "at both borders of an inaccessible page"})
	}
}

func c13add(c *C, i int) {
	defer debug.SetPanicOnFault(debug.SetPanicOnFault(true))
	g, h := newGuard(2), newGuard(2)
	defer g.free()
	defer h.free()
	for _, n := range c13lengths(c, i) {
		for p := 0; p < 4; p++ {
			for _, op := range vops[2:] {
				a, b := g.end(n), h.end(n)
				if p&1 == 1 {
					a = g.begin(n)
				}
				if p&2 == 2 {
					b = h.begin(n)
				}
				c.Fill(a)
				c.Fill(b)
				c.Obs("guarded calls", 1)
				if !c13call(c, op, 0, a, b, fmt.Sprintf("operands at page borders, placement %d", p)) {
					return
				}
				c.Distinct(op.name, n, p)
			}
		}
		// a vector added to itself
		for _, op := range vops[2:] {
			v := g.end(n)
			if i%2 == 1 {
				v = g.begin(n)
			}
			c.Fill(v)
			var got []byte
			desc := fmt.Sprintf("%s(len %d) of a vector and itself", op.name, n)
			if !c.Do(desc, func() { got = op.add(v, v) }) {
				return
			}
			c.Eval(1)
			c.Obs("calls", 1)
			if len(got) != n || len(bytes.Trim(got, "\x00")) > 0 || len(bytes.Trim(v, "\x00")) > 0 {
				c.ViolateD(map[string]any{"got": Hex(got), "b_now": Hex(v)}, "element", "%s: the result or the second operand is not zero", desc)
				return
			}
		}
		// a first operand that must not be written at all
		a := g.end(n)
		c.Fill(a)
		b := h.end(n)
		c.Fill(b)
		if syscall.Mprotect(g.mem, syscall.PROT_READ) != nil {
			Inconclusive("mprotect failed")
		}
		ok := true
		for _, op := range vops[2:] {
			ok = ok && c13call(c, op, 0, a, b, "first operand read-only")
		}
		syscall.Mprotect(g.mem, syscall.PROT_READ|syscall.PROT_WRITE)
		if !ok {
			return
		}
	}
}

// c13canary: operands at all alignments and with spare capacity inside larger
// arrays, whose other bytes must not change.
func c13canary(c *C, i int) {
	buf, buf2 := make([]byte, 3000), make([]byte, 3000)
	for t := 0; t < 900; t++ {
		c.Fill(buf)
		c.Fill(buf2)
		n := c.IntN(200)
		if t%4 == 0 {
			n = c.IntN(1400)
		}
		oa, ob := c.IntN(65), c.IntN(65)
		s1, s2 := append([]byte(nil), buf...), append([]byte(nil), buf2...)
		a, b := buf[oa:oa+n], buf2[ob:ob+n]
		if t%3 == 0 {
			a, b = buf[oa:oa+n:oa+n], buf2[ob:ob+n:ob+n]
		}
		op := vops[(t+i)%len(vops)]
		k := byte(c.IntN(256))
		if !c13call(c, op, k, a, b, fmt.Sprintf("alignments %d, %d in a larger array", oa, ob)) {
			return
		}
		c.Distinct(op.name, n, oa, ob, int(k))
		chk := func(now, was []byte, off int, which string) bool {
			if !bytes.Equal(now[:off], was[:off]) || !bytes.Equal(now[off+n:], was[off+n:]) {
				x := 0
				for now[x] == was[x] || (x >= off && x < off+n) {
					x++
				}
				c.Violate("out-of-bounds", "%s(%d, len %d) changed the byte at %d relative to the start of the %s operand", op.name, k, n, x-off, which)
				return false
			}
			return true
		}
		if !chk(buf, s1, oa, "first") || !chk(buf2, s2, ob, "second") {
			return
		}
		if op.mul != nil && !bytes.Equal(buf2, s2) {
			c.Violate("out-of-bounds", "%s changed foreign memory", op.name)
			return
		}
	}
}

// c13unequal: unequal lengths panic before anything is written.
func c13unequal(c *C, i int) {
	defer debug.SetPanicOnFault(debug.SetPanicOnFault(true))
	g, h := newGuard(2), newGuard(2)
	defer g.free()
	defer h.free()
	for t := 0; t < 700; t++ {
		n, m := c.IntN(300), c.IntN(300)
		switch t % 5 {
		case 0:
			m = n + 1
		case 1:
			m = max(0, n-1)
		case 2:
			n, m = 0, c.Range(1, 200)
		case 3:
			n, m = c.Range(1, 1500), 0
			if t%2 == 0 {
				n, m = c.Range(100, 1500), c.Range(100, 1500)
			}
		}
		if n == m {
			continue
		}
		a, b := g.end(n), h.end(m)
		if t%2 == 0 {
			a, b = g.begin(n), h.begin(m)
		}
		c.Fill(g.mem)
		c.Fill(h.mem)
		s1, s2 := append([]byte(nil), g.mem...), append([]byte(nil), h.mem...)
		op := vops[2:][t%3]
		desc := fmt.Sprintf("%s of lengths %d and %d", op.name, n, m)
		pan, _ := c.Try(desc, func() { op.add(a, b) })
		c.Eval(1)
		c.Obs("unequal lengths", 1)
		c.Distinct(op.name, n, m)
		if pan == nil {
			c.Violate("no-panic", "%s did not panic", desc)
			return
		}
		if !bytes.Equal(s1, g.mem) || !bytes.Equal(s2, h.mem) {
			c.Violate("written", "%s had written to its operands before it panicked (%v)", desc, pan)
			return
		}
		if _, fault := pan.(interface{ Addr() uintptr }); fault {
			c.Violate("out-of-bounds", "%s accessed memory outside its operands: %v", desc, pan)
			return
		}
	}
}

func c13long(c *C, i int) {
	defer debug.SetPanicOnFault(debug.SetPanicOnFault(true))
	g, h := newGuard(300), newGuard(300)
	defer g.free()
	defer h.free()
	for t := 0; t < 12; t++ {
		n := c.Range(5000, 1200000)
		if t%3 == 0 {
			n = 1<<c.Range(12, 20) + c.Range(-1, 1)
		}
		op := vops[(i+t)%len(vops)]
		a, b := g.end(n), h.end(n)
		c.Fill(a)
		c.Fill(b)
		c.Obs("guarded calls", 1)
		if !c13call(c, op, byte(c.IntN(256)), a, b, "long") {
			return
		}
		c.Distinct(op.name, n)
	}
}

// c13neighbours: results are allocated between canary objects of the same size,
// which must survive.
func c13neighbours(c *C, i int) {
	sizes := []int{16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 240, 256, 288, 320, 416, 480, 704, 1408}
	n := sizes[i%len(sizes)] - []int{0, 0, 0, 1, 7}[i%5]
	const N = 2000
	can := make([][]byte, N)
	pat := byte(0xc3)
	for j := range can {
		can[j] = bytes.Repeat([]byte{pat}, n)
	}
	for j := 0; j < N; j += 2 {
		can[j] = nil
	}
	runtime.GC()
	in := c.Bytes(n)
	outs := make([][]byte, 0, N/2)
	k := byte(c.Range(2, 255))
	if !c.Do(fmt.Sprintf("MulConstVector(%d, len %d)", k, n), func() {
		for j := 0; j < N/2; j++ {
			outs = append(outs, galois.MulConstVector(k, in))
		}
	}) {
		return
	}
	for j := 1; j < N; j += 2 {
		c.Eval(1)
		for x, v := range can[j] {
			if v != pat {
				c.Violate("out-of-bounds", "MulConstVector(%d, len %d) changed byte %d of an unrelated object", k, n, x)
				return
			}
		}
	}
	c.Distinct("neighbours", n, i)
	runtime.KeepAlive(outs)
}
