package mon

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"encoding/binary"
	"fmt"
	"io"
	"sync"
	"time"

	"github.com/fadhilkurnia/shamir/csprng"
	"github.com/fadhilkurnia/shamir/randomizer"
)

func init() {
	register(&Monitor{
		ID:          "C10",
		Rule:        "a case is a history of reads (sizes, alignments, prior buffer contents) of one source, or of several sources interleaved; every byte delivered is compared with an independent AES-128-CTR stream, for self-seeded sources with a second source of the same entropy read in one go",
		Configs:     []string{"native", "noasm", "x386", "stress", "warped"},
		Warp:        []string{"keyed", "carry", "several", "seeded"},
		Need:        map[string]int64{"stream bytes": 50000000, "reads": 200000, "carry streams": 500},
		Assumptions: []string{"the standard library's AES-CTR is the reference key stream"},
		Stages: []Stage{
			{Name: "keyed", N: fixed(400, 6000), Run: c10keyed, Configs: []string{"native", "noasm", "x386"}},
			{Name: "carry", N: fixed(600, 3000), Run: c10carry, Configs: []string{"native", "x386"}},
			{Name: "several", N: fixed(80, 800), Run: c10several, Configs: []string{"native"}},
			{Name: "seeded", N: fixed(200, 3000), Run: c10seeded, Configs: []string{"native", "x386"}},
			{Name: "large", N: fixed(12, 80), Run: c10large, Configs: []string{"native", "noasm", "stress"}, OpCPU: 60 * time.Second},
			{Name: "fresh", N: fixed(8, 64), Run: c10fresh, Configs: []string{"native"}, RealEntropy: true},
			{Name: "far", N: fixed(1, 3), Run: c10far, Configs: []string{"native"}},
			{Name: "concurrent", N: fixed(60, 1200), Run: c10concurrent, Configs: []string{"stress"}},
		},
	})
}

// ctrAt returns the key stream of key and IV from the given byte offset on.
func ctrAt(keyIV []byte, off uint64) cipher.Stream {
	b, err := aes.NewCipher(keyIV[:16])
	if err != nil {
		panic(err)
	}
	var iv [16]byte
	copy(iv[:], keyIV[16:])
	lo := binary.BigEndian.Uint64(iv[8:])
	hi := binary.BigEndian.Uint64(iv[:8])
	n := lo + off/16
	if n < lo {
		hi++
	}
	binary.BigEndian.PutUint64(iv[8:], n)
	binary.BigEndian.PutUint64(iv[:8], hi)
	s := cipher.NewCTR(b, iv[:])
	skip := make([]byte, off%16)
	s.XORKeyStream(skip, skip)
	return s
}

func stream(s cipher.Stream, n int) []byte {
	b := make([]byte, n)
	s.XORKeyStream(b, b)
	return b
}

// pool of a few read sizes that matter to block ciphers and their batches
var readSizes = []int{0, 0, 1, 1, 2, 3, 5, 7, 8, 9, 13, 15, 16, 17, 20, 31, 32, 33, 47, 48, 49, 63, 64, 65, 79, 80, 95, 96, 111, 112, 113, 127, 128, 129, 130, 143, 144, 145, 255, 256, 257, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097}

func readSize(c *C) int {
	switch c.IntN(4) {
	case 0:
		return c.IntN(40)
	case 1:
		return c.IntN(300)
	case 2:
		if c.IntN(20) == 0 {
			return c.IntN(70000)
		}
	}
	return readSizes[c.IntN(len(readSizes))]
}

// readDirty reads n bytes into a buffer with arbitrary contents, alignment and
// spare capacity and checks that nothing else is touched.
func readDirty(c *C, r io.Reader, n int, what string) []byte {
	pre, post := c.IntN(33), c.IntN(40)
	b := make([]byte, pre+n+post)
	switch c.IntN(4) {
	case 0:
	case 1:
		for i := range b {
			b[i] = 0xff
		}
	default:
		c.Fill(b)
	}
	snap := append([]byte(nil), b...)
	var dst []byte
	if c.IntN(2) == 0 {
		dst = b[pre : pre+n : pre+n]
	} else {
		dst = b[pre : pre+n]
	}
	if n == 0 && c.IntN(2) == 0 {
		dst = nil
	}
	var got int
	var err error
	if !c.Do(fmt.Sprintf("%s.Read(%d bytes)", what, n), func() { got, err = r.Read(dst) }) {
		return nil
	}
	c.Obs("reads", 1)
	if got != n || err != nil {
		c.Violate("read-result", "%s.Read of %d bytes returned %d, %v", what, n, got, err)
		return nil
	}
	if !bytes.Equal(b[:pre], snap[:pre]) || !bytes.Equal(b[pre+n:], snap[pre+n:]) {
		c.Violate("out-of-bounds", "%s.Read of %d bytes changed bytes around the buffer", what, n)
		return nil
	}
	return append([]byte{}, b[pre:pre+n]...)
}

// c10follow reads through r and compares with the expected stream.
func c10follow(c *C, r io.Reader, exp cipher.Stream, reads int, what string, wit map[string]any) bool {
	off := 0
	var sizes []int
	for t := 0; t < reads; t++ {
		n := readSize(c)
		sizes = append(sizes, n)
		got := readDirty(c, r, n, what)
		if got == nil {
			return false
		}
		want := stream(exp, n)
		c.Eval(1)
		c.Obs("stream bytes", int64(n))
		if !bytes.Equal(got, want) {
			x := 0
			for got[x] == want[x] {
				x++
			}
			d := map[string]any{"read_sizes": sizes, "got": Hex(got[x:]), "want": Hex(want[x:])}
			for k, v := range wit {
				d[k] = v
			}
			c.ViolateD(d, "stream", "%s: read %d (%d bytes, stream offset %d) differs from the key stream from its byte %d on", what, t, n, off, x)
			return false
		}
		off += n
	}
	c.Distinct(what, fmt.Sprint(sizes))
	return true
}

func c10keyed(c *C, i int) {
	keyIV := make([]byte, 32)
	switch i % 5 {
	case 0:
	case 1:
		c.Fill(keyIV[:16])
	default:
		c.Fill(keyIV)
	}
	in := append(make([]byte, 3), keyIV...)[3:]
	var r *csprng.CSPRNG
	if !c.Do("csprng.NewCSPRNGWithKeyIV", func() { r = csprng.NewCSPRNGWithKeyIV(in) }) {
		return
	}
	if !bytes.Equal(in, keyIV) {
		c.Violate("input-changed", "NewCSPRNGWithKeyIV changed the key material passed to it")
		return
	}
	if i%2 == 1 {
		// the caller goes on to use its slice
		c.Fill(in)
	}
	if !c10follow(c, r, ctrAt(keyIV, 0), 40+c.IntN(120), "csprng", map[string]any{"key_iv": Hex(keyIV)}) {
		return
	}
	if i < 4 {
		c.Sample(map[string]any{"key_iv": Hex(keyIV), "reads": "random sizes 0..70000 with dirty, unaligned buffers"})
	}
}

// c10carry: counters that carry into every byte of the IV within the reads.
func c10carry(c *C, i int) {
	keyIV := c.Bytes(32)
	ff := i%16 + 1
	for j := 16 - ff; j < 16; j++ {
		keyIV[16+j] = 0xff
	}
	keyIV[31] -= byte(c.IntN(20))
	if i%3 == 0 && ff > 1 {
		// the carry happens after a long read only
		keyIV[30], keyIV[31] = 0xff, byte(c.IntN(256))
	}
	r := csprng.NewCSPRNGWithKeyIV(append([]byte(nil), keyIV...))
	c.Obs("carry streams", 1)
	c10follow(c, r, ctrAt(keyIV, 0), 25, "csprng", map[string]any{"key_iv": Hex(keyIV)})
}

// c10several: several sources, also of equal key, read in turns; permutations
// and byte lists in between only move on.
func c10several(c *C, i int) {
	type st struct {
		r   *csprng.CSPRNG
		key []byte
		off uint64
		amb bool
	}
	var l []*st
	for j := 0; j < 2+c.IntN(5); j++ {
		k := c.Bytes(32)
		if j > 0 && c.IntN(2) == 0 {
			k = l[0].key
		}
		l = append(l, &st{r: csprng.NewCSPRNGWithKeyIV(k), key: append([]byte(nil), k...)})
	}
	for t := 0; t < 400; t++ {
		s := pick(c, l)
		if c.IntN(12) == 0 {
			n := byte(c.IntN(256))
			if c.IntN(2) == 0 {
				c.Do(fmt.Sprintf("csprng.Perm(%d)", n), func() { s.r.Perm(n) })
			} else {
				c.Do(fmt.Sprintf("csprng.GetUniqueBytes(%d)", n), func() { s.r.GetUniqueBytes(n) })
			}
			s.amb = true
			continue
		}
		n := readSize(c)
		if s.amb && n < 16 {
			n = 16 + c.IntN(50)
		}
		got := readDirty(c, s.r, n, "csprng")
		if got == nil {
			return
		}
		c.Eval(1)
		if s.amb {
			// how much the calls in between took is not specified: find it
			win := stream(ctrAt(s.key, s.off), 1<<16)
			x := bytes.Index(win, got[:16])
			if x < 0 {
				c.ViolateD(map[string]any{"key_iv": Hex(s.key), "got": Hex(got), "offset": s.off}, "stream", "csprng: a read of %d bytes after Perm/GetUniqueBytes is not a later part of the key stream", n)
				return
			}
			s.off += uint64(x)
			s.amb = false
		}
		if want := stream(ctrAt(s.key, s.off), n); !bytes.Equal(got, want) {
			c.ViolateD(map[string]any{"key_iv": Hex(s.key), "got": Hex(got), "want": Hex(want), "offset": s.off}, "stream", "csprng (one of %d in use): a read of %d bytes at stream offset %d differs from the key stream", len(l), n, s.off)
			return
		}
		c.Obs("stream bytes", int64(n))
		s.off += uint64(n)
	}
	c.Distinct("several", i, len(l))
}

// c10seeded: self-seeded sources deliver one stream, however it is read.
func c10seeded(c *C, i int) {
	mk := func() (io.Reader, string) {
		var r io.Reader
		what := "csprng.NewCSPRNG()"
		if i%2 == 0 {
			c.Do(what, func() { r = csprng.NewCSPRNG() })
		} else {
			what = "randomizer.NewRandomizer()"
			c.Do(what, func() { r = randomizer.NewRandomizer() })
		}
		return r, what
	}
	c.SetEntropy("seeded", i)
	if x, _ := mk(); x != nil {
		c.SetEntropy("seeded", i)
		if y, _ := mk(); y == nil || !bytes.Equal(readDirty(c, x, 64, "source"), readDirty(c, y, 64, "source")) {
			// the entropy of sources is not under our control
			c.Obs("seeded sources not comparable", 1)
			return
		}
	}
	c.SetEntropy("seeded", i)
	a, what := mk()
	whole := make([]byte, 1<<18)
	if a == nil || !c.Do(what+".Read", func() { a.Read(whole) }) {
		return
	}
	c.SetEntropy("seeded", i)
	b, _ := mk()
	if b == nil {
		return
	}
	off := 0
	var sizes []int
	for off < len(whole) {
		n := min(readSize(c), len(whole)-off)
		sizes = append(sizes, n)
		got := readDirty(c, b, n, what)
		if got == nil {
			return
		}
		c.Eval(1)
		c.Obs("stream bytes", int64(n))
		if !bytes.Equal(got, whole[off:off+n]) {
			c.ViolateD(map[string]any{"read_sizes": sizes, "got": Hex(got), "want": Hex(whole[off : off+n])}, "stream",
				"%s: with equal entropy, the bytes at offset %d depend on how the stream is read (read %d, %d bytes)", what, off, len(sizes), n)
			return
		}
		off += n
	}
	c.Distinct(what, fmt.Sprint(sizes))
	// no 16-byte block comes twice in the stream, and it looks like a key stream
	seen := map[[16]byte]bool{}
	ta := tally{}
	for x := 0; x+16 <= len(whole); x += 16 {
		var k [16]byte
		copy(k[:], whole[x:])
		if seen[k] {
			c.Violate("repeats", "%s: the block %x comes twice in the first %d bytes", what, k, len(whole))
			return
		}
		seen[k] = true
		for j, v := range k {
			ta.add(fmt.Sprintf("byte %d of a block", j), v)
		}
	}
	ta.judge(c, what, nil)
}

// c10large: single reads far beyond the usual sizes, of every kind of source.
func c10large(c *C, i int) {
	n := []int{1<<20 - 1, 1 << 20, 1<<20 + 1, 1<<20 + 70000, 3<<20 + 17, 1<<22 + 1, 1<<23 + 15, 17<<20 + 3, 200001, 1<<19 + 5, 33<<20 + 1, 131073}[i%12]
	if c.Thorough {
		n += c.IntN(100000)
		if i%12 == 10 {
			n = 200 << 20
		}
	}
	same := func(what string, got []byte, next func(b []byte), d map[string]any) bool {
		want := make([]byte, 1<<16)
		for off := 0; off < len(got); off += len(want) {
			w := want[:min(len(want), len(got)-off)]
			next(w)
			c.Eval(1)
			c.Obs("stream bytes", int64(len(w)))
			if g := got[off : off+len(w)]; !bytes.Equal(g, w) {
				x := 0
				for g[x] == w[x] {
					x++
				}
				c.ViolateD(d, "stream", "%s.Read of %d bytes: the bytes from %d on (%x) are not those of the key stream (%x)", what, len(got), off+x, trunc32(g[x:]), trunc32(w[x:]))
				return false
			}
		}
		return true
	}
	c.Distinct("large", n, i)
	// keyed
	keyIV := c.Bytes(32)
	r := csprng.NewCSPRNGWithKeyIV(append([]byte(nil), keyIV...))
	pre := c.IntN(40)
	exp := ctrAt(keyIV, 0)
	next := func(b []byte) { clear(b); exp.XORKeyStream(b, b) }
	for _, m := range []int{pre, n, c.IntN(100)} {
		got := readDirty(c, r, m, "csprng")
		if got == nil || !same("csprng", got, next, map[string]any{"key_iv": Hex(keyIV)}) {
			return
		}
	}
	// self-seeded: once in one go, once in small reads of an equal source
	for _, kind := range []string{"csprng.NewCSPRNG()", "randomizer.NewRandomizer()"} {
		mk := func() io.Reader {
			c.SetEntropy("large", kind)
			var r io.Reader
			c.Do(kind, func() {
				if kind[0] == 'c' {
					r = csprng.NewCSPRNG()
				} else {
					r = randomizer.NewRandomizer()
				}
			})
			return r
		}
		a, b, t1, t2 := mk(), mk(), mk(), mk()
		if a == nil || b == nil || t1 == nil || t2 == nil {
			return
		}
		if !bytes.Equal(readDirty(c, t1, 64, kind), readDirty(c, t2, 64, kind)) {
			c.Obs("seeded sources not comparable", 1)
			continue
		}
		for _, m := range []int{pre, n, 33} {
			got := readDirty(c, a, m, kind)
			if got == nil || !same(kind, got, func(w []byte) {
				for x := 0; x < len(w); x += 4096 {
					b.Read(w[x:min(len(w), x+4096)])
				}
			}, nil) {
				return
			}
		}
		c.Obs("large self-seeded reads", 1)
	}
}

func trunc32(b []byte) []byte { return b[:min(32, len(b))] }

// c10fresh: fresh sources are unrelated to one another and to keyed ones.
func c10fresh(c *C, i int) {
	seen := map[[12]byte]string{}
	put := func(b []byte, who string) bool {
		for x := 0; x+12 <= len(b); x += 4 {
			var k [12]byte
			copy(k[:], b[x:])
			c.Eval(1)
			if p, ok := seen[k]; ok {
				c.Violate("related", "the bytes %x appear in the streams of %s and %s", k, p, who)
				return false
			}
			seen[k] = who
		}
		return true
	}
	zero := make([]byte, 32)
	put(stream(ctrAt(zero, 0), 4096), "the all-zero key")
	ff := bytes.Repeat([]byte{0xff}, 32)
	put(stream(ctrAt(ff, 0), 4096), "the all-ones key")
	for t := 0; t < 400; t++ {
		var r io.Reader = csprng.NewCSPRNG()
		who := fmt.Sprintf("csprng.NewCSPRNG() number %d", t)
		if t%2 == 1 {
			r, who = randomizer.NewRandomizer(), fmt.Sprintf("randomizer.NewRandomizer() number %d", t)
		}
		b := readDirty(c, r, 1024, who)
		if b == nil || !put(b, who) {
			return
		}
		c.Obs("fresh sources", 1)
	}
	c.Distinct("fresh", i)
}

// c10far follows one source across the 2^31 and 2^32 byte offsets.
func c10far(c *C, i int) {
	keyIV := c.Bytes(32)
	if i%2 == 0 {
		for j := 20; j < 32; j++ {
			keyIV[j] = 0xff
		}
	}
	r := csprng.NewCSPRNGWithKeyIV(keyIV)
	buf := make([]byte, 8<<20)
	end := uint64(1)<<32 + 64<<20
	if c.Thorough {
		end = uint64(1)<<34 + 64<<20
	}
	for off := uint64(0); off < end; {
		n := uint64(len(buf)) - uint64(c.IntN(40))
		b := buf[:n]
		var g int
		var err error
		if !c.Do(fmt.Sprintf("csprng.Read at offset %d", off), func() { g, err = r.Read(b) }) {
			return
		}
		if g != len(b) || err != nil {
			c.Violate("read-result", "csprng.Read of %d bytes returned %d, %v", n, g, err)
			return
		}
		c.Eval(1)
		// compare the ends, some places inside, and everything near powers of two
		check := func(at, m uint64) bool {
			if at+m > n {
				return true
			}
			if want := stream(ctrAt(keyIV, off+at), int(m)); !bytes.Equal(b[at:at+m], want) {
				c.ViolateD(map[string]any{"key_iv": Hex(keyIV), "got": Hex(b[at : at+m]), "want": Hex(want)}, "stream", "csprng: the bytes at stream offset %d differ from the key stream", off+at)
				return false
			}
			c.Obs("stream bytes", int64(m))
			return true
		}
		if !check(0, 4096) || !check(n-4096, 4096) || !check(uint64(c.IntN(int(n-70000))), 65536) {
			return
		}
		for p := uint(24); p < 36; p++ {
			if v := uint64(1) << p; v >= off && v+256 < off+n {
				lo := v - off
				if lo > 65536 {
					lo -= 65536
				} else {
					lo = 0
				}
				if !check(lo, min(131072, n-lo)) {
					return
				}
			}
		}
		off += n
	}
	c.Distinct("far", i)
	c.Obs("far streams", 1)
}

// c10concurrent: readers of one source get disjoint parts that together are
// exactly the stream.
func c10concurrent(c *C, i int) {
	keyIV := c.Bytes(32)
	r := csprng.NewCSPRNGWithKeyIV(append([]byte(nil), keyIV...))
	G := []int{2, 4, 8, 16}[i%4]
	parts, ok := concurrentReads(c, r, G, 300, i%3)
	if !ok {
		return
	}
	partition(c, keyIV, parts, G)
	c.Distinct("concurrent", i)
}

// concurrentReads lets G goroutines read.
func concurrentReads(c *C, r *csprng.CSPRNG, G, per, mode int) ([][]byte, bool) {
	out := make([][][]byte, G)
	sizes := make([][]int, G)
	for g := range sizes {
		for t := 0; t < per; t++ {
			n := 16 + c.IntN(50)
			switch mode {
			case 1:
				n = 16
			case 2:
				if c.IntN(8) == 0 {
					n = c.Range(16, 6000)
				}
			case 3:
				n = c.Range(16, 1<<c.Range(7, 15))
			}
			sizes[g] = append(sizes[g], n)
		}
	}
	errs := make([]string, G)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for g := 0; g < G; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for _, n := range sizes[g] {
				b := make([]byte, n)
				if k, err := r.Read(b); k != n || err != nil {
					errs[g] = fmt.Sprintf("Read of %d bytes returned %d, %v", n, k, err)
					return
				}
				out[g] = append(out[g], b)
			}
		}()
	}
	if !c.Do("concurrent csprng.Read", func() { close(start); wg.Wait() }) {
		return nil, false
	}
	var all [][]byte
	for g := range out {
		if errs[g] != "" {
			c.Violate("read-result", "%s", errs[g])
			return nil, false
		}
		all = append(all, out[g]...)
	}
	c.Obs("reads", int64(len(all)))
	return all, true
}

func partition(c *C, keyIV []byte, parts [][]byte, G int) bool {
	total := 0
	for _, b := range parts {
		total += len(b)
	}
	st := stream(ctrAt(keyIV, 0), total)
	idx := make(map[[12]byte]int, total)
	for x := 0; x+12 <= total; x++ {
		var k [12]byte
		copy(k[:], st[x:])
		idx[k] = x
	}
	used := make([]bool, total)
	for _, b := range parts {
		c.Eval(1)
		c.Obs("stream bytes", int64(len(b)))
		var k [12]byte
		copy(k[:], b)
		x, ok := idx[k]
		if !ok || x+len(b) > total || !bytes.Equal(st[x:x+len(b)], b) {
			c.ViolateD(map[string]any{"key_iv": Hex(keyIV), "got": Hex(b)}, "stream", "concurrent reads (%d readers) of one source: a read of %d bytes is not a part of the first %d bytes of the stream, which all reads together must be", G, len(b), total)
			return false
		}
		for y := x; y < x+len(b); y++ {
			if used[y] {
				c.ViolateD(map[string]any{"key_iv": Hex(keyIV), "got": Hex(b)}, "overlap", "concurrent reads (%d readers) of one source: the stream bytes at offset %d were delivered to two readers", G, y)
				return false
			}
			used[y] = true
		}
	}
	return true
}
