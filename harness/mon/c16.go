//go:build !386

package mon

import (
	"bytes"
	"fmt"
	"runtime/debug"
	"sort"
	"syscall"
	"unsafe"

	"a.verif/vmon/ref"
	"github.com/fadhilkurnia/shamir/csprng"
	"github.com/fadhilkurnia/shamir/galois"
	"github.com/fadhilkurnia/shamir/krawczyk"
	"github.com/fadhilkurnia/shamir/randomizer"
	"github.com/fadhilkurnia/shamir/shamir"
)

func init() {
	register(&Monitor{
		ID:      "C16",
		Rule:    "a case is a history of operations of which all inputs and outputs are kept; the memory reachable from each (up to its capacity) is compared, inputs are checked after every call, outputs are overwritten and appended to, and what was kept is checked against its snapshot",
		Configs: []string{"native", "noasm", "warped"},
		Warp:    []string{"history"},
		Need:    map[string]int64{"operations": 80000, "address ranges": 150000, "outputs overwritten": 20000, "appends": 30000},
		Setup:   func(c *C) { poisonPools(false, true) },
		Stages: []Stage{
			{Name: "single", N: fixed(2400, 30000), Run: c16single},
			{Name: "inputs", N: fixed(1600, 20000), Run: c16inputs},
			{Name: "readonly", N: fixed(800, 8000), Run: c16readonly},
			{Name: "history", N: fixed(240, 3600), Run: c16history},
			{Name: "keys", N: fixed(200, 2000), Run: c16keys},
		},
	})
}

// disjoint checks that no two of the ranges share memory.
func disjoint(c *C, l []addrRange, how string) bool {
	sort.Slice(l, func(a, b int) bool { return l[a].lo < l[b].lo })
	c.Obs("address ranges", int64(len(l)))
	c.Eval(int64(len(l)))
	for i := 1; i < len(l); i++ {
		if l[i].lo < l[i-1].hi {
			c.Violate("shared-memory", "%s: %s and %s share memory (%d bytes)", how, l[i-1].what, l[i].what, min(l[i-1].hi, l[i].hi)-l[i].lo)
			return false
		}
	}
	return true
}

func addRanges(l []addrRange, s [][]byte, what string) []addrRange {
	for i, b := range s {
		if r, ok := rangeOf(b, fmt.Sprintf("%s %d", what, i)); ok {
			l = append(l, r)
		}
	}
	return l
}

func addRange(l []addrRange, b []byte, what string) []addrRange {
	if r, ok := rangeOf(b, what); ok {
		l = append(l, r)
	}
	return l
}

// withRoom returns a copy of b inside a larger canary-filled array.
func withRoom(c *C, b []byte) (in, whole, snap []byte) {
	pre, post := c.IntN(20), c.IntN(60)
	whole = make([]byte, pre+len(b)+post)
	c.Fill(whole)
	copy(whole[pre:], b)
	snap = append([]byte(nil), whole...)
	if c.IntN(3) == 0 {
		return whole[pre : pre+len(b) : pre+len(b)], whole, snap
	}
	return whole[pre : pre+len(b)], whole, snap
}

// c16single: one split, everything about its memory.
func c16single(c *C, i int) {
	sps := allSplitters()
	sp := sps[i%len(sps)]
	n := c.Range(2, 12)
	switch i / len(sps) % 10 {
	case 0:
		n = c.Range(100, 255)
	case 1:
		n = c.Range(13, 100)
	}
	k := c.Range(2, n)
	if n > 60 {
		k = c.Range(2, 8)
	}
	l := c.Range(1, 70)
	switch i % 5 {
	case 0:
		l = []int{1, k, 2 * k, 15, 16, 17, 31, 32, 33, 64, 128}[i/5%11]
	case 1:
		l = c.Range(70, 1500)
	}
	secret := anySecret(c, l)
	in, whole, snap := withRoom(c, secret)
	sh := checkSplit(c, sp, in, n, k)
	if sh == nil {
		return
	}
	c.Obs("operations", 1)
	c.Distinct(sp.Name, n, k, l)
	how := fmt.Sprintf("%s(len=%d, n=%d, k=%d)", sp.Name, l, n, k)
	if !bytes.Equal(whole, snap) {
		c.ViolateD(map[string]any{"secret": Hex(secret)}, "input-changed", "%s changed the secret or the memory around it", how)
		return
	}
	if !disjoint(c, addRange(addRanges(nil, sh, "share"), whole, "the secret"), how) {
		return
	}
	orig := clone(sh)
	// overwrite the secret: shares must not change
	c.Fill(whole)
	if x := firstDiff(sh, orig); x >= 0 {
		c.Violate("keeps-input", "%s: share %d changed when the secret was overwritten afterwards", how, x)
		return
	}
	// append to and overwrite each share in turn: the others stay
	for t := 0; t < min(n, 12); t++ {
		x := c.IntN(n)
		if t < 2 {
			x = t * (n - 1)
		}
		c.Obs("appends", 1)
		_ = append(sh[x], c.Bytes(c.Range(1, 40))...)
		_ = append(sh[x][:0], bytes.Repeat([]byte{0xdd}, len(sh[x])+c.IntN(4))...)
		c.Obs("outputs overwritten", 1)
		for y := range sh {
			if y != x && !bytes.Equal(sh[y], orig[y]) {
				c.Violate("shared-memory", "%s: writing or appending to share %d changed share %d", how, x, y)
				return
			}
		}
		copy(sh[x], orig[x])
	}
	// combine: the inputs stay, the output is its own
	cbs := shamirCombiners()
	if sp.SSMS {
		cbs = ssmsCombiners()
	}
	sub := subset(c, sh, c.Range(k, n))
	hdr := append([][]byte(nil), sub...)
	for _, cb := range cbs {
		in := make([][]byte, len(sub), len(sub)+3)
		copy(in, sub)
		if sp.SSMS && c.IntN(2) == 0 {
			in = append(in, nil)
			hdr = append(hdr[:len(sub):len(sub)], nil)
		} else {
			hdr = hdr[:len(sub)]
		}
		var got []byte
		var err error
		if !c.Do(cb.Name, func() { got, err = cb.Combine(in, n, k) }) {
			return
		}
		c.Obs("operations", 1)
		if err != nil || !bytes.Equal(got, secret) {
			c.ViolateD(map[string]any{"shares": hexes(sub)}, "combine", "%s of %s: %v", cb.Name, how, err)
			return
		}
		for j := range hdr {
			if len(in[j]) != len(hdr[j]) || (len(in[j]) > 0 && &in[j][0] != &hdr[j][0]) {
				c.Violate("input-changed", "%s replaced entry %d of the list of shares passed to it", cb.Name, j)
				return
			}
		}
		if x := firstDiff(sh, orig); x >= 0 {
			c.Violate("input-changed", "%s changed share %d passed to it (%s)", cb.Name, x, how)
			return
		}
		if !disjoint(c, addRange(addRanges(nil, sh, "share"), got, "the recovered secret"), cb.Name+" after "+how) {
			return
		}
		_ = append(got, 1, 2, 3, 4, 5, 6, 7, 8)
		for j := range got {
			got[j] = 0x5a
		}
		c.Obs("outputs overwritten", 1)
		if x := firstDiff(sh, orig); x >= 0 {
			c.Violate("shared-memory", "%s: overwriting its result changed share %d", cb.Name, x)
			return
		}
	}
	if sp.SSMS || k > 60 {
		return
	}
	cnt := c.Range(0, min(8, 255-len(sub)))
	var nw [][]byte
	var err error
	if !c.Do("shamir.Regenerate", func() { nw, err = shamir.Regenerate(sub, cnt) }) {
		return
	}
	c.Obs("operations", 1)
	if err != nil || len(nw) != cnt {
		c.Violate("regenerate", "Regenerate(%d shares, %d): %d shares, %v", len(sub), cnt, len(nw), err)
		return
	}
	if x := firstDiff(sh, orig); x >= 0 {
		c.Violate("input-changed", "Regenerate changed share %d passed to it", x)
		return
	}
	if !disjoint(c, addRanges(addRanges(nil, sh, "share"), nw, "new share"), "Regenerate") {
		return
	}
	keep := clone(nw)
	for j := range sh {
		c.Fill(sh[j])
	}
	if x := firstDiff(nw, keep); x >= 0 {
		c.Violate("keeps-input", "new share %d changed when the given shares were overwritten afterwards", x)
		return
	}
	for x := range nw {
		c.Obs("appends", 1)
		_ = append(nw[x], c.Bytes(9)...)
		c.Fill(nw[x])
		c.Obs("outputs overwritten", 1)
		for y := range nw {
			if y > x && !bytes.Equal(nw[y], keep[y]) {
				c.Violate("shared-memory", "writing or appending to new share %d changed new share %d", x, y)
				return
			}
		}
	}
	if i < 2 {
		c.Sample(map[string]any{"entry": sp.Name, "n": n, "k": k, "len": l, "address_ranges_compared": n + 1})
	}
}

// c16inputs: shares inside larger arrays, in all positions, also malformed
// sets: inputs are never written.
func c16inputs(c *C, i int) {
	n := c.Range(2, 8)
	k := c.Range(2, n)
	secret := anySecret(c, c.Range(1, 200))
	if i/2%8 == 0 {
		n = c.Range(9, 255)
		k = c.Range(2, min(n, 30))
	}
	xs := pointList(c, n)
	ss := i%2 == 1
	var sh [][]byte
	var cbs []Combiner
	if ss {
		sh = ref.MakeSSMS(secret, c.Bytes(16), n, k, xs, c.Fill)
		cbs = ssmsCombiners()
	} else {
		sh = ref.RandPoly(secret, k, c.Fill).MakeShares(xs)
		cbs = shamirCombiners()
	}
	for t := 0; t < 12; t++ {
		src := subset(c, sh, c.Range(1, n))
		if t%3 == 2 {
			src, _ = mutateSet(c, clone(src), ss)
		}
		var in, wholes, snaps [][]byte
		if c.IntN(3) == 0 {
			// all shares in one array, next to one another
			var w []byte
			var at []int
			for _, s := range src {
				at = append(at, len(w))
				w = append(w, s...)
			}
			w = append(w, c.Bytes(40)...)
			for j, s := range src {
				in = append(in, w[at[j]:at[j]+len(s)])
			}
			wholes, snaps = [][]byte{w}, [][]byte{append([]byte(nil), w...)}
		} else {
			for _, s := range src {
				a, w, sn := withRoom(c, s)
				in, wholes, snaps = append(in, a), append(wholes, w), append(snaps, sn)
			}
		}
		hdr := append([][]byte(nil), in...)
		cb := pick(c, cbs)
		var got []byte
		var nw [][]byte
		op := cb.Name
		if !ss && t%2 == 0 {
			op = "shamir.Regenerate"
			c.Do(op, func() { nw, _ = shamir.Regenerate(in, 3) })
		} else {
			c.Do(op, func() { got, _ = cb.Combine(in, n, k) })
		}
		c.Obs("operations", 1)
		c.Eval(1)
		c.Distinct(op, n, k, len(secret), t, i)
		if x := firstDiff(wholes, snaps); x >= 0 {
			c.ViolateD(map[string]any{"before": Hex(snaps[x]), "after": Hex(wholes[x])}, "input-changed", "%s changed a share passed to it or memory around it (n=%d, k=%d, %d shares)", op, n, k, len(src))
			return
		}
		for j := range hdr {
			if len(hdr[j]) != len(in[j]) || cap(hdr[j]) != cap(in[j]) || (len(hdr[j]) > 0 && &hdr[j][0] != &in[j][0]) {
				c.Violate("input-changed", "%s replaced entry %d of the list of shares passed to it", op, j)
				return
			}
		}
		if !disjoint(c, addRange(addRanges(addRanges(nil, wholes, "input"), nw, "new share"), got, "result"), op) {
			return
		}
	}
}

// c16history: a long history on long-lived state; everything returned earlier
// is kept (or overwritten at once) and nothing changes it later.
func c16history(c *C, i int) {
	type kept struct {
		b, snap []byte
		what    string
	}
	var all []kept
	var sets []struct {
		sh     [][]byte
		n, k   int
		secret []byte
		ssms   bool
	}
	sps := allSplitters()
	cbs, scbs := shamirCombiners(), ssmsCombiners()
	src, rz := csprng.NewCSPRNG(), randomizer.NewRandomizer()
	keep := func(b []byte, what string) {
		if len(b) > 0 {
			all = append(all, kept{b, append([]byte(nil), b...), what})
		}
	}
	for t := 0; t < 90; t++ {
		var op string
		var outs [][]byte
		switch x := c.IntN(10); {
		case x < 4:
			n := c.Range(2, 6)
			if c.IntN(10) == 0 {
				n = c.Range(7, 90)
			}
			k := c.Range(2, min(n, 8))
			secret := anySecret(c, c.Range(1, 120))
			sp := pick(c, sps)
			op = fmt.Sprintf("operation %d, %s", t, sp.Name)
			keep(secret, fmt.Sprintf("the secret passed to operation %d", t))
			sh := checkSplit(c, sp, secret, n, k)
			if sh == nil {
				return
			}
			outs = sh
			sets = append(sets, struct {
				sh     [][]byte
				n, k   int
				secret []byte
				ssms   bool
			}{clone(sh), n, k, append([]byte(nil), secret...), sp.SSMS})
		case x < 7 && len(sets) > 0:
			s := pick(c, sets)
			l := cbs
			if s.ssms {
				l = scbs
			}
			cb := pick(c, l)
			op = fmt.Sprintf("operation %d, %s", t, cb.Name)
			var got []byte
			var err error
			in := clone(s.sh)
			if !c.Do(op, func() { got, err = cb.Combine(in, s.n, s.k) }) {
				return
			}
			c.Eval(1)
			if err != nil || !bytes.Equal(got, s.secret) {
				c.ViolateD(map[string]any{"secret": Hex(s.secret), "got": Hex(got)}, "affected", "%s of shares made earlier gives other bytes (%v): an operation was affected by what was written to other results", op, err)
				return
			}
			outs = [][]byte{got}
		case x < 8 && len(sets) > 0:
			s := pick(c, sets)
			if s.ssms {
				continue
			}
			op = fmt.Sprintf("operation %d, Regenerate", t)
			c.Do(op, func() { outs, _ = shamir.Regenerate(clone(s.sh), c.IntN(5)) })
		default:
			op = fmt.Sprintf("operation %d, random list", t)
			c.Do(op, func() {
				switch c.IntN(3) {
				case 0:
					outs = [][]byte{src.Perm(byte(c.IntN(256)))}
				case 1:
					outs = [][]byte{src.GetUniqueBytes(byte(c.IntN(256)))}
				case 2:
					outs = [][]byte{rz.Perm(byte(c.IntN(256)))}
				}
			})
		}
		c.Obs("operations", 1)
		if t%3 == 0 {
			// the caller scribbles over the results at once, also beyond their length
			for _, o := range outs {
				o = o[:cap(o)]
				for j := range o {
					o[j] = 0x77
				}
				c.Obs("outputs overwritten", 1)
			}
		}
		for j, o := range outs {
			keep(o, fmt.Sprintf("result %d of %s", j, op))
		}
		for _, k := range all {
			c.Eval(1)
			if !bytes.Equal(k.b, k.snap) {
				c.ViolateD(map[string]any{"was": Hex(k.snap), "is": Hex(k.b)}, "changed-later", "%s was changed by %s", k.what, op)
				return
			}
		}
	}
	var l []addrRange
	for _, k := range all {
		l = addRange(l, k.b, k.what)
	}
	disjoint(c, l, "a history of operations")
	c.Distinct("history", i)
}

// c16keys: the key material given to sources.
func c16keys(c *C, i int) {
	keyIV := c.Bytes(32)
	in, whole, snap := withRoom(c, keyIV)
	var a, b *csprng.CSPRNG
	c.Do("csprng.NewCSPRNGWithKeyIV", func() {
		a = csprng.NewCSPRNGWithKeyIV(in)
		b = csprng.NewCSPRNGWithKeyIV(append([]byte(nil), keyIV...))
	})
	use := func(r *csprng.CSPRNG) (o [][]byte) {
		c.Do("a keyed source", func() {
			x := make([]byte, 37)
			r.Read(x)
			o = append(o, x, r.Perm(77), r.GetUniqueBytes(9), r.GetUniqueBytes(200))
			s, _ := shamir.SplitWithRandomizer([]byte("twelve bytes"), 5, 3, r)
			o = append(o, s...)
			s, _ = krawczyk.SplitWithRandomizer([]byte("twelve bytes"), 5, 3, r)
			o = append(o, s...)
		})
		return
	}
	if i%2 == 0 {
		// change the caller's slice straight after construction
		c.Fill(whole)
		snap = append([]byte(nil), whole...)
	}
	for t := 0; t < 4; t++ {
		x, y := use(a), use(b)
		c.Obs("operations", 7)
		c.Eval(1)
		if firstDiff(x, y) >= 0 || len(x) != len(y) {
			c.ViolateD(map[string]any{"key_iv": Hex(keyIV)}, "keeps-input", "a keyed source depends on the slice it was created from after the caller reused that slice (round %d)", t)
			return
		}
		if !bytes.Equal(whole, snap) {
			c.Violate("input-changed", "a keyed source changed the key material passed to it")
			return
		}
		if !disjoint(c, addRange(addRanges(nil, x, "output"), whole, "the key"), "a keyed source") {
			return
		}
		// overwrite what came out, and the key
		for _, o := range x {
			o = o[:cap(o)]
			for j := range o {
				o[j] = 0x11
			}
			c.Obs("outputs overwritten", 1)
		}
		c.Fill(whole)
		snap = append([]byte(nil), whole...)
	}
	c.Distinct("keys", i)
}

// sealed is memory that can be filled and then be made unwritable.
type sealed struct {
	mem []byte
	off int
}

func newSealed(size int) *sealed {
	mem, err := syscall.Mmap(-1, 0, (size+pg-1)/pg*pg, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		Inconclusive("mmap: %v", err)
	}
	return &sealed{mem: mem}
}

// put copies b in, with room to spare.
func (s *sealed) put(b []byte, room int) []byte {
	from := s.off
	s.off += len(b) + room
	copy(s.mem[from:], b)
	return s.mem[from : from+len(b) : from+len(b)+room]
}

// list copies in a list and what it lists.
func (s *sealed) list(l [][]byte, room func() int) [][]byte {
	s.off = (s.off + 15) &^ 15
	h := unsafe.Slice((*[]byte)(unsafe.Pointer(&s.mem[s.off])), len(l)+2)
	s.off += (len(l) + 2) * int(unsafe.Sizeof(l[0]))
	for x, b := range l {
		if b == nil {
			h[x] = nil
			continue
		}
		h[x] = s.put(b, room())
	}
	return h[:len(l)]
}

func (s *sealed) seal() {
	if err := syscall.Mprotect(s.mem, syscall.PROT_READ); err != nil {
		Inconclusive("mprotect: %v", err)
	}
}

func (s *sealed) free() { syscall.Munmap(s.mem) }

// untouched runs f on sealed inputs; false if it wrote to them.
func (s *sealed) untouched(c *C, how string, f func()) bool {
	old := debug.SetPanicOnFault(true)
	pan, stack := c.Try(how, f)
	debug.SetPanicOnFault(old)
	c.Eval(1)
	c.Obs("operations on unwritable inputs", 1)
	if pan == nil {
		return true
	}
	at, fault := pan.(interface{ Addr() uintptr })
	lo := uintptr(unsafe.Pointer(&s.mem[0]))
	if fault && at.Addr() >= lo && at.Addr() < lo+uintptr(len(s.mem)) {
		c.Violate("input-written", "%s writes to its inputs while it runs (at byte %d of where they are)", how, at.Addr()-lo)
		c.res.Violations[len(c.res.Violations)-1].Stack = stack
		return false
	}
	c.Violate("panic", "%s on inputs in unwritable memory panicked: %v", how, pan)
	c.res.Violations[len(c.res.Violations)-1].Stack = stack
	return false
}

// c16readonly: inputs in memory that cannot be written to, so that a change
// for the time of an operation only is seen, too.
func c16readonly(c *C, i int) {
	room := func() int { return c.IntN(3) * c.IntN(30) }
	n := c.Range(2, 24)
	if i%10 == 3 {
		n = c.Range(100, 255)
	}
	k := c.Range(2, min(n, 30))
	l := pick(c, []int{1, 2, 15, 16, 17, 31, 33, 64, 100, 128, 200, 255, 256, 300, 1000, 1025, 3000})
	if n >= 100 {
		l = min(l, 64)
	}
	if i%100 == 57 {
		l, n, k = 70_001, 3, 2
	}
	secret := anySecret(c, l)
	sps := allSplitters()
	for r := 0; r < 3; r++ {
		sp := sps[(i*3+r)%len(sps)]
		s := newSealed(l + 100)
		in := s.put(secret, room())
		s.seal()
		ok := s.untouched(c, fmt.Sprintf("%s(len=%d, n=%d, k=%d)", sp.Name, l, n, k), func() { sp.Split(in, n, k) })
		if ok && r == 2 {
			ok = s.untouched(c, fmt.Sprintf("%s(len=%d, n=%d, k=%d) refused", sp.Name, l, n, k), func() { sp.Split(in, k-1, k) })
		}
		s.free()
		if !ok {
			return
		}
		c.Distinct("readonly", sp.Name, n, k, l)
	}
	for r, cb := range append(shamirCombiners(), ssmsCombiners()...) {
		var sh [][]byte
		if cb.SSMS {
			sh = ref.MakeSSMS(secret, c.Bytes(16), n, k, pointList(c, n), c.Fill)
		} else {
			sh = ref.RandPoly(secret, k, c.Fill).MakeShares(pointList(c, n))
		}
		sub, what := subset(c, sh, c.Range(k, n)), "genuine"
		if (i+r)%3 == 0 {
			sub, what = mutateSet(c, clone(sub), cb.SSMS)
		}
		size := 64 + (len(sub)+4)*(24+16)
		for _, b := range sub {
			size += len(b) + 60
		}
		s := newSealed(size)
		in := s.list(sub, room)
		s.seal()
		how := fmt.Sprintf("%s of %d shares (n=%d, k=%d, length %d, %s)", cb.Name, len(in), n, k, l, what)
		ok := s.untouched(c, how, func() { cb.Combine(in, n, k) })
		if ok && !cb.SSMS && l <= 300 {
			cnt := c.IntN(4)
			ok = s.untouched(c, fmt.Sprintf("Regenerate(%d) of %d shares (%s)", cnt, len(in), what), func() { shamir.Regenerate(in, cnt) })
		}
		s.free()
		if !ok {
			return
		}
		c.Distinct("readonly", cb.Name, len(sub), l, what)
	}
	// keys and first operands
	s := newSealed(l + 300)
	kiv, v := s.put(c.Bytes(32), room()), s.put(secret, 0)
	s.seal()
	out := make([]byte, l)
	if s.untouched(c, "csprng.NewCSPRNGWithKeyIV", func() {
		r := csprng.NewCSPRNGWithKeyIV(kiv)
		r.Read(out)
		shamir.SplitWithRandomizer(v, n, k, r)
	}) {
		s.untouched(c, "adding vectors", func() {
			galois.AddVector(v, append([]byte(nil), out...))
			galois.AddVectorGeneric(v, append([]byte(nil), out...))
			galois.AddVectorBatchGeneric(v, append([]byte(nil), out...))
		})
	}
	s.free()
}
