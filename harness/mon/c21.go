//go:build !386

package mon

import (
	"bytes"
	"encoding/binary"
	"fmt"

	"a.verif/vmon/ref"
	"github.com/fadhilkurnia/shamir/csprng"
	"github.com/fadhilkurnia/shamir/galois"
	"github.com/fadhilkurnia/shamir/krawczyk"
	"github.com/fadhilkurnia/shamir/randomizer"
	"github.com/fadhilkurnia/shamir/shamir"
)

func init() {
	register(&Monitor{
		ID:      "C21",
		Rule:    "a case is one recorded history of operations on long-lived workers and sources; before every operation the contents buffers get on their way back to the internal pools are chosen anew; every outcome is predicted by the model or was recorded when the same operation ran early in the history; distinct by the sequence of operations",
		Configs: []string{"native", "noasm", "warped"},
		Warp:    []string{"refusals", "long", "streak"},
		Need: map[string]int64{"operations": 600000, "splits judged": 200000, "combines judged": 150000, "refusals": 80000, "replays": 40000,
			"coefficients": 10000000, "shrunk": 80000, "grown": 80000},
		Assumptions: []string{"whether an operation must succeed is predicted from the properties on requests and share sets (C08, C09, C17); a malformed set whose outcome these leave open must have the outcome it had the first time"},
		Setup:       func(c *C) { c21hook() },
		Stages: []Stage{
			{Name: "mixed", N: fixed(900, 9000), Run: c21mixed},
			{Name: "refusals", N: fixed(300, 3000), Run: c21refusals},
			{Name: "sizes", N: fixed(243, 2430), Run: c21sizes},
			{Name: "long", N: fixed(24, 64), Run: c21long},
			{Name: "streak", N: fixed(48, 192), Run: c21streak, Configs: []string{"native"}},
		},
	})
}

// c21state is what lives through one history.
type c21state struct {
	c        *C
	sps      []Splitter
	cbs, scb []Combiner
	w        workerPair
	src      *csprng.CSPRNG
	rz       *randomizer.Randomizer
	seen     map[uint64]int // windows of coefficients -> operation
	keep     []c21set
	replays  []c21replay
	tile     []byte
	lastLen  int
	t        int
	trace    []byte
	wb       []byte
}

type c21set struct {
	sh     [][]byte
	n, k   int
	secret []byte
	ssms   bool
	p      ref.Poly
	op     int
}

type c21replay struct {
	what string
	at   int
	run  func() (out [][]byte, failed bool)
	out  [][]byte
	fail bool
}

func newC21(c *C) *c21state {
	w := newWorker()
	src := csprng.NewCSPRNG()
	// one worker for both algorithms, one source for all that takes one
	sps := []Splitter{
		{"worker.Split(shamir)", false, func(s []byte, n, k int) ([][]byte, error) { return w.Split(algShamir, s, n, k) }},
		{"worker.Split(krawczyk)", true, func(s []byte, n, k int) ([][]byte, error) { return w.Split(algSSMS, s, n, k) }},
		{"shamir.Split", false, shamir.Split},
		{"shamir.SplitWithRandomizer", false, func(s []byte, n, k int) ([][]byte, error) { return shamir.SplitWithRandomizer(s, n, k, src) }},
		{"shamir.SplitWithRandomizerOld", false, func(s []byte, n, k int) ([][]byte, error) {
			return shamir.SplitWithRandomizerOld(s, n, k, src)
		}},
		{"shamir.SplitGeneric", false, shamir.SplitGeneric},
		{"shamir.SplitP", false, shamir.SplitP},
		{"krawczyk.Split", true, krawczyk.Split},
		{"krawczyk.SplitWithRandomizer", true, func(s []byte, n, k int) ([][]byte, error) { return krawczyk.SplitWithRandomizer(s, n, k, src) }},
	}
	return &c21state{c: c, sps: sps, w: w, src: src, rz: randomizer.NewRandomizer(), seen: map[uint64]int{},
		cbs: []Combiner{{"shamir.Combine", false, func(s [][]byte, n, k int) ([]byte, error) { return shamir.Combine(s) }},
			{"worker.Combine(shamir)", false, func(s [][]byte, n, k int) ([]byte, error) { return w.Combine(algShamir, s, n, k) }}},
		scb: []Combiner{{"krawczyk.Combine", true, krawczyk.Combine},
			{"worker.Combine(krawczyk)", true, func(s [][]byte, n, k int) ([]byte, error) { return w.Combine(algSSMS, s, n, k) }}},
	}
}

// next chooses the contents of recycled buffers for the next operation.
func (s *c21state) next(kind byte) {
	c := s.c
	var tile []byte
	switch c.IntN(6) {
	case 0:
		tile = []byte{0xa5}
	case 1:
		tile = []byte{0}
	case 2:
		tile = []byte{0xff}
	case 3:
		if len(s.keep) > 0 {
			tile = append(tile, pick(c, s.keep).secret...)
			break
		}
		fallthrough
	default:
		tile = c.Bytes(32)
	}
	if len(tile) > 32 {
		tile = tile[:32]
	}
	s.tile = tile
	c21fill.Store(&tile)
	s.t++
	s.trace = append(s.trace, kind)
	c.Obs("operations", 1)
}

func (s *c21state) viol(d map[string]any, key, format string, a ...any) bool {
	if d == nil {
		d = map[string]any{}
	}
	tr := s.trace
	if len(tr) > 400 {
		tr = tr[len(tr)-400:]
	}
	d["history"] = string(tr)
	d["recycled_contents"] = Hex(s.tile)
	s.c.ViolateD(d, key, "operation %d: %s", s.t, fmt.Sprintf(format, a...))
	return false
}

// coefficients checks fresh coefficients: not the recycled contents, not
// those of an earlier operation.
func (s *c21state) coefficients(p ref.Poly, k int, how string) bool {
	c := s.c
	l := len(p)
	c.Obs("coefficients", int64(l*(k-1)))
	flat := s.wb[:0]
	for _, q := range p {
		flat = append(flat, q[1:k]...)
	}
	s.wb = flat
	if len(flat) < 8 {
		return true
	}
	tile := s.tile
	T := len(tile)
	// a run of 8 or more coefficients equal to a tiling of the buffer, in
	// either layout, at any shift
	all, part := p, l
	if l*(k-1) > 8000 {
		part = min(l, max(64, 8000/(k-1)))
		off := c.IntN(l - part + 1)
		p, l = p[off:off+part], part
	}
	for shift := 0; shift < T; shift++ {
		run, run2, at, at2 := 0, 0, shift, shift
		for j := 0; j < l; j++ {
			at++ // the constant term
			if at == T {
				at = 0
			}
			for d := 1; d < k; d++ {
				if p[j][d] == tile[at] {
					run++
					if run >= 8 {
						return s.viol(nil, "recycled", "%s: coefficients equal the contents left in recycled buffers (byte %d, degree %d)", how, j, d)
					}
				} else {
					run = 0
				}
				at++
				if at == T {
					at = 0
				}
			}
		}
		for d := 1; d < k; d++ {
			for j := 0; j < l; j++ {
				if p[j][d] == tile[at2] {
					run2++
					if run2 >= 8 {
						return s.viol(nil, "recycled", "%s: coefficients equal the contents left in recycled buffers (byte %d, degree %d)", how, j, d)
					}
				} else {
					run2 = 0
				}
				at2++
				if at2 == T {
					at2 = 0
				}
			}
		}
	}
	p, l = all, len(all)
	// repeated windows
	zero := 0
	for i := 0; i+8 <= len(flat); i++ {
		w := binary.LittleEndian.Uint64(flat[i:])
		if op, ok := s.seen[w]; ok {
			return s.viol(map[string]any{"window": Hex(flat[i : i+8])}, "repeated", "%s: eight coefficients are those of operation %d", how, op)
		}
		if w == 0 {
			zero++
		}
	}
	if zero > 0 {
		return s.viol(nil, "zero", "%s: eight coefficients in a row are 0", how)
	}
	if len(s.seen) < 200000 {
		for i := 0; i+8 <= len(flat); i += 8 {
			s.seen[binary.LittleEndian.Uint64(flat[i:])] = s.t
		}
	}
	return true
}

// split performs one valid split and judges it fully.
func (s *c21state) split(sp Splitter, l, n, k int) bool {
	c := s.c
	secret := anySecret(c, l)
	if l > s.lastLen {
		c.Obs("grown", 1)
	} else if l < s.lastLen {
		c.Obs("shrunk", 1)
	}
	s.lastLen = l
	how := fmt.Sprintf("%s(len=%d, n=%d, k=%d)", sp.Name, l, n, k)
	var sh [][]byte
	var err error
	if !c.Do(how, func() { sh, err = sp.Split(append([]byte(nil), secret...), n, k) }) {
		return false
	}
	c.Eval(1)
	d := map[string]any{"secret": Hex(secret), "shares": hexes(sh)}
	if err != nil {
		return s.viol(d, "split-error", "%s failed: %v", how, err)
	}
	set := c21set{sh: sh, n: n, k: k, secret: secret, ssms: sp.SSMS, op: s.t}
	var cf ref.Poly
	if sp.SSMS {
		o, e := ref.OpenSSMS(sh, n, k)
		if e != nil || !bytes.Equal(o.Secret, secret) {
			return s.viol(d, "wrong-shares", "%s: the shares do not hold the secret: %v", how, e)
		}
		cf = o.Meta
		// keys are fresh, too
		w := binary.LittleEndian.Uint64(o.Key)
		if op, ok := s.seen[w]; ok || bytes.Contains(bytes.Repeat(s.tile, 48), o.Key) {
			return s.viol(d, "key", "%s: the key was used in operation %d or is what recycled buffers contained", how, op)
		}
		s.seen[w] = s.t
	} else {
		p, e := ref.Recover(sh, k)
		if len(sh) != n {
			e = fmt.Errorf("%d shares", len(sh))
		}
		if e != nil || !bytes.Equal(p.Secret(), secret) {
			return s.viol(d, "wrong-shares", "%s: the shares do not hold the secret: %v", how, e)
		}
		cf, set.p = p, p
	}
	for x, b := range sh {
		if b[len(b)-1] == 0 && !sp.SSMS {
			return s.viol(d, "zero-point", "%s: share %d has the point 0", how, x)
		}
	}
	c.Obs("splits judged", 1)
	if !s.coefficients(cf, k, how) {
		return false
	}
	if len(s.keep) < 40 {
		s.keep = append(s.keep, set)
	} else {
		s.keep[c.IntN(40)] = set
	}
	return true
}

// combine recovers a set kept from earlier.
func (s *c21state) combine() bool {
	c := s.c
	if len(s.keep) == 0 {
		return true
	}
	g := pick(c, s.keep)
	sub := subset(c, g.sh, c.Range(g.k, min(g.n, g.k+3)))
	cb := pick(c, s.cbs)
	if g.ssms {
		cb = pick(c, s.scb)
	}
	var got []byte
	var err error
	how := fmt.Sprintf("%s(%d shares, n=%d, k=%d) of the shares made in operation %d", cb.Name, len(sub), g.n, g.k, g.op)
	if !c.Do(how, func() { got, err = cb.Combine(sub, g.n, g.k) }) {
		return false
	}
	c.Eval(1)
	c.Obs("combines judged", 1)
	if err != nil || !bytes.Equal(got, g.secret) {
		return s.viol(map[string]any{"secret": Hex(g.secret), "got": Hex(got), "shares": hexes(sub)}, "combine", "%s did not return the secret (error %v)", how, err)
	}
	return true
}

// refused makes a request that must fail.
func (s *c21state) refused() bool {
	c := s.c
	var err error
	var how string
	switch x := c.IntN(8); {
	case x < 4 || len(s.keep) == 0:
		sp := pick(c, s.sps)
		n, k, l := c.Range(2, 20), c.Range(2, 20), c.Range(1, 900)
		switch c.IntN(5) {
		case 0:
			l = 0
			k = min(k, n)
		case 1:
			n, k = k, n
			if k <= n {
				k = n + 1
			}
		case 2:
			k = c.IntN(2)
		case 3:
			n = 256 + c.IntN(40)
		case 4:
			n, k = -c.IntN(5), c.Range(-3, 5)
		}
		secret := c.Bytes(l)
		how = fmt.Sprintf("%s(len=%d, n=%d, k=%d)", sp.Name, l, n, k)
		var sh [][]byte
		if !c.Do(how, func() { sh, err = sp.Split(secret, n, k) }) {
			return false
		}
		if err == nil {
			return s.viol(nil, "accepted", "%s was accepted with %d shares", how, len(sh))
		}
	case x < 6:
		g := pick(c, s.keep)
		in := clone(subset(c, g.sh, g.k))
		cb := pick(c, s.cbs)
		if g.ssms {
			cb = pick(c, s.scb)
		}
		switch c.IntN(4) {
		case 0:
			in = nil
		case 1:
			in = in[:1]
		case 2:
			if g.ssms {
				in[c.IntN(len(in))] = c.Bytes(c.IntN(10))
			} else {
				in[c.IntN(len(in))] = nil
			}
		case 3:
			x := c.IntN(len(in))
			in[x] = append([]byte(nil), in[(x+1)%len(in)]...)
		}
		if g.ssms && len(in) == 1 && g.k < 2 {
			return true
		}
		how = fmt.Sprintf("%s of a malformed set of %d shares", cb.Name, len(in))
		var got []byte
		if !c.Do(how, func() { got, err = cb.Combine(in, g.n, g.k) }) {
			return false
		}
		if err == nil {
			return s.viol(map[string]any{"shares": hexes(in)}, "accepted", "%s was accepted, with %d bytes", how, len(got))
		}
	default:
		g := pick(c, s.keep)
		if g.ssms {
			return true
		}
		m := len(g.sh)
		cnt := 256 - m + c.IntN(300)
		if c.IntN(3) == 0 {
			cnt = -1 - c.IntN(300)
		}
		how = fmt.Sprintf("Regenerate(%d shares, %d)", m, cnt)
		var sh [][]byte
		if !c.Do(how, func() { sh, err = shamir.Regenerate(g.sh, cnt) }) {
			return false
		}
		if err == nil {
			return s.viol(nil, "accepted", "%s was accepted, with %d shares", how, len(sh))
		}
	}
	c.Eval(1)
	c.Obs("refusals", 1)
	return true
}

// regenerate judges new shares of a kept set against its polynomials.
func (s *c21state) regenerate() bool {
	c := s.c
	var l []c21set
	for _, g := range s.keep {
		if g.p != nil && g.k <= 40 {
			l = append(l, g)
		}
	}
	if len(l) == 0 {
		return true
	}
	g := pick(c, l)
	sub := subset(c, g.sh, c.Range(g.k, min(g.n, g.k+4)))
	cnt := c.IntN(6)
	if c.IntN(8) == 0 {
		cnt = 255 - len(sub)
	}
	how := fmt.Sprintf("Regenerate(%d shares, %d) of operation %d", len(sub), cnt, g.op)
	var nw [][]byte
	var err error
	if !c.Do(how, func() { nw, err = shamir.Regenerate(sub, cnt) }) {
		return false
	}
	c.Eval(1)
	d := map[string]any{"given": hexes(sub), "new": hexes(nw)}
	if err != nil || len(nw) != cnt {
		return s.viol(d, "regenerate", "%s gave %d shares, error %v", how, len(nw), err)
	}
	for _, b := range nw {
		if len(b) != len(sub[0]) || b[len(b)-1] == 0 || !bytes.Equal(b, g.p.MakeShares(b[len(b)-1:])[0]) {
			d["bad"] = Hex(b)
			return s.viol(d, "regenerate", "%s gave a share that is not on the secret polynomials", how)
		}
	}
	c.Obs("regenerations judged", 1)
	for t := c.IntN(6); t > 0 && cnt > 0; t-- {
		if !s.chain(g, sub, nw) {
			return false
		}
	}
	return true
}

// chain combines, right after a regeneration, lists in which given and new
// shares follow one another, and lists of other sets at the same points.
func (s *c21state) chain(g c21set, sub, nw [][]byte) bool {
	c := s.c
	in := append([][]byte(nil), sub...)
	want := g.p
	how := "the given shares"
	x := c.IntN(7)
	switch x {
	case 0, 1, 2:
		in = append(in, nw[len(nw)-1])
		how = "the given and the last new share"
	case 3:
		in = append(in, nw[:c.Range(1, len(nw))]...)
		how = "the given and new shares"
	case 4:
		in = append(append([][]byte(nil), nw[len(nw)-1:]...), in...)
		how = "the last new and the given shares"
	case 5:
		in = append(append([][]byte(nil), nw...), in...)
		how = "the new and the given shares"
	}
	if c.IntN(4) == 0 {
		in = subset(c, in, len(in))
		how += " (shuffled)"
	}
	if c.IntN(3) == 0 { // another secret at the same points
		want = ref.RandPoly(anySecret(c, c.Range(1, 20)), g.k, c.Fill)
		xs := make([]byte, len(in))
		for j, b := range in {
			xs[j] = b[len(b)-1]
		}
		in = want.MakeShares(xs)
		how = "other shares with the points of " + how
	}
	s.next('j')
	var got []byte
	var err error
	cb := pick(c, s.cbs)
	if !c.Do(cb.Name+" of "+how, func() { got, err = cb.Combine(in, g.n, g.k) }) {
		return false
	}
	c.Eval(1)
	c.Obs("combines judged", 1)
	if err != nil || !bytes.Equal(got, want.Secret()) {
		return s.viol(map[string]any{"secret": Hex(want.Secret()), "got": Hex(got), "shares": hexes(in)}, "combine", "%s of %s did not return the secret (error %v)", cb.Name, how, err)
	}
	if x == 6 || len(want) != len(g.p) {
		m := c.Range(1, 3)
		if m > 255-len(in) {
			return true
		}
		s.next('g')
		var more [][]byte
		if !c.Do("Regenerate of "+how, func() { more, err = shamir.Regenerate(in, m) }) {
			return false
		}
		for _, b := range more {
			if len(b) != len(in[0]) || b[len(b)-1] == 0 || !bytes.Equal(b, want.MakeShares(b[len(b)-1:])[0]) {
				return s.viol(map[string]any{"given": hexes(in), "bad": Hex(b)}, "regenerate", "Regenerate of %s gave a share that is not on the secret polynomials", how)
			}
		}
	}
	return true
}

// reads draws from the long-lived sources.
func (s *c21state) reads() bool {
	c := s.c
	var bad string
	c.Do("random reads", func() {
		switch c.IntN(5) {
		case 0:
			b := make([]byte, c.IntN(3000))
			n, err := s.src.Read(b)
			if n != len(b) || err != nil {
				bad = fmt.Sprintf("Read of %d bytes returned %d, %v", len(b), n, err)
			}
			bad = s.stale(b, bad)
		case 1:
			b := make([]byte, c.IntN(3000))
			n, err := s.rz.Read(b)
			if n != len(b) || err != nil {
				bad = fmt.Sprintf("randomizer Read of %d bytes returned %d, %v", len(b), n, err)
			}
			bad = s.stale(b, bad)
		case 2, 3:
			n := byte(c.IntN(256))
			p := s.src.Perm(n)
			if c.IntN(2) == 0 {
				p = s.rz.Perm(n)
			}
			var seen [256]bool
			for _, v := range p {
				if v >= n || seen[v] {
					bad = fmt.Sprintf("Perm(%d) is not a permutation: %v", n, p)
				}
				seen[v] = true
			}
			if len(p) != int(n) {
				bad = fmt.Sprintf("Perm(%d) has %d entries", n, len(p))
			}
		case 4:
			n := byte(c.IntN(256))
			p := s.src.GetUniqueBytes(n)
			var seen [256]bool
			for _, v := range p {
				if v == 255 || seen[v] {
					bad = fmt.Sprintf("GetUniqueBytes(%d) gave 255 or a repetition: %v", n, p)
				}
				seen[v] = true
			}
			if len(p) != int(n) {
				bad = fmt.Sprintf("GetUniqueBytes(%d) has %d entries", n, len(p))
			}
		}
	})
	c.Eval(1)
	if bad != "" {
		return s.viol(nil, "read", "%s", bad)
	}
	return true
}

// field does arithmetic, also such that must panic, and judges it with the model.
func (s *c21state) field() bool {
	c := s.c
	a, b, n := byte(c.IntN(256)), byte(c.Range(1, 255)), c.IntN(1000)
	l := pick(c, []int{0, 1, 15, 16, 31, 32, 33, 64, 127, 128, 129, 255, 256, 300, c.IntN(3000)})
	v, w := c.Bytes(l), c.Bytes(l)
	// first, what must panic
	if c.IntN(2) == 0 {
		long := append(append([]byte(nil), w...), c.Bytes(c.Range(1, 40))...)
		for _, r := range []struct {
			what string
			do   func()
		}{
			{"GalDivide by zero", func() { galois.GalDivide(b, 0) }},
			{"AddVector of different lengths", func() { galois.AddVector(v, long) }},
			{"AddVector of different lengths", func() { galois.AddVector(long, v) }},
			{"AddVectorGeneric of different lengths", func() { galois.AddVectorGeneric(v, long) }},
			{"AddVectorBatchGeneric of different lengths", func() { galois.AddVectorBatchGeneric(long, v) }},
		} {
			if c.IntN(2) == 0 {
				continue
			}
			c.Eval(1)
			c.Obs("panics", 1)
			if pan, _ := c.Try(r.what, r.do); pan == nil {
				return s.viol(nil, "accepted", "%s did not panic", r.what)
			}
		}
	}
	var got [4]byte
	if !c.Do("field operations", func() {
		got = [4]byte{galois.GalMultiply(a, b), galois.GalMultiplyLogExp(a, b), galois.GalDivide(a, b), galois.GalExp(a, n)}
	}) {
		return false
	}
	c.Eval(1)
	if want := [4]byte{ref.Mul(a, b), ref.Mul(a, b), ref.Div(a, b), ref.Pow(a, uint64(n))}; got != want {
		return s.viol(nil, "field", "%d*%d, again, %d/%d, %d^%d: %v, in the field they are %v", a, b, a, b, a, n, got, want)
	}
	for _, r := range []struct {
		what string
		add  func(a, b []byte) []byte
		mul  func(byte, []byte) []byte
	}{
		{"AddVector and MulConstVector", galois.AddVector, galois.MulConstVector},
		{"AddVectorGeneric and MulConstVectorGeneric", galois.AddVectorGeneric, galois.MulConstVectorGeneric},
		{"AddVectorBatchGeneric", galois.AddVectorBatchGeneric, nil},
	} {
		var sum, prod []byte
		if !c.Do(r.what, func() {
			sum = append(sum, r.add(v, append([]byte(nil), w...))...)
			if r.mul != nil {
				prod = append(prod, r.mul(a, append([]byte(nil), w...))...)
			}
		}) {
			return false
		}
		c.Eval(1)
		if len(sum) != l || r.mul != nil && len(prod) != l {
			return s.viol(nil, "field", "%s of %d bytes give %d and %d", r.what, l, len(sum), len(prod))
		}
		for x := range sum {
			if sum[x] != v[x]^w[x] || r.mul != nil && prod[x] != ref.Mul(a, w[x]) {
				return s.viol(nil, "field", "%s of %d bytes are wrong at %d", r.what, l, x)
			}
		}
	}
	return true
}

func (s *c21state) stale(b []byte, bad string) string {
	if bad == "" && len(b) >= 8 {
		rep := bytes.Repeat(s.tile, 1+16/len(s.tile))
		for i := 0; i+8 <= len(rep) && i < len(s.tile); i++ {
			if bytes.Contains(b, rep[i:i+8]) {
				return "random bytes contain what recycled buffers contained"
			}
		}
	}
	return bad
}

// record runs a deterministic operation and keeps its outcome.
func (s *c21state) record(what string, run func() ([][]byte, bool)) bool {
	r := c21replay{what: what, at: s.t, run: run}
	if !s.c.Do(what, func() { r.out, r.fail = run() }) {
		return false
	}
	r.out = clone(r.out)
	s.replays = append(s.replays, r)
	return true
}

func (s *c21state) replay() bool {
	c := s.c
	if len(s.replays) == 0 {
		return true
	}
	r := pick(c, s.replays)
	var out [][]byte
	var fail bool
	if !c.Do(r.what, func() { out, fail = r.run() }) {
		return false
	}
	c.Eval(1)
	c.Obs("replays", 1)
	d := map[string]any{"first": hexes(r.out), "now": hexes(out)}
	if fail != r.fail {
		return s.viol(d, "outcome", "%s: failed %v in operation %d, but %v now", r.what, r.fail, r.at, fail)
	}
	if len(out) != len(r.out) || firstDiff(r.out, out) >= 0 {
		return s.viol(d, "outcome", "%s: the result differs from that in operation %d", r.what, r.at)
	}
	return true
}

// records adds deterministic operations: combining good and bad sets, and
// everything with a keyed source of its own.
func (s *c21state) records() bool {
	c := s.c
	keyIV := c.Bytes(32)
	secret := anySecret(c, c.Range(1, 200))
	n := c.Range(2, 12)
	k := c.Range(2, n)
	if !s.record("a source with a given key", func() (o [][]byte, f bool) {
		r := csprng.NewCSPRNGWithKeyIV(append([]byte(nil), keyIV...))
		x := make([]byte, 77)
		_, e1 := r.Read(x)
		o = append(o, x, r.Perm(100), r.GetUniqueBytes(20))
		sh, e2 := shamir.SplitWithRandomizer(secret, n, k, r)
		o = append(o, sh...)
		sh, e3 := krawczyk.SplitWithRandomizer(secret, n, k, r)
		o = append(o, sh...)
		sh, e4 := shamir.SplitWithRandomizerOld(secret, n, k, r)
		return append(o, sh...), e1 != nil || e2 != nil || e3 != nil || e4 != nil
	}) {
		return false
	}
	if len(s.keep) == 0 {
		return true
	}
	for t := 0; t < 4; t++ {
		g := pick(c, s.keep)
		in := clone(subset(c, g.sh, g.k))
		what := "intact"
		if t > 0 {
			in, what = mutateSet(c, in, g.ssms)
		}
		cb := pick(c, s.cbs)
		if g.ssms {
			cb = pick(c, s.scb)
		}
		n, k := g.n, g.k
		if !s.record(fmt.Sprintf("%s of a set of %d shares (%s)", cb.Name, len(in), what), func() ([][]byte, bool) {
			got, err := cb.Combine(clone(in), n, k)
			return [][]byte{got}, err != nil
		}) {
			return false
		}
	}
	return true
}

// sizes of the next split; the profile makes buffers grow and shrink.
func (s *c21state) params(profile int) (l, n, k int) {
	c := s.c
	switch profile {
	case 0: // anything small
		l, n = c.Range(1, 64), c.Range(2, 9)
		k = c.Range(2, n)
	case 1: // alternately large and tiny
		if s.t%2 == 0 {
			l, n, k = c.Range(500, 3000), c.Range(3, 5), 2
			if s.t%400 == 0 {
				l = c.Range(10000, 70000)
			}
		} else {
			l, n = c.Range(1, 5), c.Range(3, 12)
			k = c.Range(2, n)
		}
	case 2: // growing
		l, n = 1+(s.t*7)%700, c.Range(2, 6)
		k = c.Range(2, n)
	case 3: // shrinking
		l, n = 700-(s.t*7)%700, c.Range(2, 6)
		k = c.Range(2, n)
	case 4: // large thresholds after small ones
		l = c.Range(1, 30)
		n = c.Range(2, 255)
		k = c.Range(2, min(n, 60))
		if s.t%3 != 0 {
			k = 2
		}
	case 5: // around the vector widths
		l, n = max(1, pick(c, []int{8, 16, 32, 48, 64, 96, 128, 256})+c.Range(-1, 1)), c.Range(2, 7)
		k = c.Range(2, n)
	}
	return
}

func (s *c21state) step(profile int) bool {
	c := s.c
	switch x := c.IntN(20); {
	case x < 8:
		s.next('s')
		l, n, k := s.params(profile)
		return s.split(pick(c, s.sps), l, n, k)
	case x < 13:
		s.next('c')
		return s.combine()
	case x < 15:
		s.next('!')
		return s.refused()
	case x < 16:
		s.next('g')
		return s.regenerate()
	case x < 18:
		s.next('r')
		if c.IntN(4) == 0 {
			return s.field()
		}
		return s.reads()
	default:
		s.next('=')
		return s.replay()
	}
}

func (s *c21state) finish(what string) {
	s.c.Obs("buffers overwritten", c21puts.Swap(0))
	s.c.Distinct(what, s.c.I, s.trace)
	if s.c.I < 1 {
		s.c.Sample(map[string]any{"history": string(s.trace[:min(300, len(s.trace))]), "operations": s.t, "windows_kept": len(s.seen)})
	}
}

func c21mixed(c *C, i int) {
	s := newC21(c)
	for t := 0; t < 320; t++ {
		if t == 20 || t == 60 || t == 150 {
			if !s.records() {
				return
			}
		}
		if !s.step((i + t/40) % 6) {
			return
		}
	}
	s.finish("mixed")
}

// c21refusals: after every kind of refused request, valid ones.
func c21refusals(c *C, i int) {
	s := newC21(c)
	for t := 0; t < 120; t++ {
		for j := c.Range(1, 6); j > 0; j-- {
			s.next('!')
			if !s.refused() {
				return
			}
		}
		l, n, k := s.params((i + t) % 6)
		s.next('s')
		if !s.split(s.sps[t%len(s.sps)], l, n, k) {
			return
		}
		s.next('c')
		if !s.combine() {
			return
		}
		if t == 10 && !s.records() {
			return
		}
		if t%4 == 0 {
			s.next('=')
			if !s.replay() {
				return
			}
		}
	}
	s.finish("refusals")
}

// c21sizes: one entry point after another at every pair of sizes.
func c21sizes(c *C, i int) {
	s := newC21(c)
	ls := []int{1, 2, 3, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 129, 500, 2000}
	a, b := s.sps[i%len(s.sps)], s.sps[(i/len(s.sps)+i)%len(s.sps)]
	for _, l1 := range ls {
		for _, l2 := range ls {
			if c.IntN(3) > 0 {
				continue
			}
			n := c.Range(2, 7)
			s.next('s')
			if !s.split(a, l1, n, c.Range(2, n)) {
				return
			}
			n = c.Range(2, 7)
			s.next('s')
			if !s.split(b, l2, n, c.Range(2, n)) {
				return
			}
			s.next('c')
			if !s.combine() {
				return
			}
		}
	}
	s.finish("sizes")
}

// c21long: tens of thousands of small operations in one process.
func c21long(c *C, i int) {
	s := newC21(c)
	m := 6000
	if c.Thorough {
		m = 40000
	}
	for t := 0; t < m; t++ {
		if t == 20 || t == m/2 {
			if !s.records() {
				return
			}
		}
		p := 0
		if t/500%4 == 3 {
			p = 5
		}
		if !s.step(p) {
			return
		}
	}
	s.finish("long")
}

// c21streak: tens of thousands of operations of one kind, refused or
// successful, on one worker and one source, and then one of every kind.
func c21streak(c *C, i int) {
	s := newC21(c)
	w, src, rz := s.w, s.src, s.rz
	good := func(sp Splitter) [][]byte {
		var sh [][]byte
		c.Do(sp.Name, func() { sh, _ = sp.Split([]byte("streak"), 4, 2) })
		return sh
	}
	a, b := good(s.sps[0]), good(s.sps[1])
	if len(a) != 4 || len(b) != 4 {
		s.viol(nil, "split-error", "a first split failed")
		return
	}
	long, quick := 70000, 70000
	if !c.Thorough {
		quick = 6000
	}
	// what is done again and again, whether it succeeds, and how often
	type kind struct {
		name string
		m    int
		ok   bool
		run  func(t int) error
	}
	small := func(t int) []byte { return []byte{byte(t), byte(t >> 8)}[:1+t%2] }
	split := func(x int, m int) kind {
		sp := s.sps[x]
		return kind{sp.Name, m, true, func(t int) error {
			sh, err := sp.Split(small(t), 2, 2)
			if err == nil && t%64 == 0 {
				cb := s.cbs[1]
				if sp.SSMS {
					cb = s.scb[1]
				}
				got, e := cb.Combine(sh, 2, 2)
				if e != nil || !bytes.Equal(got, small(t)) {
					return fmt.Errorf("its shares do not combine (%v)", e)
				}
			}
			return err
		}}
	}
	same := func(want string, got []byte, err error) error {
		if err == nil && string(got) != want {
			err = fmt.Errorf("%q instead of %q", got, want)
		}
		return err
	}
	kinds := []kind{
		{"worker.Split(shamir) with k > n", long, false, func(t int) error { _, err := w.Split(algShamir, small(t), 3, 4); return err }},
		{"worker.Split(krawczyk) with k > n", long, false, func(t int) error { _, err := w.Split(algSSMS, small(t), 3, 4); return err }},
		{"worker.Split of nothing", long, false, func(t int) error {
			_, err := w.Split([]string{algShamir, algSSMS}[t%2], nil, 3, 2)
			return err
		}},
		{"worker.Split by an unknown name", long, false, func(t int) error { _, err := w.Split("rsa", small(t), 3, 2); return err }},
		{"worker.Combine by an unknown name", long, false, func(t int) error { _, err := w.Combine("", a, 4, 2); return err }},
		{"worker.Combine(shamir) of one share", long, false, func(t int) error { _, err := w.Combine(algShamir, a[:1], 4, 2); return err }},
		{"worker.Combine(shamir) of a share twice", long, false, func(t int) error {
			_, err := w.Combine(algShamir, [][]byte{a[0], a[1], a[0]}, 4, 2)
			return err
		}},
		{"worker.Combine(krawczyk) of one share", long, false, func(t int) error { _, err := w.Combine(algSSMS, b[t%4:t%4+1], 4, 2); return err }},
		{"worker.Combine(krawczyk) of a part with a wrong number", long, false, func(t int) error {
			x := bytes.Clone(b[0])
			x[len(x)-1] = 200
			_, err := w.Combine(algSSMS, [][]byte{x, b[1]}, 4, 2)
			return err
		}},
		{"worker.Combine of no shares", long, false, func(t int) error {
			_, err := w.Combine([]string{algShamir, algSSMS}[t%2], nil, 4, 2)
			return err
		}},
		{"Regenerate with too many", long, false, func(t int) error { _, err := shamir.Regenerate(a, 253+t%9); return err }},
		{"Regenerate of one share", long, false, func(t int) error { _, err := shamir.Regenerate(a[:1], 1); return err }},
		{"shamir.Combine of different lengths", long, false, func(t int) error { _, err := shamir.Combine([][]byte{a[0], a[1][1:]}); return err }},
		{"krawczyk.Combine of short shares", long, false, func(t int) error { _, err := krawczyk.Combine([][]byte{b[0][:9], b[1][:9]}, 4, 2); return err }},
		{"shamir.SplitWithRandomizer with n > 255", long, false, func(t int) error { _, err := shamir.SplitWithRandomizer(small(t), 256, 2, src); return err }},
		{"krawczyk.SplitWithRandomizer with k = 1", long, false, func(t int) error { _, err := krawczyk.SplitWithRandomizer(small(t), 3, 1, src); return err }},
		{"worker.Combine(shamir)", quick, true, func(t int) error {
			got, err := w.Combine(algShamir, a[t%3:t%3+2], 4, 2)
			return same("streak", got, err)
		}},
		{"worker.Combine(krawczyk)", quick, true, func(t int) error {
			got, err := w.Combine(algSSMS, b[t%3:t%3+2], 4, 2)
			return same("streak", got, err)
		}},
		{"Regenerate", quick, true, func(t int) error {
			x, err := shamir.Regenerate(a, 2)
			if err == nil && len(x) != 2 {
				err = fmt.Errorf("%d shares", len(x))
			}
			return err
		}},
		{"csprng.Read", long, true, func(t int) error {
			var x [3]byte
			n, err := src.Read(x[:1+t%3])
			if err == nil && n != 1+t%3 {
				err = fmt.Errorf("%d bytes", n)
			}
			return err
		}},
		{"csprng.GetUniqueBytes", quick, true, func(t int) error {
			if x := src.GetUniqueBytes(byte(1 + t%40)); len(x) != 1+t%40 {
				return fmt.Errorf("%d bytes", len(x))
			}
			return nil
		}},
		{"randomizer.Read", long, true, func(t int) error {
			var x [3]byte
			n, err := rz.Read(x[:1+t%3])
			if err == nil && n != 1+t%3 {
				err = fmt.Errorf("%d bytes", n)
			}
			return err
		}},
	}
	for x := range s.sps {
		kinds = append(kinds, split(x, long))
	}
	kd := kinds[i%len(kinds)]
	if i/len(kinds) > 0 && i >= 2*len(kinds) { // two kinds in turn
		o := pick(c, kinds)
		p := kd
		kd = kind{p.name + " and " + o.name + " in turn", min(p.m, o.m), p.ok, func(t int) error {
			if t%2 == 1 {
				if err := o.run(t); (err == nil) != o.ok {
					return fmt.Errorf("%s: %v", o.name, err)
				}
			}
			return p.run(t)
		}}
	}
	c21fill.Store(nil) // filling large buffers as often takes too long
	for t := 0; t < kd.m; t++ {
		var err error
		if !c.Do(kd.name, func() { err = kd.run(t) }) {
			return
		}
		if (err == nil) != kd.ok {
			s.viol(nil, "streak", "%s, time %d in a row: error %v", kd.name, t+1, err)
			return
		}
	}
	c.Eval(int64(kd.m))
	c.Obs("operations in streaks", int64(kd.m))
	for _, x := range c.R.Perm(len(s.sps)) {
		s.next('s')
		n := c.Range(2, 7)
		if !s.split(s.sps[x], c.Range(1, 100), n, c.Range(2, n)) {
			return
		}
		s.next('c')
		if !s.combine() {
			return
		}
	}
	got, err := w.Combine(algShamir, a[2:], 4, 2)
	if err == nil && string(got) == "streak" {
		got, err = w.Combine(algSSMS, b[2:], 4, 2)
	}
	if err != nil || string(got) != "streak" {
		s.viol(nil, "streak", "after %d times %s, shares made before no longer combine: %q, %v", kd.m, kd.name, got, err)
		return
	}
	s.next('g')
	if !s.regenerate() {
		return
	}
	for t := 0; t < 200; t++ {
		if !s.step(0) {
			return
		}
	}
	s.finish("streak of " + kd.name)
}
