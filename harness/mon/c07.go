//go:build !386

package mon

import (
	"bytes"
	"fmt"
	"time"

	"a.verif/vmon/ref"
	"github.com/fadhilkurnia/shamir/csprng"
)

func init() {
	register(&Monitor{
		ID:          "C07",
		Rule:        "a case is either the distribution of key, key-sharing coefficients and payload over the executions of one entry point, or one set of fewer than k distinct shares handed to Combine; distinct by (entry point, n, k, length, positions)",
		Configs:     []string{"native", "noasm", "warped"},
		Warp:        []string{"few"},
		Need:        map[string]int64{"opened splits": 40000, "refused sets": 20000},
		Assumptions: []string{"uniformity and independence are judged statistically as in C03; that fewer than k Shamir shares do not determine the key follows from coefficients that pass these tests"},
		Stages: []Stage{
			{Name: "slots", N: fixed(48, 480), Run: c07slots, Configs: []string{"native"}},
			{Name: "allk", N: fixed(12, 96), Run: c07allk, Configs: []string{"native"}},
			{Name: "keys", N: fixed(18, 108), Run: c07keys, Configs: []string{"native"}, OpCPU: 120 * time.Second},
			{Name: "payload", N: fixed(90, 900), Run: c07payload, Configs: []string{"native"}},
			{Name: "large", N: fixed(27, 270), Run: c07large, Configs: []string{"native"}, OpCPU: 120 * time.Second},
			{Name: "wide", N: fixed(45, 180), Run: c07wide, Configs: []string{"native"}},
			{Name: "rank", N: fixed(30, 180), Run: c07rank, Configs: []string{"native"}},
			{Name: "positions", N: fixed(24, 144), Run: c07positions, Configs: []string{"native"}, OpCPU: 120 * time.Second},
			{Name: "entropy", N: fixed(36, 180), Run: c07entropy, Configs: []string{"native"}},
			{Name: "few", N: fixed(160, 1600), Run: c07few},
			{Name: "fewgrid", N: fixed(254, 254*6), Run: c07fewgrid, Configs: []string{"native"}},
		},
	})
}

func openSSMS(c *C, sp Splitter, sh [][]byte, secret []byte, n, k int) *ref.SSMS {
	o, err := ref.OpenSSMS(sh, n, k)
	if err == nil && !bytes.Equal(o.Secret, secret) {
		err = fmt.Errorf("the shares hold other bytes: %s", Hex(o.Secret))
	}
	if err != nil {
		c.ViolateD(map[string]any{"secret": Hex(secret), "shares": hexes(sh)}, "not-a-sharing", "%s(len=%d, n=%d, k=%d): %v", sp.Name, len(secret), n, k, err)
		return nil
	}
	c.Obs("opened splits", 1)
	return o
}

func c07slots(c *C, i int) {
	mode := i / 3 % 2
	cfgs := []slotCfg{{6, 2, 3}, {4, 3, 4}, {18, 2, 2}, {5, 5, 24}}
	cfg := cfgs[i/6%len(cfgs)]
	fam := []string{"random", "zero", "ascii", "same"}[(i+i/6)%4]
	T := 8192
	if c.Thorough {
		T = 32768
	}
	mk := func(n int) [][]byte {
		o := make([][]byte, n)
		for j := range o {
			o[j] = make([]byte, T)
		}
		return o
	}
	key, sec, ct := mk(16), mk(cfg.l), mk(cfg.l)
	coef := mk(20 * (cfg.k - 1))
	xs := mk(min(cfg.n, 3))
	sps := ssmsSplitters()
	for t := 0; t < T; t++ {
		if mode == 1 {
			sps = ssmsSplittersOn(csprng.NewCSPRNG())
		}
		sp := sps[i%3]
		secret := mkSecret(c, fam, cfg.l)
		sh := checkSplit(c, sp, secret, cfg.n, cfg.k)
		if sh == nil {
			return
		}
		o := openSSMS(c, sp, sh, secret, cfg.n, cfg.k)
		if o == nil {
			return
		}
		for j := range key {
			key[j][t] = o.Key[j]
		}
		for j := range sec {
			sec[j][t], ct[j][t] = secret[j], o.Cipher[j]
		}
		for b := range o.Meta {
			for d := 1; d < cfg.k; d++ {
				coef[b*(cfg.k-1)+d-1][t] = o.Meta[b][d]
			}
		}
		for j := range xs {
			xs[j][t] = o.Points[j]
		}
	}
	var cols []column
	for j, v := range key {
		cols = append(cols, column{name: fmt.Sprintf("key byte %d", j), v: v[2:], uniform: true})
		if j < 4 || j == 15 {
			cols = append(cols, column{name: fmt.Sprintf("key byte %d one split earlier", j), v: v[1 : T-1], uniform: true, group: 1})
			cols = append(cols, column{name: fmt.Sprintf("key byte %d two splits earlier", j), v: v[:T-2], uniform: true, group: 1})
		}
	}
	for j, v := range coef {
		nm := fmt.Sprintf("coefficient %d of key-part byte %d", j%(cfg.k-1)+1, j/(cfg.k-1))
		cols = append(cols, column{name: nm, v: v[2:], uniform: true})
		if j < 3 {
			cols = append(cols, column{name: nm + " one split earlier", v: v[1 : T-1], uniform: true, group: 1})
		}
	}
	for j, v := range ct {
		if j < 5 || j >= 16 {
			cols = append(cols, column{name: fmt.Sprintf("ciphertext byte %d", j), v: v[2:], uniform: true})
		}
	}
	for j, v := range sec {
		if j < 5 || j >= 16 {
			cols = append(cols, column{name: fmt.Sprintf("secret byte %d", j), v: v[2:], group: 2})
		}
	}
	for j, v := range xs {
		cols = append(cols, column{name: fmt.Sprintf("point of share %d", j), v: v[2:], group: 2})
	}
	what := fmt.Sprintf("%s(len=%d, n=%d, k=%d), %s secrets, %s", sps[i%3].Name, cfg.l, cfg.n, cfg.k, fam, []string{"one source", "new source per split"}[mode])
	c.Distinct(what, i)
	testColumns(c, what, cols, nil)
	if i < 3 {
		c.Sample(map[string]any{"what": what, "executions": T, "columns": len(cols)})
	}
}

// c07allk: the key sharing for every threshold.
func c07allk(c *C, i int) {
	sps := ssmsSplitters()
	sp := sps[i%3]
	ta := tally{}
	for k := 2 + i/3%4; k <= 255; k += 4 {
		reps := 6
		if k < 30 {
			reps = 60
		}
		for r := 0; r < reps; r++ {
			n := min(255, k+r%3)
			secret := anySecret(c, 4)
			sh := checkSplit(c, sp, secret, n, k)
			if sh == nil {
				return
			}
			o := openSSMS(c, sp, sh, secret, n, k)
			if o == nil {
				return
			}
			c.Distinct(sp.Name, n, k, "allk")
			for b := range o.Meta {
				if rl, v := longestRun(o.Meta[b][1:]); rl >= 10 {
					c.Violate("not-uniform", "%s(n=%d, k=%d): key-part byte %d has %d consecutive coefficients %d", sp.Name, n, k, b, rl, v)
					return
				}
				for d := 1; d < k; d++ {
					v := o.Meta[b][d]
					ta.add("every key-part coefficient", v)
					if d <= 4 {
						ta.add(fmt.Sprintf("key-part coefficient %d", d), v)
					}
					if k-d <= 4 {
						ta.add(fmt.Sprintf("key-part coefficient k-%d", k-d), v)
					}
					ta.add(fmt.Sprintf("coefficient of key-part byte %d", b), v)
				}
			}
			for j, v := range o.Key {
				ta.add("key byte", v)
				ta.add(fmt.Sprintf("key byte %d", j), v)
			}
		}
	}
	ta.judge(c, sp.Name+" over all k", nil)
}

// c07keys: very many keys, two bytes of which are compared at a time, with the
// points and the sharing's coefficients.
func c07keys(c *C, i int) {
	sps := ssmsSplitters()
	T := 60000
	if c.Thorough {
		T = 250000
	}
	name := sps[i%3].Name
	// the smallest payloads and a few longer ones
	l := []int{1, 1, 2, 16, 17, 40}[i/3%6]
	n := 2 + i/3%2
	ta := tally{}
	secret := anySecret(c, l)
	var kb, sum [16]*[256]int
	var pair [16][16]*[256]int
	for x := range kb {
		kb[x], sum[x] = ta.get(fmt.Sprintf("key byte %d", x)), ta.get(fmt.Sprintf("key byte %d XOR its coefficient", x))
		for y := 0; y < x; y++ {
			pair[x][y] = ta.get(fmt.Sprintf("key byte %d XOR key byte %d", x, y))
		}
	}
	co, top := ta.get("the key sharing's coefficients"), ta.get("key bytes XOR first point")
	var last [16]byte
	before := ta.get("key bytes XOR those of the split before")
	for t := 0; t < T; t++ {
		if t%997 == 0 {
			if i%2 == 1 {
				sps = ssmsSplittersOn(csprng.NewCSPRNG())
			}
			secret = anySecret(c, l)
		}
		sh := checkSplit(c, sps[i%3], secret, n, 2)
		if sh == nil {
			return
		}
		if len(sh[0]) < 21 || len(sh[1]) < 21 {
			c.Violate("not-a-sharing", "%s: shares of %d and %d bytes", name, len(sh[0]), len(sh[1]))
			return
		}
		x0, x1 := sh[0][20], sh[1][20]
		if x0 == x1 {
			c.Violate("not-a-sharing", "%s: the point %d twice", name, x0)
			return
		}
		inv := ref.Inv(x0 ^ x1)
		var key [16]byte
		for b := range key {
			a1 := ref.Mul(sh[0][b]^sh[1][b], inv)
			key[b] = sh[0][b] ^ ref.Mul(a1, x0)
			kb[b][key[b]]++
			sum[b][key[b]^a1]++
			co[a1]++
			top[key[b]^x0]++
			before[key[b]^last[b]]++
			for y := 0; y < b; y++ {
				pair[b][y][key[b]^key[y]]++
			}
		}
		last = key
	}
	c.Obs("keys", int64(T))
	what := fmt.Sprintf("%s(len=%d, n=%d, k=2)", name, l, n)
	c.Distinct(what, i, "keys")
	ta.judge(c, what, nil)
}

// c07wide: many shares under low thresholds; the coefficients of the key
// sharing against its points, the key and the ciphertext.
func c07wide(c *C, i int) {
	sps := ssmsSplitters()
	sp := sps[i%len(sps)]
	nc, kc := i/len(sps)%5, i/len(sps)/5%3
	r := newRelTally()
	for rep := 0; rep < 500; rep++ {
		n, k := wideShape(c, nc, kc)
		secret := anySecret(c, c.Range(1, 40))
		sh := checkSplit(c, sp, secret, n, k)
		if sh == nil {
			return
		}
		o := openSSMS(c, sp, sh, secret, n, k)
		if o == nil {
			return
		}
		c.Distinct(sp.Name, "wide", n, k, len(secret))
		r.add(o.Meta, k, o.Points, o.Meta.Secret())
		var pts, key [256]bool
		for _, x := range o.Points {
			pts[x] = true
		}
		for _, x := range o.Key {
			key[x] = true
		}
		r.pairs("equal pairs of key bytes", o.Key)
		r.setHits("key bytes that are points", o.Key, &pts)
		r.setHits("ciphertext bytes that are key bytes", o.Cipher, &key)
		r.setHits("ciphertext bytes that are points", o.Cipher, &pts)
		for j, v := range o.Key {
			r.ta.add("key byte XOR point", v^o.Points[j%n])
			r.ta.add("key byte - point", v-o.Points[j%n])
		}
	}
	r.judge(c, fmt.Sprintf("%s, n=%d..%d, k class %d", sp.Name, wideN[nc][0], wideN[nc][1], kc))
}

// c07payload: payloads of all kinds of secrets look random and unrelated to
// the plaintext.
func c07payload(c *C, i int) {
	sps := ssmsSplitters()
	sp := sps[i%3]
	fam := secretFamilies[i/3%len(secretFamilies)]
	ta := tally{}
	for r := 0; r < 60; r++ {
		l := []int{1, 15, 16, 17, 31, 33, 48, 100, 255, 1000, 4096, 5001, 20000}[(r+i/27)%13]
		n := c.Range(2, 9)
		k := c.Range(2, n)
		secret := mkSecret(c, fam, l)
		sh := checkSplit(c, sp, secret, n, k)
		if sh == nil {
			return
		}
		o := openSSMS(c, sp, sh, secret, n, k)
		if o == nil {
			return
		}
		c.Distinct(sp.Name, n, k, l, fam)
		if l >= 12 && fam != "random" {
			// no stretch of the plaintext is visible in any share
			for x, s := range sh {
				body := s[ref.MetaLen : len(s)-1]
				for at := 0; at+winLen <= len(body); at += 7 {
					if bytes.Contains(secret, body[at:at+winLen]) {
						c.ViolateD(map[string]any{"secret": Hex(secret), "share": Hex(s)}, "plaintext", "%s(len=%d, n=%d, k=%d): the payload of share %d contains plaintext at %d", sp.Name, l, n, k, x, at)
						return
					}
				}
			}
		}
		if rl, v := longestRun(o.Cipher); rl >= 10 {
			c.Violate("not-uniform", "%s(len=%d, n=%d, k=%d): the ciphertext has %d consecutive bytes %d", sp.Name, l, n, k, rl, v)
			return
		}
		for j, v := range o.Cipher {
			ta.add("ciphertext byte", v)
			ta.add("ciphertext byte XOR secret byte", v^secret[j])
			ta.add(fmt.Sprintf("ciphertext byte %d mod 16", j%16), v)
			if j >= 16 {
				ta.add("ciphertext byte XOR that 16 bytes before", v^o.Cipher[j-16])
			}
		}
	}
	ta.judge(c, sp.Name+" payload of "+fam+" secrets", nil)
}

// refused checks that a set with fewer than k distinct shares is refused.
func c07refused(c *C, cb Combiner, in [][]byte, n, k int, how string) bool {
	var got []byte
	var err error
	if !c.Do(fmt.Sprintf("%s of %s (n=%d, k=%d)", cb.Name, how, n, k), func() { got, err = cb.Combine(in, n, k) }) {
		return false
	}
	c.Eval(1)
	c.Obs("refused sets", 1)
	if err == nil || len(got) != 0 {
		c.ViolateD(map[string]any{"shares": hexes(in), "got": Hex(got), "err": fmt.Sprint(err)}, "accepted", "%s of %s (n=%d, k=%d) returned %d bytes, error %v", cb.Name, how, n, k, len(got), err)
		return false
	}
	return true
}

func c07few(c *C, i int) {
	sps, cbs := ssmsSplitters(), ssmsCombiners()
	sp := sps[i%3]
	n := c.Range(2, 7)
	k := c.Range(2, n)
	l := []int{1, 2, 5, 16, 44, 100, k, 3 * k, 1000}[(i/3+i)%9]
	secret := anySecret(c, l)
	sh := checkSplit(c, sp, secret, n, k)
	if sh == nil {
		return
	}
	for m := 0; m < 1<<n; m++ {
		var s [][]byte
		inPlace := make([][]byte, n)
		for b := 0; b < n; b++ {
			if m>>b&1 == 1 {
				s = append(s, sh[b])
				inPlace[b] = sh[b]
			}
		}
		if len(s) >= k {
			continue
		}
		c.Distinct(sp.Name, n, k, l, m)
		if !c07refused(c, pick(c, cbs), inPlace, n, k, fmt.Sprintf("%d shares with nil holes", len(s))) {
			return
		}
		if !c07refused(c, pick(c, cbs), subset(c, s, len(s)), n, k, fmt.Sprintf("%d shares", len(s))) {
			return
		}
		if len(s) == 0 {
			continue
		}
		// filled up to and beyond k with copies, nil and empty entries
		for t := 0; t < 3; t++ {
			d := append([][]byte{}, s...)
			for len(d) < k+t {
				d = append(d, append([]byte(nil), pick(c, s)...))
			}
			if !c07refused(c, pick(c, cbs), subset(c, d, len(d)), n, k, fmt.Sprintf("%d shares with duplicates", len(s))) {
				return
			}
			d = append(append([][]byte{}, s...), nil, []byte{})
			for len(d) < k+t+2 {
				d = append(d, nil)
			}
			if !c07refused(c, pick(c, cbs), subset(c, d, len(d)), n, k, fmt.Sprintf("%d shares with empty entries", len(s))) {
				return
			}
		}
	}
	// the full set still combines
	checkCombine(c, pick(c, cbs), sh, n, k, secret, sp.Name)
	if i < 3 {
		c.Sample(map[string]any{"entry": sp.Name, "n": n, "k": k, "len": l, "sets": "all with fewer than k shares, with holes, copies, empty entries"})
	}
}

func c07fewgrid(c *C, i int) {
	sps, cbs := ssmsSplitters(), ssmsCombiners()
	n := i%254 + 2
	for t := 0; t < 6; t++ {
		k := c.Range(2, n)
		if t == 0 {
			k = n
		}
		if t > 2 && k > 60 {
			k = c.Range(2, min(n, 60))
		}
		l := c.Range(1, 50)
		sp := sps[(i+t)%3]
		secret := anySecret(c, l)
		sh := checkSplit(c, sp, secret, n, k)
		if sh == nil {
			return
		}
		for _, m := range []int{k - 1, 1, c.Range(1, k-1), (k + 1) / 2} {
			in, how := holes(c, sh, m)
			c.Distinct(sp.Name, n, k, l, m)
			if m < k && !c07refused(c, pick(c, cbs), in, n, k, fmt.Sprintf("%d shares (%s)", m, how)) {
				return
			}
		}
		in, how := holes(c, sh, k-1)
		var nn []byte
		for _, s := range in {
			if s != nil {
				nn = s
			}
		}
		in = append(in, nn)
		if !c07refused(c, pick(c, cbs), in, n, k, fmt.Sprintf("%d shares and a copy (%s)", k-1, how)) {
			return
		}
	}
}

// c07large: payloads of up to megabytes hold nothing of the plaintext, do not
// repeat, and are unrelated to those of another split of the same secret.
func c07large(c *C, i int) {
	sps := ssmsSplitters()
	sp := sps[i%3]
	top := 21
	if c.Thorough {
		top = 24
	}
	l := hugeLen(c, i/3, 15, top)
	if i/3%3 == 2 {
		l = c.Range(1<<14, 1<<17)
	}
	if i/3%9 == 8 {
		l = []int{5, 9, 18}[(i+i/27)%3]<<20 + c.IntN(1<<20)
	}
	n := c.Range(2, 4)
	k := c.Range(2, n)
	fam := []string{"random", "zero", "ascii"}[(i+i/3)%3]
	secret := mkSecret(c, fam, l)
	if fam == "ascii" { // no repetitions in it
		for j := range secret {
			secret[j] = byte('a' + c.src.Uint64()%26)
		}
	}
	set := newSparseSet()
	if fam != "zero" {
		set.add(c, secret, "the secret")
	}
	var keys [][]byte
	for r := 0; r < 2; r++ {
		sh := checkSplit(c, sp, secret, n, k)
		if sh == nil {
			return
		}
		what := fmt.Sprintf("%s(len=%d, n=%d, k=%d)", sp.Name, l, n, k)
		c.Distinct(what)
		for x, s := range sh {
			body := s[ref.MetaLen : len(s)-1]
			if rl, v := longestRun(body[:max(0, len(body)-k)]); rl >= 10 {
				c.Violate("not-uniform", "%s: the payload of share %d has %d consecutive bytes %d", what, x, rl, v)
				return
			}
			if hit := set.add(c, body, fmt.Sprintf("the payload of share %d of split %d", x, r)); hit != "" {
				c.Violate("plaintext", "two splits of %d bytes, %s: %s", l, what, hit)
				return
			}
		}
		o := openSSMS(c, sp, sh, secret, n, k)
		if o == nil {
			return
		}
		for _, b := range keys {
			if bytes.Equal(b, o.Key) {
				c.Violate("same-key", "%s: two splits of the same secret have the key %x", what, b)
				return
			}
		}
		keys = append(keys, o.Key)
		ta := tally{}
		for j, v := range o.Cipher {
			ta.add("ciphertext byte", v)
			ta.add("ciphertext byte XOR secret byte", v^secret[j])
		}
		ta.judge(c, what, nil)
	}
}

// c07positions makes the same SSMS split again and again: no byte of the
// payload, wherever it stands, keeps its value or follows the plaintext.
func c07positions(c *C, i int) {
	sps := ssmsSplitters()
	sp := sps[i%len(sps)]
	v := i / len(sps)
	l := []int{1 << 18, 1 << 20, 40000, 1 << 16}[v%4]
	runs := 8
	if v%4 >= 2 {
		runs = 66
	}
	l += []int{0, 1, c.IntN(l/2) + 1}[v/4%3]
	if c.Thorough {
		l *= 2
	}
	k := c.Range(2, 5)
	n := k + c.IntN(2)
	what := fmt.Sprintf("%s(len=%d, n=%d, k=%d)", sp.Name, l, n, k)
	c.Distinct(what)
	self := &stuck{name: "the ciphertext byte"}
	sec := &stuck{name: "the ciphertext byte XOR the secret's"}
	left := &stuck{name: "the ciphertext byte XOR the next one"}
	for r := 0; r < runs; r++ {
		secret := mkSecret(c, "random", l)
		if r == 0 {
			clear(secret)
		}
		sh := checkSplit(c, sp, secret, n, k)
		if sh == nil {
			return
		}
		o := openSSMS(c, sp, sh, secret, n, k)
		if o == nil {
			return
		}
		ct := o.Cipher
		self.add(func(j int) byte { return ct[j] }, l)
		sec.add(func(j int) byte { return ct[j] ^ secret[j] }, l)
		left.add(func(j int) byte { return ct[j] ^ ct[j+1] }, l-1)
	}
	_ = self.judge(c, what) && sec.judge(c, what) && left.judge(c, what)
}

// c07rank does the same for keys, their coefficients, points and payloads.
func c07rank(c *C, i int) {
	sps := ssmsSplitters()
	sp := sps[i%len(sps)]
	k := []int{2, 3, 4, 6, 2}[i/len(sps)%5]
	n := c.Range(k, k+8)
	l := c.Range(max(k, 16), 60)
	splits := 1 + i/len(sps)/5%2
	per := 16 + 20*(k-1) + n + 32
	a := newPointSpan(splits*per, func(x int) bool { return x%per >= 16+20*(k-1) && x%per < 16+20*(k-1)+n })
	var v []byte
	for t := 0; t < a.all.need(); t++ {
		v = v[:0]
		for s := 0; s < splits; s++ {
			secret := c.Bytes(l)
			sh := checkSplit(c, sp, secret, n, k)
			if sh == nil {
				return
			}
			o := openSSMS(c, sp, sh, secret, n, k)
			if o == nil {
				return
			}
			v = append(v, o.Key...)
			for b := range o.Meta {
				v = append(v, o.Meta[b][1:]...)
			}
			v = append(v, o.Points...)
			v = append(v, secret[:16]...)
			v = append(v, o.Cipher[:16]...)
		}
		a.add(v)
	}
	what := fmt.Sprintf("%d calls of %s(len=%d, n=%d, k=%d)", splits, sp.Name, l, n, k)
	c.Distinct(what)
	a.judge(c, what, func(x int) string {
		s, x := x/per, x%per
		switch {
		case x < 16:
			return fmt.Sprintf("key byte %d, split %d", x, s)
		case x < 16+20*(k-1):
			return fmt.Sprintf("coefficient %d of key-part byte %d, split %d", (x-16)%(k-1)+1, (x-16)/(k-1), s)
		case x < 16+20*(k-1)+n:
			return fmt.Sprintf("point %d, split %d", x-16-20*(k-1), s)
		case x < per-16:
			return fmt.Sprintf("plaintext byte %d, split %d", x-(per-32), s)
		}
		return fmt.Sprintf("ciphertext byte %d, split %d", x-(per-16), s)
	})
}
