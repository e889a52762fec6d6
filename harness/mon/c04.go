package mon

import (
	"crypto/aes"
	"crypto/cipher"
	"fmt"

	"a.verif/vmon/ref"
	"github.com/fadhilkurnia/shamir/csprng"
)

func init() {
	register(&Monitor{
		ID:      "C04",
		Rule:    "a case is one share set; distinct by entry point, n, k and the list of points; hostile source states have key streams that start with 255, 0 or repeated bytes",
		Configs: []string{"native", "noasm", "warped"},
		Warp:    []string{"small"},
		Need:    map[string]int64{"share sets": 100000, "hostile streams": 300},
		Stages: []Stage{
			{Name: "alln", N: fixed(254*5, 254*40), Run: c04alln},
			{Name: "small", N: fixed(152*3, 152*20), Run: c04small, Configs: []string{"native"}},
			{Name: "hostile", N: fixed(160, 1600), Run: c04hostile, Configs: []string{"native"}},
		},
	})
}

// c04check checks the points of one share set.
func c04check(c *C, sp Splitter, sh [][]byte, secret []byte, n, k int, deep bool, how string) bool {
	at := len(secret)
	if sp.SSMS {
		at = ref.MetaLen - 1
	}
	var seen [256]int
	c.Eval(1)
	c.Obs("share sets", 1)
	for i, s := range sh {
		want := at + 1
		if sp.SSMS {
			want = (len(secret)+k-1)/k + ref.Overhead
		}
		if len(s) != want {
			c.ViolateD(map[string]any{"shares": hexes(sh)}, "length", "%s(len=%d, n=%d, k=%d)%s: share %d has %d bytes, want %d", sp.Name, len(secret), n, k, how, i, len(s), want)
			return false
		}
		x := s[at]
		if x == 0 {
			c.ViolateD(map[string]any{"secret": Hex(secret), "shares": hexes(sh)}, "zero-point", "%s(len=%d, n=%d, k=%d)%s: share %d has the point 0: it is the secret itself", sp.Name, len(secret), n, k, how, i)
			return false
		}
		if j := seen[x]; j != 0 {
			c.ViolateD(map[string]any{"shares": hexes(sh)}, "same-point", "%s(len=%d, n=%d, k=%d)%s: shares %d and %d have the same point %d", sp.Name, len(secret), n, k, how, j-1, i, x)
			return false
		}
		seen[x] = i + 1
	}
	if deep {
		m := sh
		if sp.SSMS {
			m = make([][]byte, len(sh))
			for i := range sh {
				m[i] = sh[i][:ref.MetaLen]
			}
		}
		if _, err := ref.Recover(m, k); err != nil {
			c.ViolateD(map[string]any{"secret": Hex(secret), "shares": hexes(sh)}, "not-a-point", "%s(len=%d, n=%d, k=%d)%s: the last byte of the shares is not their evaluation point: %v", sp.Name, len(secret), n, k, how, err)
			return false
		}
	}
	return true
}

func c04alln(c *C, i int) {
	n := i%254 + 2
	reps := 24
	if n < 20 {
		reps = 60
	}
	for _, sp := range allSplitters() {
		if sp.SSMS && c.Config != "native" {
			continue
		}
		for r := 0; r < reps; r++ {
			k := 2
			if r%8 == 1 {
				k = c.Range(2, min(n, 24))
			}
			secret := anySecret(c, 1+r%3)
			sh := checkSplit(c, sp, secret, n, k)
			if sh == nil || !c04check(c, sp, sh, secret, n, k, r < 3 && n > k, "") {
				return
			}
			var pts []byte
			for _, s := range sh {
				pts = append(pts, s[len(s)-1])
			}
			c.Distinct(sp.Name, n, k, pts)
		}
	}
}

// c04small: many executions where unique bytes are drawn one by one.
func c04small(c *C, i int) {
	n := i%19 + 2
	for _, sp := range allSplitters() {
		reps := 800
		if sp.Name != "shamir.SplitWithRandomizer" && sp.Name != "worker.Split(shamir)" {
			reps = 200
		}
		for r := 0; r < reps; r++ {
			secret := []byte{byte(r), 7}
			sh := checkSplit(c, sp, secret, n, 2)
			if sh == nil || !c04check(c, sp, sh, secret, n, 2, false, "") {
				return
			}
		}
	}
	c.Distinct("small", n, i)
}

// hostileKey searches a key/IV whose key stream begins in a chosen hostile way.
func hostileKey(c *C, kind int) ([]byte, []byte) {
	keyIV := make([]byte, 32)
	st := make([]byte, 48)
	zero := make([]byte, 48)
	for t := 0; t < 1<<21; t++ {
		if t%256 == 0 {
			c.Fill(keyIV[:16])
		}
		c.Fill(keyIV[16:])
		b, _ := aes.NewCipher(keyIV[:16])
		cipher.NewCTR(b, keyIV[16:]).XORKeyStream(st, zero)
		ff, z, dup := 0, 0, 0
		var seen [256]bool
		for _, v := range st[:16] {
			if v == 255 {
				ff++
			}
			if v == 0 {
				z++
			}
			if seen[v] {
				dup++
			}
			seen[v] = true
		}
		ok := false
		switch kind {
		case 0: // 255 among the first two
			ok = st[0] == 255 || st[1] == 255
		case 1: // 0 among the first two
			ok = st[0] == 0 || st[1] == 0
		case 2: // 255 twice or more in the first 16
			ok = ff >= 2
		case 3:
			ok = z >= 2
		case 4: // first two equal
			ok = st[0] == st[1]
		case 5: // many repetitions
			ok = dup >= 4
		case 6: // a repetition whose replacement (next byte of the stream) is 255 or repeats again
			ok = st[0] == st[1] && (st[2] == 255 || st[2] == st[0])
		case 7: // 255 whose replacement is 255 again, for n=2..4
			for n := 2; n <= 4; n++ {
				for j := 0; j < n; j++ {
					ok = ok || st[j] == 255 && st[n] == 255
				}
			}
		case 8: // 254 and 255 next to each other
			ok = st[0] == 254 && st[1] == 255 || st[0] == 255 && st[1] == 254
		case 9: // an 0xff run or 00 run in the first 32 bytes
			for j := 0; j+1 < 32; j++ {
				ok = ok || st[j] == 255 && st[j+1] == 255
			}
		}
		if ok {
			return append([]byte(nil), keyIV...), append([]byte(nil), st...)
		}
	}
	return nil, nil
}

func c04hostile(c *C, i int) {
	kind := i % 10
	for rep := 0; rep < 4; rep++ {
		key, st := hostileKey(c, kind)
		if key == nil {
			continue
		}
		c.Obs("hostile streams", 1)
		how := fmt.Sprintf(" with a source whose key stream starts %x (key and IV %x)", st[:24], key)
		for n := 2; n <= 255; n++ {
			if n > 24 && n%16 != i%16 && n < 250 {
				continue
			}
			sps := shamirSplittersOn(csprng.NewCSPRNGWithKeyIV(key), csprng.NewCSPRNGWithKeyIV(key))[1:3]
			sps = append(sps, ssmsWith(csprng.NewCSPRNGWithKeyIV(key))...)
			for _, sp := range sps {
				secret := []byte{1, 2, 3}
				sh := checkSplit(c, sp, secret, n, 2)
				if sh == nil || !c04check(c, sp, sh, secret, n, 2, n == 7, how) {
					return
				}
				c.Distinct(sp.Name, n, key)
			}
		}
		// the hostile bytes may also be met later in the stream
		src := csprng.NewCSPRNGWithKeyIV(key)
		for n := 2; n < 22; n++ {
			for _, sp := range shamirSplittersOn(src, src)[1:3] {
				secret := []byte{9}
				sh := checkSplit(c, sp, secret, n, 2)
				if sh == nil || !c04check(c, sp, sh, secret, n, 2, false, how) {
					return
				}
			}
		}
		if rep == 0 && i < 10 {
			c.Sample(map[string]any{"key_iv": Hex(key), "stream": Hex(st), "kind": kind})
		}
	}
}
