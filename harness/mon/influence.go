package mon

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	crand "crypto/rand"
	"fmt"
	"io"
	mrand "math/rand"
	"math/rand/v2"
	"sync"

	"a.verif/vmon/ref"
	"github.com/fadhilkurnia/shamir/csprng"
	"github.com/fadhilkurnia/shamir/shamir"
)

// predictable puts everything an attacker may know into the same state again:
// math/rand and, in the frozen configuration, the clock.
func predictable(seed int64) {
	//lint:ignore SA1019 this is the attack
	mrand.Seed(seed)
	freezeClock(1_600_000_000_000_000_000 + seed%300_000_000_000_000_000)
}

// flipReader is a fixed stream of entropy with one byte changed.
type flipReader struct {
	mu   sync.Mutex
	s    *rand.ChaCha8
	pos  int
	at   int // changed byte, or -1
	with byte
}

func (f *flipReader) Read(p []byte) (int, error) {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.s.Read(p)
	if x := f.at - f.pos; f.at >= 0 && x >= 0 && x < len(p) {
		p[x] ^= f.with
	}
	f.pos += len(p)
	return len(p), nil
}

// influencePieces changes how the entropy arrives.
var influencePieces func(io.Reader) io.Reader

// influence counts the bytes of the system's entropy on which what run returns
// depends. If run's result is a function of the entropy it reads at all, fewer
// than need such bytes mean that it takes at most 256^need values.
func influence(c *C, name, material string, need int, run func() []byte) bool {
	key := deriveKey(c.R.Uint64(), name)
	defer c.SetEntropy("influence", c.R.Uint64())
	read := 0
	at := func(x int, with byte) []byte {
		predictable(1)
		f := &flipReader{s: rand.NewChaCha8(key), at: x, with: with}
		crand.Reader = f
		if influencePieces != nil {
			crand.Reader = influencePieces(f)
		}
		b := run()
		if x < 0 {
			read = f.pos
		}
		freezeClock(0)
		return b
	}
	a := at(-1, 0)
	if a == nil {
		return true
	}
	if read == 0 {
		c.Obs("operations that read no entropy", 1)
		return true
	}
	if b := at(-1, 0); !bytes.Equal(a, b) {
		c.Obs("operations that are no function of the entropy they read", 1)
		return true
	}
	n := 0
	for x := 0; x < min(read, 1<<12) && n < need; x++ {
		for try := 0; try < 3; try++ {
			b := at(x, byte(c.Range(1, 255)))
			c.Eval(1)
			if b == nil {
				return true
			}
			if !bytes.Equal(a, b) {
				n++
				break
			}
		}
	}
	c.Obs("operations whose entropy was traced", 1)
	c.Distinct(name, material, "influence")
	if n < need {
		c.ViolateD(map[string]any{"entropy_bytes_read": read, "value": Hex(a)}, "little-entropy", "%s: the %s depend on %d bytes of entropy only (%d were read)", name, material, n, read)
		return false
	}
	return true
}

// consumed runs op with a source of a known key stream and returns how many
// bytes of it op has used up, or -1 if the source's position cannot be told.
func consumed(c *C, op func(src *csprng.CSPRNG) bool) int {
	keyIv := c.Bytes(32)
	src := csprng.NewCSPRNGWithKeyIV(append([]byte(nil), keyIv...))
	if !op(src) {
		return -1
	}
	next := make([]byte, 24)
	src.Read(next)
	blk, _ := aes.NewCipher(keyIv[:16])
	stream := make([]byte, 1<<17)
	cipher.NewCTR(blk, keyIv[16:]).XORKeyStream(stream, stream)
	return bytes.Index(stream, next)
}

// c03coef returns the coefficients of a split, in one piece.
func c03coef(c *C, sp Splitter, secret []byte, n, k int) []byte {
	sh := checkSplit(c, sp, secret, n, k)
	if sh == nil {
		return nil
	}
	p := recoverPoly(c, sp, sh, secret, n, k)
	if p == nil {
		return nil
	}
	return coefRow(p)
}

func coefRow(p ref.Poly) (row []byte) {
	for _, q := range p {
		row = append(row, q[1:]...)
	}
	return
}

// c03entropy traces the entropy behind coefficients.
func c03entropy(c *C, i int) {
	shapes := []slotCfg{{24, 3, 4}, {1, 20, 21}, {200, 2, 3}, {16, 2, 2}, {60, 9, 10}}
	s := shapes[i%len(shapes)]
	sps := []Splitter{
		{"shamir.Split", false, shamir.Split},
		{"shamir.SplitGeneric", false, shamir.SplitGeneric},
		{"shamir.SplitP", false, shamir.SplitP},
		{"shamir.SplitWithRandomizer with a new source", false, func(s []byte, n, k int) ([][]byte, error) {
			return shamir.SplitWithRandomizer(s, n, k, csprng.NewCSPRNG())
		}},
		{"shamir.SplitWithRandomizerOld with a new source", false, func(s []byte, n, k int) ([][]byte, error) {
			return shamir.SplitWithRandomizerOld(s, n, k, csprng.NewCSPRNG())
		}},
	}
	sps = append(sps, newWorkerShamir()...)
	sp := sps[i/len(shapes)%len(sps)]
	secret := mkSecret(c, pick(c, secretFamilies), s.l)
	need := min(16, s.l*(s.k-1))
	if !influence(c, fmt.Sprintf("%s(len=%d, n=%d, k=%d)", sp.Name, s.l, s.n, s.k), "coefficients", need, func() []byte { return c03coef(c, sp, secret, s.n, s.k) }) {
		return
	}
	// a source given by the caller: how much of it goes into a split
	for v, split := range []func([]byte, int, int, *csprng.CSPRNG) ([][]byte, error){shamir.SplitWithRandomizer, shamir.SplitWithRandomizerOld} {
		var first []byte
		key := c.Bytes(32)
		same := true
		for r := 0; r < 2; r++ { // a function of the source alone?
			g := csprng.NewCSPRNGWithKeyIV(append([]byte(nil), key...))
			row := c03coef(c, Splitter{"shamir split with a given source", false, func(s []byte, n, k int) ([][]byte, error) { return split(s, n, k, g) }}, secret, s.n, s.k)
			if row == nil {
				return
			}
			same = same && (r == 0 || bytes.Equal(first, row))
			first = row
		}
		if !same {
			c.Obs("splits that are no function of the given source", 1)
			continue
		}
		used := consumed(c, func(src *csprng.CSPRNG) bool {
			sh, err := split(secret, s.n, s.k, src)
			return err == nil && len(sh) == s.n
		})
		c.Eval(1)
		if used < 0 {
			c.Obs("sources whose position is unknown", 1)
			continue
		}
		c.Obs("sources whose use was measured", 1)
		if used < need {
			c.Violate("little-entropy", "split %d with a given source (len=%d, n=%d, k=%d): %d coefficients were made from %d bytes of the source", v, s.l, s.n, s.k, s.l*(s.k-1), used)
			return
		}
	}
}
