//go:build !386

package mon

import (
	"bytes"
	"fmt"

	"github.com/fadhilkurnia/shamir/csprng"
	"github.com/fadhilkurnia/shamir/krawczyk"
	"github.com/fadhilkurnia/shamir/worker"
)

func newWorkerShamir() []Splitter {
	return []Splitter{{"a new worker's Split(shamir)", false, func(s []byte, n, k int) ([][]byte, error) {
		w := worker.NewWorker()
		return w.Split(worker.AlgShamir, s, n, k)
	}}}
}

// c07entropy traces the entropy behind SSMS keys and their coefficients.
func c07entropy(c *C, i int) {
	sps := []Splitter{
		{"krawczyk.Split", true, krawczyk.Split},
		{"krawczyk.SplitWithRandomizer with a new source", true, func(s []byte, n, k int) ([][]byte, error) {
			return krawczyk.SplitWithRandomizer(s, n, k, csprng.NewCSPRNG())
		}},
		{"a new worker's Split(krawczyk)", true, func(s []byte, n, k int) ([][]byte, error) {
			w := worker.NewWorker()
			return w.Split(worker.AlgSSMS, s, n, k)
		}},
	}
	sp := sps[i%len(sps)]
	k := []int{2, 3, 7, 30}[i/len(sps)%4]
	n := k + c.IntN(4)
	l := c.Range(1, 600)
	secret := mkSecret(c, pick(c, secretFamilies), l)
	open := func(sp Splitter, of func(key, coef []byte) []byte) []byte {
		sh := checkSplit(c, sp, secret, n, k)
		if sh == nil {
			return nil
		}
		o := openSSMS(c, sp, sh, secret, n, k)
		if o == nil {
			return nil
		}
		return of(o.Key, coefRow(o.Meta))
	}
	key := func(key, _ []byte) []byte { return key }
	coef := func(_, coef []byte) []byte { return coef }
	what := fmt.Sprintf("%s(len=%d, n=%d, k=%d)", sp.Name, l, n, k)
	if !influence(c, what, "key", 16, func() []byte { return open(sp, key) }) ||
		!influence(c, what, "key's coefficients", 16, func() []byte { return open(sp, coef) }) {
		return
	}
	seed := c.Bytes(32)
	var first []byte
	for r := 0; r < 2; r++ {
		g := csprng.NewCSPRNGWithKeyIV(append([]byte(nil), seed...))
		b := open(ssmsWith(g)[0], func(key, coef []byte) []byte { return append(append([]byte{}, key...), coef...) })
		if b == nil {
			return
		}
		if r == 1 && !bytes.Equal(first, b) {
			c.Obs("splits that are no function of the given source", 1)
			return
		}
		first = b
	}
	used := consumed(c, func(src *csprng.CSPRNG) bool {
		sh, err := krawczyk.SplitWithRandomizer(secret, n, k, src)
		return err == nil && len(sh) == n
	})
	c.Eval(1)
	if used < 0 {
		c.Obs("sources whose position is unknown", 1)
		return
	}
	c.Obs("sources whose use was measured", 1)
	if used < 16 {
		c.Violate("little-entropy", "krawczyk.SplitWithRandomizer(len=%d, n=%d, k=%d): key and coefficients were made from %d bytes of the source", l, n, k, used)
	}
}
