package mon

import (
	"bytes"
	"crypto/sha256"
	"encoding/gob"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/fadhilkurnia/shamir/csprng"
	"github.com/fadhilkurnia/shamir/galois"
	"github.com/fadhilkurnia/shamir/shamir"
)

var c14configs = []string{"native", "ssse3", "sse2", "none", "noasm", "x386"}

func init() {
	register(&Monitor{
		ID:          "C14",
		Rule:        "a case is one split (entry point, secret, n, k, random stream) executed in every configuration, or one block of vector operations; the outputs are compared byte by byte across configurations and combined crosswise",
		Configs:     c14configs,
		Need:        map[string]int64{"splits recorded": 20000, "cross combinations": 50000, "outputs compared": 10000},
		Assumptions: []string{"the CPU here offers AVX2; lesser CPUs are imitated by masking what the feature detection reports before the library's packages initialise", "arm64 and ppc64le code cannot be run here", "SplitP's use of the stream depends on scheduling for long secrets; its byte identity is decided for secrets of one byte"},
		Stages: []Stage{
			{Name: "make", N: fixed(220, 2200), Run: c14make},
			{Name: "vectors", N: fixed(256, 256*3), Run: c14vectors},
			{Name: "cross", N: fixed(220, 2200), Run: c14cross, Phase: 1},
		},
		Final: c14final,
	})
}

type c14rec struct {
	Name   string
	SSMS   bool
	N, K   int
	Secret []byte
	Shares [][]byte
	// Cmp: the shares must be identical in all configurations
	Cmp bool
}

func c14path(dir, config, stage string, i int) string {
	return filepath.Join(dir, "c14", config, fmt.Sprintf("%s-%d", stage, i))
}

func c14write(c *C, i int, recs []c14rec) {
	p := c14path(c.Dir, c.Config, c.S.Name, i)
	os.MkdirAll(filepath.Dir(p), 0o755)
	var b bytes.Buffer
	if err := gob.NewEncoder(&b).Encode(recs); err != nil {
		Inconclusive("%v", err)
	}
	if err := os.WriteFile(p, b.Bytes(), 0o644); err != nil {
		Inconclusive("%v", err)
	}
}

func c14read(dir, config, stage string, i int) []c14rec {
	b, err := os.ReadFile(c14path(dir, config, stage, i))
	if err != nil {
		return nil
	}
	var r []c14rec
	if gob.NewDecoder(bytes.NewReader(b)).Decode(&r) != nil {
		return nil
	}
	return r
}

func c14make(c *C, i int) {
	keyIV := c.Bytes(32)
	l := []int{1, 2, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 191, 192, 255, 256, 300, 1000, 1024, 1025, 5000}[i%23]
	if i%4 == 3 {
		l = c.Range(1, 400)
	}
	if i == 50 {
		l = 100000
	}
	k := c.Range(2, 7)
	n := c.Range(k, 9)
	switch i % 6 {
	case 1:
		k = c.Range(2, 60)
		n = c.Range(k, 64)
	case 2:
		n = 255
		k = c.Range(2, 5)
		l = min(l, 64)
	}
	if l > 5000 {
		n, k = 4, 3
	}
	secret := anySecret(c, l)
	var recs []c14rec
	add := func(sp Splitter, what string, secret []byte, cmp bool) {
		sh := checkSplit(c, sp, secret, n, k)
		if sh == nil {
			return
		}
		c.Obs("splits recorded", 1)
		recs = append(recs, c14rec{sp.Name + what, sp.SSMS, n, k, secret, sh, cmp})
	}
	// keyed sources, several splits each
	on := shamirSplittersOn(csprng.NewCSPRNGWithKeyIV(keyIV), csprng.NewCSPRNGWithKeyIV(keyIV))[1:3]
	on = append(on, ssmsWith(csprng.NewCSPRNGWithKeyIV(keyIV))...)
	for r := 0; r < 3; r++ {
		for _, sp := range on {
			add(sp, fmt.Sprintf(" [keyed source, split %d]", r), secret, true)
		}
	}
	// everything else: the same system entropy in every configuration
	for j := 0; ; j++ {
		c.SetEntropy("make", j)
		sps := c14splitters()
		if j >= len(sps) {
			break
		}
		sp := sps[j]
		s := secret
		if sp.Name == "shamir.SplitP" {
			s = secret[:1]
		}
		// twice: only if system entropy determines the shares here are they
		// compared with those made elsewhere
		var sh [2][][]byte
		for r := range sh {
			c.SetEntropy("split", sp.Name)
			// state behind the entry point is created under the same entropy, too
			sp = c14splitters()[j]
			c.SetEntropy("call", sp.Name)
			sh[r] = checkSplit(c, sp, s, n, k)
			if sh[r] == nil {
				return
			}
		}
		c.Obs("splits recorded", 1)
		same := true
		for x := range sh[0] {
			same = same && bytes.Equal(sh[0][x], sh[1][x])
		}
		if !same {
			c.Obs("splits not determined by system entropy", 1)
		}
		recs = append(recs, c14rec{sp.Name + " [equal system entropy]", sp.SSMS, n, k, s, sh[0], same})
		if sp.Name == "shamir.SplitP" {
			add(sp, " [combined only]", secret, false)
		}
	}
	c14write(c, i, recs)
	c.Distinct("make", i)
	if i < 3 {
		c.Sample(map[string]any{"n": n, "k": k, "len": l, "recorded": len(recs)})
	}
}

func c14splitters() []Splitter {
	return append(shamirSplitters(), c14ssms()...)
}

func c14vectors(c *C, i int) {
	var recs []c14rec
	k := byte(i)
	h := sha256.New()
	put := func(name string) {
		recs = append(recs, c14rec{Name: name, Shares: [][]byte{h.Sum(nil)}, Cmp: true})
		h.Reset()
	}
	for n := 0; n < 600; n++ {
		if n > 140 && n%8 > 1 {
			continue
		}
		a, b := c.Bytes(n), c.Bytes(n)
		ok := c.Do(fmt.Sprintf("vector operations of length %d with %d", n, k), func() {
			h.Write(galois.MulConstVector(k, append([]byte(nil), a...)))
			h.Write(galois.AddVector(a, b))
			h.Write(a)
			h.Write(b)
		})
		if !ok {
			return
		}
		if n%50 == 49 {
			put(fmt.Sprintf("vector operations with constant %d, lengths up to %d", k, n))
		}
	}
	put("rest")
	c14write(c, i, recs)
}

// c14cross: combine what all other configurations made.
func c14cross(c *C, i int) {
	for _, cfg := range c14configs {
		if cfg == c.Config {
			continue
		}
		for _, r := range c14read(c.Dir, cfg, "make", i) {
			cbs := shamirCombiners()
			if r.SSMS {
				if cbs = c14ssmsCombiners(); cbs == nil {
					continue
				}
			}
			c.Obs("cross combinations", 1)
			what := r.Name + " made in configuration " + cfg
			if !checkCombine(c, pick(c, cbs), subset(c, r.Shares, c.Range(r.K, r.N)), r.N, r.K, r.Secret, what) {
				return
			}
			if !r.SSMS && r.N < 255 && len(r.Secret) < 70 && r.K < 10 {
				var nw [][]byte
				var err error
				if !c.Do("shamir.Regenerate", func() { nw, err = shamir.Regenerate(subset(c, r.Shares, r.K), 1) }) {
					return
				}
				if err == nil && len(nw) == 1 {
					mix := append(subset(c, r.Shares, r.K-1), nw...)
					if len(points(mix)) == r.K && distinctPoints(mix) && !checkCombine(c, pick(c, cbs), mix, r.N, r.K, r.Secret, what+", one regenerated") {
						return
					}
				}
			}
		}
	}
	c.Distinct("cross", i, c.Config)
}

func distinctPoints(s [][]byte) bool {
	var seen [256]bool
	for _, p := range points(s) {
		if seen[p] {
			return false
		}
		seen[p] = true
	}
	return true
}

func c14final(f *FinalCtx) {
	have := map[string]bool{}
	base := "native"
	files, _ := os.ReadDir(filepath.Join(f.Dir, "c14", base))
	for _, e := range files {
		parts := strings.SplitN(e.Name(), "-", 2)
		var i int
		fmt.Sscan(parts[1], &i)
		ref := map[string]c14rec{}
		for _, r := range c14read(f.Dir, base, parts[0], i) {
			ref[r.Name] = r
		}
		for _, cfg := range f.Configs {
			if cfg == base {
				continue
			}
			recs := c14read(f.Dir, cfg, parts[0], i)
			if recs == nil {
				continue
			}
			have[cfg] = true
			var bad []string
			for _, r := range recs {
				q, ok := ref[r.Name]
				if !ok || !r.Cmp {
					continue
				}
				f.AddEval++
				f.Counts["outputs compared"]++
				for x := range q.Shares {
					if x >= len(r.Shares) || !bytes.Equal(q.Shares[x], r.Shares[x]) {
						bad = append(bad, r.Name)
						if len(bad) == 1 {
							f.Viol = append(f.Viol, Violation{Property: "C14", Key: "differs", Stage: parts[0], Case: i, Config: cfg, Op: r.Name,
								Message: fmt.Sprintf("%s gives other bytes in configuration %s than in %s with the same random stream (n=%d, k=%d, secret length %d, output %d)", r.Name, cfg, base, r.N, r.K, len(r.Secret), x),
								Detail:  map[string]any{base: hexes(q.Shares), cfg: hexes(r.Shares), "secret": Hex(r.Secret)}})
						}
						break
					}
				}
			}
			if len(f.Viol) > 6 {
				return
			}
		}
	}
	var l []string
	for k := range have {
		l = append(l, k)
	}
	sort.Strings(l)
	f.Counts["configurations compared with "+base+": "+strings.Join(l, " ")] = int64(len(l))
}
