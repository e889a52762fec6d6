//go:build !386

package mon

import (
	"bytes"
	"fmt"
	"os"
	"runtime"
	"strings"
	"sync"
	"time"

	"a.verif/vmon/ref"
	"github.com/fadhilkurnia/shamir/csprng"
	"github.com/fadhilkurnia/shamir/galois"
	"github.com/fadhilkurnia/shamir/krawczyk"
	"github.com/fadhilkurnia/shamir/randomizer"
	"github.com/fadhilkurnia/shamir/shamir"
	"github.com/fadhilkurnia/shamir/utils"
)

func init() {
	register(&Monitor{
		ID:      "C24",
		Rule:    "an evaluation is the comparison of live heap, goroutines, open files and idle CPU use after one stretch of repeated operations with those after the stretch before; distinct cases are (operation, shape, sequential or concurrent)",
		Configs: []string{"native", "noasm"},
		Need:    map[string]int64{"operations repeated": 40000, "measurements": 400},
		Assumptions: []string{"growth is reported only after it went on, stretch after stretch, to 16 MiB, 1 500 goroutines or 200 open files: smaller leaks per operation are found by repeating longer, bounded caches are not reported",
			"the Go runtime's account of live heap after collections is right"},
		Stages: []Stage{
			{Name: "repeat", N: fixed(352, 3200), Run: c24repeat, OpCPU: 600 * time.Second, Blocked: 600 * time.Second},
			{Name: "idle", N: fixed(16, 48), Run: c24idle, OpCPU: 600 * time.Second},
		},
	})
}

// longOp is an operation to be repeated: prep gives the body of the loop.
type longOp struct {
	name string
	prep func(c *C) (shape string, run func(g int))
}

func c24ops() []longOp {
	var ops []longOp
	for _, sp := range append(allSplitters(),
		Splitter{"shamir.SplitWithRandomizer with a new source", false, func(s []byte, n, k int) ([][]byte, error) {
			return shamir.SplitWithRandomizer(s, n, k, csprng.NewCSPRNG())
		}},
		Splitter{"a new worker's Split(shamir)", false, func(s []byte, n, k int) ([][]byte, error) { return newWorker().Split(algShamir, s, n, k) }},
		Splitter{"a new worker's Split(krawczyk)", true, func(s []byte, n, k int) ([][]byte, error) { return newWorker().Split(algSSMS, s, n, k) }}) {
		ops = append(ops, longOp{sp.Name, func(c *C) (string, func(int)) {
			k := c.Range(2, 7)
			n := c.Range(k, 10)
			l := pick(c, []int{1, 16, 33, 100, 500, 1500, 3000, 9000})
			if c.IntN(6) == 0 {
				n, l = c.Range(200, 255), min(l, 20)
			}
			secrets := [][]byte{c.Bytes(l), c.Bytes(l), c.Bytes(l), c.Bytes(l), c.Bytes(l), c.Bytes(l), c.Bytes(l), c.Bytes(l)}
			return fmt.Sprintf("len=%d, n=%d, k=%d", l, n, k), func(g int) {
				// another secret each time
				s := append([]byte(nil), secrets[g]...)
				for x := range secrets[g] {
					if secrets[g][x]++; secrets[g][x] != 0 {
						break
					}
				}
				sp.Split(s, n, k)
			}
		}})
		ops = append(ops, longOp{sp.Name + " refused", func(c *C) (string, func(int)) {
			bad := pick(c, [][3]int{{5, 3, 4}, {5, 0, 0}, {5, 256, 3}, {0, 3, 2}, {5, 3, 1}, {2000, 300, 299}, {40, 2, 3}})
			s := c.Bytes(bad[0])
			return fmt.Sprint(bad), func(int) { sp.Split(s, bad[1], bad[2]) }
		}})
	}
	for _, cb := range append(shamirCombiners(), ssmsCombiners()...) {
		for _, how := range []string{"", "too few", "malformed"} {
			ops = append(ops, longOp{strings.TrimSpace(cb.Name + " " + how), func(c *C) (string, func(int)) {
				k := c.Range(2, 7)
				n := c.Range(k, 10)
				l := pick(c, []int{1, 16, 33, 100, 500, 3000})
				secret := c.Bytes(l)
				xs := pointList(c, n)
				var sh [][]byte
				if cb.SSMS {
					sh = ref.MakeSSMS(secret, c.Bytes(16), n, k, xs, c.Fill)
				} else {
					sh = ref.RandPoly(secret, k, c.Fill).MakeShares(xs)
				}
				switch how {
				case "too few":
					sh = sh[:c.Range(0, k-1)]
				case "malformed":
					sh = clone(sh)
					switch c.IntN(4) {
					case 0:
						sh[0] = sh[0][:len(sh[0])/2]
					case 1:
						sh[1] = sh[0]
					case 2:
						sh[0] = nil
					case 3:
						c.Fill(sh[0])
					}
				}
				return fmt.Sprintf("len=%d, n=%d, k=%d", l, n, k), func(int) { cb.Combine(sh, n, k) }
			}})
		}
	}
	ops = append(ops,
		longOp{"shamir.Regenerate", func(c *C) (string, func(int)) {
			k, g := c.Range(2, 6), c.Range(0, 20)
			sh := ref.RandPoly(c.Bytes(pick(c, []int{1, 16, 100})), k, c.Fill).MakeShares(pointList(c, k))
			return fmt.Sprintf("k=%d, %d new", k, g), func(int) { shamir.Regenerate(sh, g) }
		}},
		longOp{"shamir.Regenerate refused", func(c *C) (string, func(int)) {
			sh := ref.RandPoly(c.Bytes(20), 3, c.Fill).MakeShares([]byte{1, 1, 2})
			return "", func(int) { shamir.Regenerate(sh, 5) }
		}},
		longOp{"sources", func(c *C) (string, func(int)) {
			b := make([][]byte, 8)
			for g := range b {
				b[g] = make([]byte, c.Range(1, 3000))
			}
			old, key := csprng.NewCSPRNG(), c.Bytes(32)
			return "", func(g int) {
				csprng.NewCSPRNG().Read(b[g])
				old.Read(b[g])
				old.Perm(255)
				old.GetUniqueBytes(16)
				csprng.NewCSPRNGWithKeyIV(append([]byte(nil), key...)).Read(b[g])
				r := randomizer.NewRandomizer()
				r.Read(b[g])
				r.Perm(100)
			}
		}},
		longOp{"workers", func(c *C) (string, func(int)) {
			s := c.Bytes(40)
			return "", func(int) {
				w := newWorker()
				for _, alg := range []string{algShamir, algSSMS, "none"} {
					sh, err := w.Split(alg, s, 4, 3)
					if err == nil {
						w.Combine(alg, sh[:3], 4, 3)
					}
				}
			}
		}},
		longOp{"krawczyk round trip", func(c *C) (string, func(int)) {
			s := c.Bytes(pick(c, []int{10, 1000, 9000}))
			k := c.Range(1, 9)
			n := c.Range(k, 12)
			return fmt.Sprintf("len=%d, n=%d, k=%d", len(s), n, k), func(int) {
				if sh, err := krawczyk.Split(s, n, k); err == nil {
					krawczyk.Combine(sh[n-k:], n, k)
				}
			}
		}},
		longOp{"vector operations", func(c *C) (string, func(int)) {
			l := c.Range(1, 5000)
			a, b := c.Bytes(l), make([][]byte, 8)
			for g := range b {
				b[g] = c.Bytes(l)
			}
			return fmt.Sprint(l), func(g int) {
				galois.AddVector(a, b[g])
				galois.MulConstVector(byte(g*3+2), b[g])
				galois.GalMultiply(byte(g), 7)
			}
		}},
		longOp{"buffer pool", func(c *C) (string, func(int)) {
			p := utils.NewBytesBufferPool(c.Range(1, 5)) // small: a pool may fill up
			l := c.Range(1, 5000)
			return fmt.Sprint(l), func(int) {
				a, b := p.Get(), p.Get()
				a.Grow(l)
				b.Grow(l)
				p.Put(a)
				p.Put(b)
				p.Put(new(bytes.Buffer))
				utils.NewBytesBufferPool(3).Put(new(bytes.Buffer))
			}
		}})
	return ops
}

type footprint struct {
	heap       int64
	goroutines int
	files      int
}

func openFiles() int {
	d, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return 0
	}
	return len(d)
}

// measure waits until nothing ends any more and counts what is left.
func measure(c *C, floor int) footprint {
	last := runtime.NumGoroutine()
	for t, same := 0, 0; t < 200 && same < 3 && last > floor; t++ {
		time.Sleep(time.Millisecond << min(t, 5))
		if n := runtime.NumGoroutine(); n == last {
			same++
		} else {
			same, last = 0, n
		}
	}
	var m runtime.MemStats
	for r := 0; r < 3; r++ { // pools keep their contents for two collections
		runtime.GC()
	}
	runtime.ReadMemStats(&m)
	c.Obs("measurements", 1)
	return footprint{int64(m.HeapAlloc), runtime.NumGoroutine(), openFiles()}
}

func c24repeat(c *C, i int) {
	ops := c24ops()
	// single operations, and three of them together
	which := []longOp{ops[i%len(ops)]}
	G := 1
	switch i / len(ops) % 4 {
	case 1:
		G = c.Range(2, 8)
	case 2:
		which = append(which, pick(c, ops), pick(c, ops))
	case 3:
		which = append(which, pick(c, ops), pick(c, ops))
		G = c.Range(2, 8)
	}
	var runs []func(int)
	var names []string
	for _, o := range which {
		shape, run := o.prep(c)
		runs = append(runs, run)
		names = append(names, strings.TrimSpace(o.name+" "+shape))
	}
	what := strings.Join(names, ", ")
	if G > 1 {
		what += fmt.Sprintf(" from %d goroutines", G)
	}
	stretch := func(n int) bool {
		return c.Do(what, func() {
			if G == 1 {
				for t := 0; t < n; t++ {
					for _, r := range runs {
						r(0)
					}
				}
				return
			}
			var wg sync.WaitGroup
			for g := 0; g < G; g++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for t := 0; t < n/G+1; t++ {
						for _, r := range runs {
							r(g)
						}
					}
				}()
			}
			wg.Wait()
		})
	}
	c.Distinct(names[0], G > 1, len(which))
	n := 150
	if !stretch(n) {
		return
	}
	base := measure(c, 0)
	prev := base
	total, cpu0 := n*len(runs), cpuTime()
	for r := 0; ; r++ {
		cpu1 := cpuTime()
		if !stretch(n) {
			return
		}
		spent := cpuTime() - cpu1
		total += n * len(runs)
		now := measure(c, prev.goroutines)
		c.Eval(1)
		// a little may be left of anything, but not of every operation
		heap := now.heap-prev.heap > int64(n)*16
		gor := now.goroutines-prev.goroutines > 3
		files := now.files-prev.files > 2
		dh, dg, df := now.heap-base.heap, now.goroutines-base.goroutines, now.files-base.files
		detail := map[string]any{"operations": total, "heap growth": dh, "more goroutines": dg, "more files": df}
		switch {
		case gor && dg > 1500:
			b := make([]byte, 1<<16)
			b = b[:runtime.Stack(b, true)]
			c.ViolateD(detail, "goroutines", "%s: after %d operations %d more goroutines than before", what, total, dg)
			c.res.Violations[len(c.res.Violations)-1].Stack = string(b)
			return
		case files && df > 200:
			c.ViolateD(detail, "files", "%s: after %d operations %d more files are open than before", what, total, df)
			return
		case heap && dh > 16<<20:
			c.ViolateD(detail, "memory", "%s: after %d operations the live heap has grown by %d bytes, and goes on growing", what, total, dh)
			return
		}
		if !heap && !gor && !files {
			if n >= 4800 || spent > 120*time.Millisecond {
				break
			}
		} else {
			c.Obs("stretches with growth", 1)
		}
		if cpuTime()-cpu0 > 100*time.Second {
			c.Obs("growth that was not followed to its end", 1)
			break
		}
		prev = now
		if n < 100_000 {
			n *= 2
		}
	}
	c.Obs("operations repeated", int64(total))
}

// c24idle: when nothing is asked for, nothing runs.
func c24idle(c *C, i int) {
	for t := 0; t < 100; t++ {
		_, run := pick(c, c24ops()).prep(c)
		if !c.Do("operations", func() { run(0) }) {
			return
		}
	}
	runtime.GC()
	busy := 0
	for t := 0; t < 12; t++ {
		cpu0, t0 := cpuTime(), realNow()
		time.Sleep(250 * time.Millisecond)
		used, wall := cpuTime()-cpu0, realNow().Sub(t0)
		c.Eval(1)
		c.Obs("measurements", 1)
		if used*100 < wall { // what the harness itself does takes less than half of this
			c.Distinct("idle")
			return
		}
		busy++
	}
	b := make([]byte, 1<<16)
	b = b[:runtime.Stack(b, true)]
	c.Violate("busy", "the process computes although nothing was asked for (%d periods of 250 ms)", busy)
	c.res.Violations[len(c.res.Violations)-1].Stack = string(b)
}
