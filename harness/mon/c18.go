//go:build !386

package mon

import (
	"bytes"
	"fmt"
	"math"
	"math/rand/v2"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/fadhilkurnia/shamir/utils"
)

func init() {
	block := 45 * time.Second
	register(&Monitor{
		ID:          "C18",
		Rule:        "a case is one history of gets and puts on pools of one size, sequential against a set model, or concurrent against an ownership ledger (stress) or the race detector (holders write to their buffers); distinct by size and history",
		Configs:     []string{"native", "stress", "race", "warped"},
		Warp:        []string{"model", "capacity"},
		Need:        map[string]int64{"gets": 1000000, "puts": 1000000, "recycled": 300000, "dropped": 20000, "race detector holds": 20000},
		Assumptions: []string{"holders keep to the rules: a buffer is put back once, and nil is never put"},
		Setup:       func(c *C) { yieldPools(c) },
		Stages: []Stage{
			{Name: "model", N: fixed(600, 6000), Run: c18model, Configs: []string{"native"}, Blocked: block},
			{Name: "capacity", N: fixed(120, 900), Run: c18capacity, Configs: []string{"native"}, Blocked: block},
			{Name: "default", N: fixed(12, 60), Run: c18default, Configs: []string{"native"}, Blocked: block},
			{Name: "ledger", N: fixed(160, 3000), Run: c18ledger, Configs: []string{"stress"}, Blocked: block, RealEntropy: true},
			{Name: "enough", N: fixed(80, 1500), Run: c18enough, Configs: []string{"stress"}, Blocked: block, RealEntropy: true},
			{Name: "putters", N: fixed(60, 1000), Run: c18putters, Configs: []string{"stress"}, Blocked: block, RealEntropy: true},
			{Name: "holders", N: fixed(40, 800), Run: c18holders, Configs: []string{"race"}, Blocked: block, RealEntropy: true},
		},
	})
}

func yieldPools(c *C) {
	poisonOnce.Do(func() {
		if c.Config == "native" {
			return
		}
		utils.VerifOnPut = func(*utils.BytesBufferPool, *bytes.Buffer) {
			if rand.Uint32()&3 == 0 {
				runtime.Gosched()
			}
		}
		utils.VerifOnGet = func(*utils.BytesBufferPool) {
			if rand.Uint32()&3 == 0 {
				runtime.Gosched()
			}
		}
	})
}

// usable writes to and reads from a buffer.
func usable(b *bytes.Buffer, tag byte, n int) string {
	if b == nil {
		return "nil"
	}
	b.Reset()
	for i := 0; i < n; i++ {
		b.WriteByte(tag + byte(i))
	}
	if b.Len() != n {
		return fmt.Sprintf("of length %d after writing %d bytes", b.Len(), n)
	}
	for i, v := range b.Bytes() {
		if v != tag+byte(i) {
			return "that does not keep what is written"
		}
	}
	return ""
}

// c18model: random sequential histories against the set model.
func c18model(c *C, i int) {
	size := []int{1, 2, 3, 4, 7, 8, 16, 50, 257}[i%9]
	p := utils.NewBytesBufferPool(size)
	retained := map[*bytes.Buffer]bool{}
	known := map[*bytes.Buffer]bool{}
	var held []*bytes.Buffer
	bias := c.Range(2, 8)
	big := 12
	var hist []byte
	for t := 0; t < 1500; t++ {
		if t%200 == 199 {
			bias = c.Range(1, 9)
		}
		if c.IntN(10) < bias {
			var b *bytes.Buffer
			if !c.Do("Get", func() { b = p.Get() }) {
				return
			}
			hist = append(hist, 'g')
			c.Eval(1)
			c.Obs("gets", 1)
			bad := ""
			switch {
			case b == nil:
				bad = "returned nil"
			case retained[b]:
				delete(retained, b)
				c.Obs("recycled", 1)
			case known[b]:
				bad = "handed out a buffer that is held, or was dropped or handed out already"
			case len(retained) > 0:
				bad = fmt.Sprintf("made a new buffer although %d were retained", len(retained))
			}
			if bad != "" {
				c.ViolateD(map[string]any{"history": string(hist)}, "model", "pool of size %d, operation %d: Get %s", size, t, bad)
				return
			}
			known[b] = true
			if u := usable(b, byte(t), c.IntN(100)); u != "" {
				c.Violate("unusable", "pool of size %d: Get returned a buffer %s", size, u)
				return
			}
			held = append(held, b)
		} else {
			var b *bytes.Buffer
			if len(held) > 0 && c.IntN(4) > 0 {
				x := c.IntN(len(held))
				b = held[x]
				held = append(held[:x], held[x+1:]...)
			} else {
				b = bytes.NewBuffer(make([]byte, c.IntN(3), 8))
				if big > 0 && c.IntN(30) == 0 { // buffers of all capacities are alike
					big--
					room := pick(c, []int{0, 64, 65, 1000, 4096, 4097, 1 << 16, 1<<16 + 1, 1 << 18, 1<<20 - 1, 1 << 20, 3 << 20, 9 << 20, 40 << 20})
					b = bytes.NewBuffer(make([]byte, pick(c, []int{0, 0, room, room / 2}), room))
				} else if c.IntN(20) == 0 {
					b = new(bytes.Buffer)
				}
				known[b] = true
			}
			if !c.Do("Put", func() { p.Put(b) }) {
				return
			}
			hist = append(hist, 'p')
			c.Eval(1)
			c.Obs("puts", 1)
			if len(retained) < size {
				retained[b] = true
			} else {
				c.Obs("dropped", 1)
			}
		}
	}
	c.Distinct(size, hist)
	if i < 2 {
		c.Sample(map[string]any{"size": size, "history": string(hist[:60])})
	}
}

// c18capacity: fill beyond the size and empty again, twice.
func c18capacity(c *C, i int) {
	size := []int{1, 2, 3, 5, 10, 31, 32, 33, 100, 1000, 1024, 5000, 16385, 40000, 1<<16 + 1, 1<<17 + 1, c.Range(6000, 90000), 1<<20 + 1}[i%18]
	if size > 1<<19 && !c.Thorough && i > 18 {
		size = c.Range(300, 5000)
	}
	p := utils.NewBytesBufferPool(size)
	for round := 0; round < 3; round++ {
		extra := []int{0, 1, size, 7, -1}[(i/18+round)%5]
		m := size + extra
		put := map[*bytes.Buffer]int{}
		for j := 0; j < m; j++ {
			b := new(bytes.Buffer)
			put[b] = j
			if !c.Do(fmt.Sprintf("Put number %d on a pool of size %d", j, size), func() { p.Put(b) }) {
				return
			}
			c.Obs("puts", 1)
			if j >= size {
				c.Obs("dropped", 1)
			}
		}
		want := min(m, size)
		for j := 0; j < want+5; j++ {
			var b *bytes.Buffer
			if !c.Do("Get", func() { b = p.Get() }) {
				return
			}
			c.Obs("gets", 1)
			c.Eval(1)
			x, old := put[b]
			switch {
			case b == nil:
				c.Violate("unusable", "pool of size %d: Get returned nil", size)
				return
			case j < want && !old:
				c.Violate("lost", "pool of size %d: %d buffers were put, but Get number %d made a new one", size, m, j)
				return
			case j >= want && old:
				c.Violate("over-capacity", "pool of size %d retained more than %d buffers: Get number %d returned a buffer put before", size, want, j)
				return
			case old && x >= size:
				c.Violate("drops", "pool of size %d retained buffer number %d put beyond its size instead of an earlier one", size, x)
				return
			}
			if old {
				c.Obs("recycled", 1)
				delete(put, b)
			}
			if u := usable(b, 9, 5); u != "" {
				c.Violate("unusable", "Get returned a buffer %s", u)
				return
			}
		}
	}
	c.Distinct("capacity", size, i)
}

func c18default(c *C, i int) {
	size := []int{0, -1, -7, math.MinInt, -1024, math.MinInt32}[i%6]
	var p *utils.BytesBufferPool
	if !c.Do(fmt.Sprintf("NewBytesBufferPool(%d)", size), func() { p = utils.NewBytesBufferPool(size) }) {
		return
	}
	m := []int{1, 2}[i/6%2]
	_ = m
	b := new(bytes.Buffer)
	ok := c.Do("Put", func() { p.Put(b) })
	var g *bytes.Buffer
	ok = ok && c.Do("Get", func() { g = p.Get() })
	c.Eval(1)
	c.Distinct("default", size)
	if !ok {
		return
	}
	if g != b {
		c.Violate("default", "a pool created with size %d does not retain a single buffer", size)
		return
	}
	// far more puts than any sensible default do not block
	for j := 0; j < 300000; j++ {
		if !c.Do("Put", func() { p.Put(new(bytes.Buffer)) }) {
			return
		}
		c.Obs("puts", 1)
	}
	for j := 0; j < 100; j++ {
		c.Do("Get", func() { g = p.Get() })
		c.Obs("gets", 1)
		if u := usable(g, 1, 3); u != "" {
			c.Violate("unusable", "Get returned a buffer %s", u)
			return
		}
	}
}

// c18ledger: concurrent gets and puts; an ownership word per buffer shows
// buffers with two holders and buffers handed out without having been put.
func c18ledger(c *C, i int) {
	size := []int{1, 2, 4, 8, 64}[i%5]
	G := []int{2, 4, 8, 16}[i/5%4]
	p := utils.NewBytesBufferPool(size)
	var ledger sync.Map // *bytes.Buffer -> *int32: holder+1, 0: put back
	type stat struct {
		gets, puts, recycled int64
		bad                  string
	}
	st := make([]stat, G)
	var stop atomic.Bool
	var wg sync.WaitGroup
	start := make(chan struct{})
	seeds := make([]uint64, G)
	for g := range seeds {
		seeds[g] = c.R.Uint64()
	}
	for g := 0; g < G; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := rand.New(rand.NewPCG(seeds[g], 1))
			var held []*bytes.Buffer
			<-start
			for t := 0; t < 2500 && !stop.Load(); t++ {
				if len(held) == 0 || (len(held) < 4 && r.IntN(2) == 0) {
					b := p.Get()
					st[g].gets++
					if b == nil {
						st[g].bad = "Get returned nil"
						stop.Store(true)
						return
					}
					w := new(int32)
					*w = int32(g + 1)
					if v, old := ledger.LoadOrStore(b, w); old {
						st[g].recycled++
						if !atomic.CompareAndSwapInt32(v.(*int32), 0, int32(g+1)) {
							st[g].bad = fmt.Sprintf("Get handed goroutine %d a buffer that goroutine %d holds", g, atomic.LoadInt32(v.(*int32))-1)
							stop.Store(true)
							return
						}
					}
					b.Reset()
					b.WriteByte(byte(g))
					held = append(held, b)
				} else {
					x := r.IntN(len(held))
					b := held[x]
					held[x] = held[len(held)-1]
					held = held[:len(held)-1]
					if b.Len() != 1 || b.Bytes()[0] != byte(g) {
						st[g].bad = fmt.Sprintf("the contents of a buffer held by goroutine %d were changed", g)
						stop.Store(true)
						return
					}
					v, _ := ledger.Load(b)
					if !atomic.CompareAndSwapInt32(v.(*int32), int32(g+1), 0) {
						st[g].bad = "ledger mismatch"
						stop.Store(true)
						return
					}
					p.Put(b)
					st[g].puts++
				}
				if r.IntN(16) == 0 {
					runtime.Gosched()
				}
			}
		}()
	}
	if !c.Do("concurrent Get and Put", func() { close(start); wg.Wait() }) {
		return
	}
	for _, s := range st {
		c.Obs("gets", s.gets)
		c.Obs("puts", s.puts)
		c.Obs("recycled", s.recycled)
		c.Eval(s.gets)
		if s.bad != "" {
			c.Violate("two-holders", "pool of size %d, %d goroutines: %s", size, G, s.bad)
			return
		}
	}
	// drain: at most size buffers, each put back and not handed out since
	n := 0
	for {
		var b *bytes.Buffer
		if !c.Do("Get", func() { b = p.Get() }) {
			return
		}
		v, old := ledger.Load(b)
		if !old {
			break
		}
		if !atomic.CompareAndSwapInt32(v.(*int32), 0, 99) {
			c.Violate("two-holders", "pool of size %d, %d goroutines: afterwards the pool holds a buffer that is still held or twice in it", size, G)
			return
		}
		n++
		if n > size {
			c.Violate("over-capacity", "pool of size %d retained more than %d buffers", size, size)
			return
		}
	}
	c.Obs("drained", int64(n))
	c.Distinct("ledger", i)
}

// c18enough: with as many buffers retained as goroutines, no Get may make a
// new one.
func c18enough(c *C, i int) {
	G := []int{2, 3, 4, 8}[i%4]
	size := G + i%3
	p := utils.NewBytesBufferPool(size)
	mine := map[*bytes.Buffer]bool{}
	for j := 0; j < G; j++ {
		b := new(bytes.Buffer)
		mine[b] = true
		p.Put(b)
	}
	bad := make([]int, G)
	var wg sync.WaitGroup
	start := make(chan struct{})
	const per = 2000
	for g := 0; g < G; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for t := 0; t < per; t++ {
				b := p.Get()
				if !mine[b] {
					bad[g]++
				}
				if t%7 == g {
					runtime.Gosched()
				}
				p.Put(b)
			}
		}()
	}
	if !c.Do("concurrent Get and Put", func() { close(start); wg.Wait() }) {
		return
	}
	c.Obs("gets", int64(G*per))
	c.Obs("puts", int64(G*per))
	c.Obs("recycled", int64(G*per))
	c.Eval(int64(G * per))
	c.Distinct("enough", i)
	for g, n := range bad {
		if n > 0 {
			c.Violate("new-too-early", "pool of size %d that always retains a buffer (%d goroutines, %d buffers): goroutine %d got %d other buffers", size, G, G, g, n)
			return
		}
	}
	// all of them are still there
	for j := 0; j < G; j++ {
		var b *bytes.Buffer
		if !c.Do("Get", func() { b = p.Get() }) {
			return
		}
		if !mine[b] {
			c.Violate("lost", "pool of size %d: after %d goroutines put all %d buffers back, only %d are retained", size, G, G, j)
			return
		}
		delete(mine, b)
	}
}

// c18putters: puts from many sides; exactly the size is retained.
func c18putters(c *C, i int) {
	size := []int{1, 3, 10, 100}[i%4]
	G := 8
	per := size/4 + 20
	p := utils.NewBytesBufferPool(size)
	all := make([][]*bytes.Buffer, G)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for g := 0; g < G; g++ {
		for t := 0; t < per; t++ {
			all[g] = append(all[g], new(bytes.Buffer))
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for _, b := range all[g] {
				p.Put(b)
			}
		}()
	}
	if !c.Do("concurrent Put", func() { close(start); wg.Wait() }) {
		return
	}
	put := map[*bytes.Buffer]bool{}
	for _, l := range all {
		for _, b := range l {
			put[b] = true
		}
	}
	c.Obs("puts", int64(len(put)))
	c.Obs("dropped", int64(len(put)-size))
	for j := 0; j <= size; j++ {
		var b *bytes.Buffer
		if !c.Do("Get", func() { b = p.Get() }) {
			return
		}
		c.Obs("gets", 1)
		c.Eval(1)
		if put[b] != (j < size) {
			c.Violate("capacity", "pool of size %d after %d concurrent puts: Get number %d returned a buffer put before: %v", size, len(put), j, put[b])
			return
		}
		delete(put, b)
	}
	c.Distinct("putters", i)
}

// c18holders: for the race detector; holders write without any ledger.
func c18holders(c *C, i int) {
	size := []int{1, 2, 4, 16}[i%4]
	G := []int{2, 4, 8}[i/4%3]
	p := utils.NewBytesBufferPool(size)
	bad := make([]string, G)
	var wg sync.WaitGroup
	start := make(chan struct{})
	const per = 600
	for g := 0; g < G; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for t := 0; t < per && bad[g] == ""; t++ {
				b := p.Get()
				bad[g] = usable(b, byte(g), 3+t%9)
				if t%5 == 0 {
					runtime.Gosched()
				}
				if b != nil && (b.Len() != 3+t%9 || b.Bytes()[0] != byte(g)) {
					bad[g] = "whose contents were changed by somebody else"
				}
				p.Put(b)
			}
		}()
	}
	if !c.Do("concurrent Get and Put", func() { close(start); wg.Wait() }) {
		return
	}
	c.Obs("race detector holds", int64(G*per))
	c.Obs("gets", int64(G*per))
	c.Obs("puts", int64(G*per))
	c.Eval(int64(G * per))
	for _, b := range bad {
		if b != "" {
			c.Violate("two-holders", "pool of size %d, %d goroutines: Get returned a buffer %s", size, G, b)
			return
		}
	}
	c.Distinct("holders", i)
}
