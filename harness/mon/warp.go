package mon

import (
	"math/rand/v2"
	"runtime"
	"time"
)

// The warped configuration lets time pass between any two operations, and
// collects garbage now and then.

var warpClock int64

var warpDates = []time.Time{
	time.Date(1970, 1, 1, 0, 0, 5, 0, time.UTC), time.Date(1999, 12, 31, 23, 59, 59, 9e8, time.UTC), time.Date(2038, 1, 19, 3, 14, 7, 9e8, time.UTC),
	time.Date(2106, 2, 7, 6, 28, 15, 9e8, time.UTC), time.Date(2024, 2, 29, 12, 0, 0, 0, time.UTC), time.Date(2025, 12, 31, 23, 59, 59, 0, time.UTC),
	time.Date(2026, 10, 25, 0, 59, 59, 0, time.UTC), time.Date(2001, 9, 9, 1, 46, 39, 9e8, time.UTC), time.Date(2023, 5, 13, 23, 59, 58, 0, time.UTC),
	time.Date(2157, 3, 16, 0, 0, 0, 0, time.UTC), time.Date(2030, 1, 1, 0, 0, 0, 0, time.UTC),
}

func (c *C) timePasses() {
	if c.warp == nil {
		k := c.key
		k[0] ^= 0x77
		c.warp = rand.New(rand.NewChaCha8(k))
		warpClock = warpDates[c.warp.IntN(len(warpDates))].UnixNano() + c.warp.Int64N(1e9)
	}
	r := c.warp
	upTo := func(d time.Duration) { warpClock += r.Int64N(int64(d)) }
	back := func(d time.Duration) { warpClock -= r.Int64N(int64(d)) }
	const day = 24 * time.Hour
	switch x := r.IntN(100); {
	case x < 70:
		upTo(time.Millisecond)
	case x < 80:
		upTo(2 * time.Second)
	case x < 86:
		upTo(3 * time.Minute)
	case x < 91:
		upTo(3 * time.Hour)
	case x < 94:
		upTo(40 * day)
	case x < 95:
		upTo(1200 * day)
	case x < 97:
		back(2 * time.Second)
	case x < 98:
		back(day)
	case x < 99:
		warpClock = warpDates[r.IntN(len(warpDates))].UnixNano()
	default:
		warpClock -= warpClock % int64(time.Second) // a round number
	}
	if warpClock < 1 || warpClock > 1<<63-1-int64(10000*day) {
		warpClock = 1_700_000_000_000_000_000
	}
	freezeClock(warpClock)
	if c.gcs < 10 && r.IntN(300) == 0 {
		c.gcs++
		runtime.GC()
		c.Obs("collections", 1)
	}
	c.Obs("times passed", 1)
}
