//go:build frozen

package mon

import "time"

// This file needs the patched time package of the frozen configuration.

func realNow() time.Time { return time.VerifReal() }

// freezeClock sets the clock the library sees; it advances by 100 ns per
// reading. 0 gives the real clock back.
func freezeClock(ns int64) { time.VerifClock(ns) }
