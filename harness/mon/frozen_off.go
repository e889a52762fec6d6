//go:build !frozen

package mon

import "time"

func realNow() time.Time { return time.Now() }

// freezeClock sets the clock the library sees (in the frozen configuration).
func freezeClock(ns int64) {}
