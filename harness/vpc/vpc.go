// Package vpc stands in for gocheck's *C and for time.After: the functions in
// model.go are what the encoder uses, those in native.go what a replay uses.
package vpc

import (
	"time"

	gc "gopkg.in/check.v1"
)

var (
	timersOff bool
	fired     int
	delays    []time.Duration
	failed    = map[*gc.C]bool{}
)

// TimersOff makes the timers of time.After never fire.
func TimersOff() { timersOff = true }

// Fired says how many timers have fired.
func Fired() int { return fired }

// Delays are those time.After has been called with.
func Delays() []time.Duration { return delays }
