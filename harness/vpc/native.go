package vpc

import (
	"io"
	"time"

	gc "gopkg.in/check.v1"

	"github.com/juju/worker/v4/zzverif/vp"
)

type suite struct{ c chan *gc.C }

func (s *suite) TestC(c *gc.C) {
	s.c <- c
	select {}
}

// NewC gives a C that has not failed.
func NewC() *gc.C {
	s := &suite{make(chan *gc.C)}
	go gc.Run(s, &gc.RunConf{Output: io.Discard})
	return <-s.c
}

// After is time.After with a timer that fires when the schedule says so.
func After(d time.Duration) <-chan time.Time {
	c := make(chan time.Time, 1)
	delays = append(delays, d)
	if !timersOff {
		go vp.W(func() {
			vp.A(func() {})()
			fired++
			vp.Send(c, time.Time{})
		})()
	}
	return c
}

// NewTimer is time.NewTimer with a timer like After's.
func NewTimer(d time.Duration) *time.Timer {
	t := time.NewTimer(1000 * time.Hour)
	t.C = After(d)
	return t
}
