package dep

import (
	"time"

	"github.com/juju/worker/v4/zzverif/vp"
)

// KillDelay: Kill while a start waits for its delay, which never elapses.
func KillDelay() {
	props("C13")
	e := &env{noTimers: true}
	c := e.config()
	c.ErrorDelay = 3 * time.Second
	c.BounceDelay = 2 * time.Second
	e.engine(c)
	a := e.mf("a")
	a.own, a.mask, a.failMask = 1, eN|eBounce, eN|eBounce
	e.install(a)
	if vp.Bool("settle") {
		vp.Quiesce()
		vp.Assert(a.calls == 1 && e.timers == 1, "C16: a restart is not delayed")
		vp.Assert(a.calls == 1, "C15: a restart does not wait for the delay")
		vp.Reach("delayed")
	}
	e.finish()
}

// near: d is base varied by at most 10% and rounded to a millisecond (2 ms
// of slack).
func near(d time.Duration, base float64) bool {
	slack := 2e6 + base*1e-9
	return float64(d) >= base*0.9-slack && float64(d) <= base*1.1+slack
}

// nearI is near in integers, for symbolic bases.
func nearI(d, base time.Duration) bool {
	x := 10 * (d - base)
	return x >= -base-10*time.Millisecond && x <= base+10*time.Millisecond
}

// DelayBase: without back-off, symbolic base delays and fuzz.
func DelayBase() {
	props("C16")
	e := &env{}
	c := e.config()
	c.ErrorDelay = time.Duration(vp.Int("ErrorDelay", 0, 255)) * time.Millisecond
	c.BounceDelay = time.Duration(vp.Int("BounceDelay", 0, 255)) * time.Millisecond
	a := e.mf("a")
	a.own, a.mask = 1, eN|eBounce
	e.judge = func(d time.Duration) {
		e.afters++
		switch {
		case e.afters == 1:
			vp.Assert(d == 0, "C16: the first start is delayed")
		case a.lastEnd == errN:
			vp.Assert(nearI(d, c.ErrorDelay), "C16: a restart is not delayed by the base delay")
		default:
			vp.Assert(nearI(d, c.BounceDelay), "C16: a restart is not delayed by the base delay")
		}
	}
	e.engine(c)
	e.install(a)
	vp.Quiesce()
	vp.Assert(e.afters == 2, "C16: not one delay per start")
	vp.Reach("end")
	e.finish()
}

// DelayKind: the base delay after errors and after ErrBounce, from starts and
// from workers.
func DelayKind() {
	props("C16")
	e := &env{}
	c := e.config()
	c.ErrorDelay, c.BounceDelay = 3*time.Second, 8*time.Second
	a := e.mf("a")
	a.own, a.mask, a.failMask = 2, eN|eBounce, eN|eBounce
	e.judge = func(d time.Duration) {
		e.afters++
		switch {
		case e.afters == 1:
			vp.Assert(d == 0, "C16: the first start is delayed")
		case a.lastEnd == errN:
			vp.Assert(near(d, 3e9), "C16: a restart is not delayed by the base delay")
			vp.Reach("error")
		default:
			vp.Assert(near(d, 8e9), "C16: a restart is not delayed by the base delay")
			vp.Reach("bounce")
		}
	}
	e.engine(c)
	e.install(a)
	vp.Quiesce()
	vp.Assert(e.afters == 3, "C16: not one delay per start")
	e.finish()
}

var delays = []time.Duration{3 * time.Second, 1, 1500 * time.Microsecond, 8 * time.Second}
var factors = []float64{2, 0, 1.5, 1, 10}
var maxDelays = []time.Duration{0, 5 * time.Second}

// want is the expected delay before the variation, for the n-th consecutive
// failure.
func want(base time.Duration, factor float64, max time.Duration, n int) float64 {
	w := float64(base)
	if base == 0 || factor == 0 {
		return w
	}
	for i := 1; i < n; i++ {
		w *= factor
	}
	if max > 0 && w > float64(max) {
		w = float64(max)
	}
	if w > 1<<63 {
		w = 1 << 63
	}
	return w
}

// backoff: a manifold fails n times in a row, by start failures and exits,
// after symbolic run times.
func backoff(n int, base time.Duration, factor float64, max time.Duration) {
	props("C16")
	e := &env{}
	c := e.config()
	c.ErrorDelay, c.BounceDelay = base, base
	c.BackoffFactor, c.MaxDelay = factor, max
	c.BackoffResetTime = 100
	a := e.mf("a")
	a.own, a.mask, a.failMask, a.runs = n, eN, eN, true
	k := 0
	e.judge = func(d time.Duration) {
		e.afters++
		if e.afters == 1 {
			vp.Assert(d == 0, "C16: the first start is delayed")
			return
		}
		if a.ran >= 100 {
			k = 1
		} else {
			k++
		}
		vp.Assert(d >= 0, "C16: a restart delay is negative")
		vp.Assert(near(d, want(base, factor, max, k)), "C16: a restart delay is not the base delay with back-off and cap")
	}
	e.engine(c)
	e.install(a)
	vp.Quiesce()
	vp.Assert(e.afters == n+1, "C16: not one delay per start")
	vp.Reach("end")
	e.finish()
}

// Backoff: base 3 s, factor 2, no cap.
func Backoff() { backoff(3, 3*time.Second, 2, 0) }

// BackoffCap: with a cap.
func BackoffCap() { backoff(3, 3*time.Second, 2, 5*time.Second) }

// BackoffOdd: unusual factors, caps and delays.
func BackoffOdd() {
	backoff(2, delays[vp.Pick("delay", len(delays))], factors[vp.Pick("factor", len(factors))], maxDelays[vp.Pick("max", len(maxDelays))])
}

// BackoffMany: more failures in a row.
func BackoffMany() {
	backoff(5, 3*time.Second, factors[vp.Pick("factor", len(factors))], maxDelays[vp.Pick("max", len(maxDelays))])
}

// DelayBounce: restarts because an input changed.
func DelayBounce() {
	props("C16")
	e := &env{}
	c := e.config()
	c.BounceDelay = 8 * time.Second
	c.BackoffFactor = factors[vp.Pick("factor", 3)]
	e.judge = func(d time.Duration) {
		vp.Assert(d == 0 || near(d, 8e9), "C16: a restart because of a changed input is not delayed by BounceDelay")
	}
	e.engine(c)
	a := e.mf("a")
	b := e.mf("b", a)
	a.own, a.mask = 1, eN
	b.mask = eNil
	e.install(a)
	e.install(b)
	vp.Quiesce()
	vp.Reach("end")
	e.finish()
}

// DelayNil: failures, a successful end, and failures after an input has changed.
func DelayNil() {
	props("C16")
	e := &env{}
	c := e.config()
	c.ErrorDelay, c.BounceDelay = 3*time.Second, 8*time.Second
	c.BackoffFactor, c.BackoffResetTime = 2, 100
	a := e.mf("a")
	b := e.mf("b", a)
	a.mask = eBounce
	b.own, b.mask, b.failMask, b.soft = 4, eN|eNil, eN, true
	again, before := false, 0
	e.judge = func(d time.Duration) {
		for k, w := 1, 3e9; k <= 5; k, w = k+1, w*2 {
			if !near(d, w) {
				continue
			}
			if again {
				// a start that is called off may count as a failure
				vp.Assert(k <= b.fails-before+1, "C16: failures before a successful end count")
				vp.Reach("failed after success")
			} else {
				vp.Assert(k == b.fails, "C16: a restart delay is not the base delay with back-off and cap")
			}
		}
	}
	e.engine(c)
	e.install(a)
	vp.Quiesce()
	e.install(b)
	vp.Quiesce()
	if b.live() == nil {
		vp.Assert(b.lastEnd == nil, "C16: a failed manifold is not restarted")
		again, before = true, b.fails
		a.live().exit = true
		vp.Quiesce()
	}
	e.finish()
}

// BackoffHuge: the back-off exceeds what a Duration can hold.
func BackoffHuge() { backoff(2, 3*time.Second, 1e10, 0) }

// BackoffMax: the cap is as large as a Duration can be.
func BackoffMax() { backoff(2, 1<<63-1, 2, 1<<63-1) }

// BackoffNone: no back-off, the largest delay.
func BackoffNone() { backoff(1, 1<<63-1, 0, 0) }

// FatalDelay: a fatal error while another manifold waits for its delay, which
// never elapses, and a third one waits for its context.
func FatalDelay() {
	props("C13", "C22")
	e := &env{noTimers: true}
	c := e.config()
	c.ErrorDelay = 3 * time.Second
	e.engine(c)
	a := e.mf("a")
	b := e.mf("b")
	d := e.mf("d")
	a.own, a.mask, a.failMask = 1, eN, eN
	b.own, b.mask = 1, eF1
	d.ctxStarts = 1
	e.install(a)
	e.install(d)
	if vp.Bool("settle") {
		vp.Quiesce()
		vp.Assert(a.calls == 1 && e.timers == 1, "C16: a restart is not delayed")
	}
	e.install(b)
	e.wait()
	vp.Quiesce()
	vp.Assert(e.fatals > 0, "C17: the engine stops although nothing was fatal")
	vp.Assert(vp.Goroutines() == 0, "C13: a goroutine is left after the engine's end")
	vp.Reach("end")
}
