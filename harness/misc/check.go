package misc

import (
	jujutesting "github.com/juju/testing"
	gc "gopkg.in/check.v1"

	"github.com/juju/worker/v4"
	"github.com/juju/worker/v4/workertest"
	"github.com/juju/worker/v4/zzverif/vp"
	"github.com/juju/worker/v4/zzverif/vpc"
)

// cw is a worker that may finish by itself and may ignore Kill.
type cw struct {
	hw
	hold bool
	own  bool
}

func (w *cw) Kill() {
	vp.Gate()
	w.kills++
	if !w.hold {
		w.killed = true
	}
}

func newCW(own, hold bool) *cw {
	w := &cw{own: own, hold: hold}
	w.exit, w.err = own, pickErr()
	return w
}

// in runs f in its own goroutine: a helper must not stop it.
func in(f func()) {
	returned := false
	done := make(chan struct{})
	go func() {
		defer close(done)
		f()
		returned = true
	}()
	<-done
	vp.Assert(returned, "C32: a helper stops the goroutine it is called from")
}

func alive(w worker.Worker) bool {
	c := vpc.NewC()
	in(func() { workertest.CheckAlive(c, w) })
	return !c.Failed()
}

// CheckAlive: the worker may finish at any moment; the delay may elapse at any
// moment.
func CheckAlive() {
	props("C32")
	w := newCW(vp.Bool("own"), false)
	ok := alive(w)
	if ok {
		vp.Assert(vpc.Fired() > 0, "C32: CheckAlive returns before the delay although the worker has not finished")
		vp.Reach("alive")
	} else {
		vp.Assert(w.dead, "C32: CheckAlive fails although the worker has not finished")
		vp.Reach("not alive")
	}
	vp.Assert(w.kills == 0, "C32: CheckAlive kills the worker")
	for _, d := range vpc.Delays() {
		vp.Assert(d == jujutesting.ShortWait, "C32: CheckAlive does not wait for its delay")
	}
}

// CheckAliveDead: the worker finishes before the delay elapses.
func CheckAliveDead() {
	props("C32")
	vpc.TimersOff()
	w := newCW(true, false)
	vp.Assert(!alive(w), "C32: CheckAlive does not fail although the worker has finished")
	vp.Reach("end")
}

// stopped judges how a helper that stops w has ended: err is what it returned.
func stopped(c *gc.C, w *cw, err error, mayFail bool) {
	if w.dead && err == w.err && !(c.Failed() && err != nil && vpc.Fired() > 0) {
		vp.Assert(!c.Failed() || mayFail, "C32: a helper fails the test although the worker has stopped")
		vp.Reach("stopped")
	} else {
		vp.Assert(vpc.Fired() > 0, "C32: a helper does not return the worker's error")
		vp.Assert(err != nil, "C32: a helper returns no error although it has timed out")
		vp.Assert(c.Failed(), "C32: a helper does not fail the test although it has timed out")
		vp.Reach("timed out")
	}
	longDelays()
}

func longDelays() {
	for _, d := range vpc.Delays() {
		vp.Assert(d == jujutesting.LongWait, "C32: a helper does not wait for its timeout")
	}
}

// CheckKilled: the worker may finish at any moment, the timeout may elapse at
// any moment.
func CheckKilled() {
	props("C32")
	w := newCW(vp.Bool("own"), false)
	c := vpc.NewC()
	var err error
	in(func() { err = workertest.CheckKilled(c, w) })
	vp.Assert(w.kills == 0, "C32: CheckKilled kills the worker")
	stopped(c, w, err, false)
}

// CheckKilledOff: the timeout does not elapse.
func CheckKilledOff() {
	props("C32")
	vpc.TimersOff()
	w := newCW(true, false)
	c := vpc.NewC()
	var err error
	in(func() { err = workertest.CheckKilled(c, w) })
	vp.Assert(w.dead && err == w.err && !c.Failed(), "C32: CheckKilled does not return the error of a worker that has finished")
	vp.Reach("end")
}

// CheckKill: the worker may finish by itself, or ignore Kill.
func CheckKill() {
	props("C32")
	w := newCW(vp.Bool("own"), vp.Bool("hold"))
	if !w.hold && vp.Bool("off") {
		vpc.TimersOff()
	}
	c := vpc.NewC()
	var err error
	in(func() { err = workertest.CheckKill(c, w) })
	vp.Assert(w.kills > 0, "C32: CheckKill does not kill the worker")
	stopped(c, w, err, false)
}

// CleanKill fails the test exactly when the worker has failed or timed out.
func CleanKill() {
	props("C32")
	w := newCW(vp.Bool("own"), vp.Bool("hold"))
	c := vpc.NewC()
	if !w.hold && vp.Bool("off") {
		vpc.TimersOff()
	}
	in(func() { workertest.CleanKill(c, w) })
	vp.Assert(w.kills > 0, "C32: CleanKill does not kill the worker")
	if c.Failed() {
		vp.Assert(vpc.Fired() > 0 || w.dead && w.err != nil, "C32: CleanKill fails although the worker has stopped without error")
		vp.Reach("failed")
	} else {
		vp.Assert(w.dead && w.err == nil, "C32: CleanKill does not fail although the worker has not stopped without error")
		vp.Reach("clean")
	}
	longDelays()
}

// DirtyKill fails the test exactly when the worker does not stop in time.
func DirtyKill() {
	props("C32")
	w := newCW(vp.Bool("own"), vp.Bool("hold"))
	c := vpc.NewC()
	if !w.hold && vp.Bool("off") {
		vpc.TimersOff()
	}
	in(func() { workertest.DirtyKill(c, w) })
	vp.Assert(w.kills > 0, "C32: DirtyKill does not kill the worker")
	if c.Failed() {
		vp.Assert(vpc.Fired() > 0, "C32: DirtyKill fails although the worker has stopped")
		vp.Reach("failed")
	} else {
		vp.Assert(w.dead, "C32: DirtyKill does not fail although the worker has not stopped")
		vp.Reach("dirty")
	}
	longDelays()
}

// CheckNilOrKill does nothing for nil, and fails and stops any other worker.
func CheckNilOrKill() {
	props("C32")
	c := vpc.NewC()
	if vp.Bool("nil") {
		in(func() { workertest.CheckNilOrKill(c, nil) })
		vp.Assert(!c.Failed(), "C32: CheckNilOrKill fails for nil")
		vp.Reach("nil")
		return
	}
	w := newCW(vp.Bool("own"), vp.Bool("hold"))
	in(func() { workertest.CheckNilOrKill(c, w) })
	vp.Assert(c.Failed(), "C32: CheckNilOrKill does not fail for a worker")
	vp.Assert(w.kills > 0, "C32: CheckNilOrKill does not kill the worker")
	vp.Assert(w.dead || vpc.Fired() > 0, "C32: CheckNilOrKill returns before the worker has stopped")
	vp.Reach("worker")
	longDelays()
}

// CheckTwice: the helpers are used from two goroutines with one C.
func CheckTwice() {
	props("C32")
	v, w := newCW(false, false), newCW(false, false)
	vpc.TimersOff()
	c := vpc.NewC()
	done := make(chan struct{})
	go func() {
		defer close(done)
		in(func() { workertest.CleanKill(c, v) })
	}()
	in(func() { workertest.CleanKill(c, w) })
	<-done
	vp.Assert(v.dead && w.dead, "C32: CleanKill returns before the worker has stopped")
	vp.Assert(c.Failed() == (v.err != nil || w.err != nil), "C32: CleanKill does not fail exactly when a worker has failed")
	vp.Reach("end")
}

// CheckLeft: what a helper that gave up leaves behind ends with the worker.
func CheckLeft() {
	props("C32")
	w := newCW(vp.Bool("own"), true)
	c := vpc.NewC()
	switch vp.Pick("helper", 3) {
	case 0:
		in(func() { workertest.CheckAlive(c, w) })
	case 1:
		in(func() { workertest.CheckKilled(c, w) })
	case 2:
		in(func() { workertest.CheckKill(c, w) })
	}
	w.killed = true
	vp.Quiesce()
	vp.Assert(vp.Goroutines() == 0, "C32: a helper leaves a goroutine behind once the worker has finished")
	vp.Reach("end")
}
