// Package misc holds the harnesses for the small helpers and for the
// validation of configurations.
package misc

import (
	"context"
	"errors"
	"math"
	"time"

	"github.com/juju/worker/v4"
	"github.com/juju/worker/v4/dependency"
	"github.com/juju/worker/v4/workertest"
	"github.com/juju/worker/v4/zzverif/vp"
)

var errW = errors.New("worker error")

func props(l ...string) {
	for _, p := range l {
		vp.DeadlockIs(p)
		vp.CrashIs(p)
	}
}

func pickErr() error {
	if vp.Bool("err") {
		return errW
	}
	return nil
}

type hw struct {
	killed bool
	exit   bool
	kills  int
	waits  int
	dead   bool
	err    error
	order  string
	ch     chan struct{}
}

func (w *hw) Kill() {
	vp.Gate()
	w.kills++
	w.killed = true
	w.order += "k"
}

func (w *hw) Wait() error {
	w.order += "w"
	vp.Await(&w.killed, &w.exit)
	w.waits++
	w.dead = true
	return w.err
}

// hd has a Dead method.
type hd struct{ hw }

func (w *hd) Dead() <-chan struct{} { return w.ch }

// Stop kills, then waits, and returns Wait's error.
func Stop() {
	props("C28")
	w := &hw{err: pickErr(), exit: vp.Bool("already done")}
	err := worker.Stop(w)
	vp.Assert(w.kills >= 1 && w.waits >= 1 && w.dead, "C28: Stop returns before the worker was killed and has finished")
	vp.Assert(w.order[0] == 'k', "C28: Stop waits before it kills")
	vp.Assert(err == w.err, "C28: Stop does not return Wait's error")
	vp.Reach("end")
}

func isClosed(c <-chan struct{}) bool {
	select {
	case <-c:
		return true
	default:
		return false
	}
}

// Dead returns a channel closed exactly when the worker is done.
func Dead() {
	props("C28")
	w := &hw{err: pickErr()}
	var ww worker.Worker = w
	if vp.Bool("has Dead") {
		d := &hd{hw{err: w.err}}
		w, ww = &d.hw, d
		// a nil channel: not usable
	}
	c := worker.Dead(ww)
	vp.Assert(c != nil, "C28: Dead returns no channel")
	early := vp.Bool("early")
	if early {
		vp.Quiesce()
		vp.Assert(!isClosed(c), "C28: the channel is closed although the worker is running")
	}
	stopped := false
	go func() {
		<-c
		vp.Gate()
		stopped = true
		vp.Assert(w.dead, "C28: the channel is closed although the worker is running")
	}()
	vp.Gate()
	vp.Assert(w.kills == 0, "C28: Dead kills the worker")
	w.exit = true
	vp.Quiesce()
	vp.Assert(stopped && isClosed(c), "C28: the channel is not closed although the worker has finished")
	vp.Assert(w.kills == 0, "C28: Dead kills the worker")
	vp.Reach("end")
}

// DeadOwn: a worker's own Dead channel is used.
func DeadOwn() {
	props("C28")
	d := &hd{hw{err: pickErr()}}
	d.ch = make(chan struct{})
	c := worker.Dead(d)
	vp.Assert(c == (<-chan struct{})(d.ch), "C28: the worker's own Dead channel is not returned")
	vp.Quiesce()
	vp.Assert(d.waits == 0 && d.kills == 0 && d.order == "", "C28: Dead interferes with a worker that has a Dead channel")
	vp.Assert(vp.Goroutines() == 0, "C28: Dead starts a goroutine for a worker that has a Dead channel")
	vp.Reach("end")
}

// ErrorWorker: runs until killed, then fails with its error.
func ErrorWorker() {
	props("C29")
	e := pickErr()
	w := workertest.NewErrorWorker(e)
	n := 0
	var errs [2]error
	for i := 0; i < 2; i++ {
		i := i
		go func() {
			errs[i] = w.Wait()
			vp.Gate()
			n++
		}()
	}
	if vp.Bool("quiet") {
		vp.Quiesce()
		vp.Assert(n == 0, "C29: an error worker stops without being killed")
	}
	killed := vp.Bool("kill")
	if killed {
		w.Kill()
		if vp.Bool("again") {
			w.Kill()
		}
	}
	vp.Quiesce()
	vp.Assert((n == 2) == killed, "C29: an error worker does not stop exactly when killed")
	if killed {
		vp.Assert(errs[0] == e && errs[1] == e && w.Wait() == e, "C29: an error worker does not fail with its error")
	}
	vp.Reach("end")
}

// DeadWorker is always finished.
func DeadWorker() {
	props("C29")
	e := pickErr()
	w := workertest.NewDeadWorker(e)
	if vp.Bool("kill") {
		w.Kill()
	}
	vp.Assert(w.Wait() == e, "C29: a dead worker does not return its error")
	w.Kill()
	vp.Assert(w.Wait() == e, "C29: a dead worker does not return its error")
	vp.Assert(vp.Goroutines() == 0, "C29: a dead worker runs a goroutine")
	vp.Reach("end")
}

// ForeverWorker ignores Kill.
func ForeverWorker() {
	props("C29")
	e := pickErr()
	w := workertest.NewForeverWorker(e)
	returned := false
	var err error
	go func() {
		err = w.Wait()
		returned = true
	}()
	if vp.Bool("kill") {
		w.Kill()
		w.Kill()
	}
	if vp.Bool("quiet") {
		vp.Quiesce()
		vp.Assert(!returned, "C29: a forever worker stops without ReallyKill")
	}
	w.ReallyKill()
	vp.Quiesce()
	vp.Assert(returned && err == e, "C29: a forever worker does not fail with its error after ReallyKill")
	w.Kill()
	vp.Assert(w.Wait() == e, "C29: a forever worker does not fail with its error after ReallyKill")
	vp.Reach("end")
}

// FakeWatcher: capacity, preloaded and pinged changes.
func FakeWatcher() {
	props("C29")
	n := vp.Pick("len", 4)
	p := vp.Pick("preload", 4)
	vp.Assume(p <= n)
	w := workertest.NewFakeWatcher(n, p)
	pings := vp.Pick("pings", 4)
	vp.Assume(p+pings <= n)
	for i := 0; i < pings; i++ {
		w.Ping()
	}
	got := 0
	for {
		select {
		case <-w.Changes():
			got++
			continue
		default:
		}
		break
	}
	vp.Assert(got == p+pings, "C29: a fake watcher does not deliver exactly the preloaded and pinged changes")
	returned := false
	var err error
	go func() {
		err = w.Wait()
		returned = true
	}()
	vp.Quiesce()
	vp.Assert(!returned, "C29: a fake watcher stops without being killed")
	// the capacity is there again
	pinged := 0
	go func() {
		for i := 0; i <= n; i++ {
			w.Ping()
			pinged++
		}
	}()
	vp.Quiesce()
	vp.Assert(pinged == n, "C29: a fake watcher does not accept as many changes as its capacity")
	<-w.Changes()
	vp.Quiesce()
	vp.Assert(pinged == n+1, "C29: a fake watcher does not deliver a pinged change")
	w.Kill()
	vp.Quiesce()
	vp.Assert(returned && err == nil, "C29: a fake watcher does not stop when killed")
	vp.Reach("end")
}

// FakeWatcherPanic: more preloaded changes than capacity is refused.
func FakeWatcherPanic() {
	props("C29")
	n := vp.Pick("len", 3)
	p := vp.Pick("preload", 4)
	panicked := false
	func() {
		defer func() {
			if recover() != nil {
				panicked = true
			}
		}()
		vp.Assume(p > n)
		workertest.NewFakeWatcher(n, p)
	}()
	vp.Assert(panicked, "C29: a fake watcher accepts more preloaded changes than its capacity")
	vp.Reach("end")
}

// ---- configurations ----

type clk struct{}

func (clk) Now() time.Time                         { return vp.Time(0) }
func (clk) After(d time.Duration) <-chan time.Time { return nil }

type logger struct{}

func (logger) Tracef(string, ...interface{}) {}
func (logger) Debugf(string, ...interface{}) {}
func (logger) Infof(string, ...interface{})  {}
func (logger) Errorf(string, ...interface{}) {}

type metrics struct{}

func (metrics) RecordStart(name string) {}

// EngineConfig: any combination of missing parts, any durations, any factor.
func EngineConfig() {
	props("C21")
	c := dependency.EngineConfig{}
	ok := true
	if vp.Bool("IsFatal") {
		c.IsFatal = func(error) bool { return false }
	} else {
		ok = false
	}
	if vp.Bool("WorstError") {
		c.WorstError = func(a, b error) error { return a }
	} else {
		ok = false
	}
	if vp.Bool("Clock") {
		c.Clock = clk{}
	} else {
		ok = false
	}
	if vp.Bool("Metrics") {
		c.Metrics = metrics{}
	} else {
		ok = false
	}
	if vp.Bool("Logger") {
		c.Logger = logger{}
	} else {
		ok = false
	}
	if vp.Bool("Filter") {
		c.Filter = func(e error) error { return e }
	}
	c.ErrorDelay = time.Duration(vp.Int("ErrorDelay", math.MinInt64, math.MaxInt64))
	c.BounceDelay = time.Duration(vp.Int("BounceDelay", math.MinInt64, math.MaxInt64))
	c.BackoffResetTime = time.Duration(vp.Int("BackoffResetTime", math.MinInt64, math.MaxInt64))
	c.MaxDelay = time.Duration(vp.Int("MaxDelay", math.MinInt64, math.MaxInt64))
	c.BackoffFactor = vp.Float("BackoffFactor")
	want := ok && c.ErrorDelay >= 0 && c.BounceDelay >= 0 && c.BackoffResetTime >= 0 && c.MaxDelay >= 0 && (c.BackoffFactor == 0 || c.BackoffFactor >= 1)
	e, err := dependency.NewEngine(c)
	vp.Assert((err == nil) == want, "C21: NewEngine accepts an invalid configuration or rejects a valid one")
	vp.Assert((err == nil) == (e != nil), "C21: NewEngine returns an engine together with an error, or neither")
	if err != nil {
		vp.Assert(vp.Goroutines() == 0, "C21: a rejected configuration starts a goroutine")
		vp.Reach("rejected")
		return
	}
	vp.Reach("accepted")
	e.Kill()
	vp.Assert(e.Wait() == nil, "C21: an idle engine fails")
}

// RunnerConfig: the name is all that matters.
func RunnerConfig() {
	props("C21")
	p := worker.RunnerParams{}
	named := vp.Bool("Name")
	if named {
		p.Name = "r"
	}
	if vp.Bool("IsFatal") {
		p.IsFatal = func(error) bool { return false }
	}
	if vp.Bool("ShouldRestart") {
		p.ShouldRestart = func(error) bool { return false }
	}
	if vp.Bool("MoreImportant") {
		p.MoreImportant = func(a, b error) bool { return false }
	}
	if vp.Bool("Clock") {
		p.Clock = clk{}
	}
	if vp.Bool("Logger") {
		p.Logger = logger{}
	}
	p.RestartDelay = time.Duration(vp.Int("RestartDelay", 0, math.MaxInt64))
	r, err := worker.NewRunner(p)
	vp.Assert((err == nil) == named, "C21: NewRunner accepts unnamed or rejects named parameters")
	if err != nil {
		vp.Assert(r == nil && vp.Goroutines() == 0, "C21: rejected parameters start something")
		vp.Reach("rejected")
		return
	}
	vp.Reach("accepted")
	// every default works
	w := &hw{}
	err = r.StartWorker(context.Background(), "a", func(context.Context) (worker.Worker, error) { return w, nil })
	vp.Assert(err == nil, "C21: a runner with valid parameters does not work")
	r.Kill()
	vp.Assert(r.Wait() == nil, "C21: an idle runner fails")
}
