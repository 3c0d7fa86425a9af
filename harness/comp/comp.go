// Package comp holds the harnesses for workers made of workers: what Runner,
// Engine and Catacomb have in common, and how they nest.
package comp

import (
	"context"
	"errors"
	"time"

	"github.com/juju/worker/v4"
	"github.com/juju/worker/v4/catacomb"
	"github.com/juju/worker/v4/dependency"
	"github.com/juju/worker/v4/zzverif/vp"
)

type logger struct{}

func (logger) Tracef(string, ...interface{}) {}
func (logger) Debugf(string, ...interface{}) {}
func (logger) Infof(string, ...interface{})  {}
func (logger) Errorf(string, ...interface{}) {}

type metrics struct{}

func (metrics) RecordStart(string) {}

// clk never lets a delay elapse, except that of no time.
type clk struct{}

func (clk) Now() time.Time { return vp.Time(1) }
func (clk) After(d time.Duration) <-chan time.Time {
	c := make(chan time.Time, 1)
	if d == 0 {
		c <- vp.Time(1)
	}
	return c
}

var (
	errF = errors.New("fatal")
	errG = errors.New("fatal as well")
)

func props(l ...string) {
	for _, p := range l {
		vp.DeadlockIs(p)
		vp.CrashIs(p)
	}
}

// leaf is a worker that may end by itself, with any of the errors, and ends
// when killed, with any of them.
type leaf struct {
	killed, exit, dead bool
	err                error
	kills              int
}

func newLeaf() *leaf {
	w := &leaf{exit: vp.Bool("own")}
	w.err = pickErr()
	return w
}

func pickErr() error {
	switch vp.Pick("err", 3) {
	case 1:
		return errF
	case 2:
		return errG
	}
	return nil
}

func (w *leaf) Kill() {
	w.kills++
	w.killed = true
}

func (w *leaf) Wait() error {
	vp.Await(&w.killed, &w.exit)
	w.dead = true
	return w.err
}

func fatal(err error) bool { return err == errF || err == errG }

func worst(a, b error) error {
	if a == errG || b == nil {
		return a
	}
	return b
}

func newRunner() *worker.Runner {
	r, err := worker.NewRunner(worker.RunnerParams{
		Name:          "runner",
		IsFatal:       fatal,
		MoreImportant: func(a, b error) bool { return a == errG && b != errG },
		Clock:         clk{},
		Logger:        logger{},
	})
	vp.Assert(err == nil, "C21: NewRunner refuses a valid configuration")
	return r
}

func newEngine(filter func(error) error) *dependency.Engine {
	e, err := dependency.NewEngine(dependency.EngineConfig{
		IsFatal: fatal, WorstError: worst, Clock: clk{}, Metrics: metrics{}, Logger: logger{}, Filter: filter,
	})
	vp.Assert(err == nil, "C21: NewEngine refuses a valid configuration")
	return e
}

// contract checks what every worker promises: any number of Kills and Waits,
// from any goroutines, before and after its end.
func contract(w worker.Worker, ends bool) error {
	var errs [2]error
	var done [2]bool
	for i := range errs {
		i := i
		go func() {
			err := w.Wait()
			vp.Gate()
			errs[i], done[i] = err, true
		}()
	}
	killed := false
	if !ends || vp.Bool("kill") {
		go func() {
			w.Kill()
			vp.Gate()
			w.Kill()
			killed = true
		}()
	} else {
		killed = true
	}
	vp.Await(&done[0])
	err := w.Wait()
	vp.Assert(err == errs[0], "C34: Wait returns different errors")
	w.Kill()
	vp.Assert(w.Wait() == err, "C34: Kill of a finished worker changes what Wait returns")
	vp.Quiesce()
	vp.Assert(killed, "C34: Kill does not return")
	vp.Assert(done[1], "C34: Wait does not return although the worker has finished")
	vp.Assert(errs[1] == err, "C34: Wait returns different errors")
	vp.Assert(vp.Goroutines() == 0, "C34: a finished worker leaves goroutines behind")
	vp.Reach("end")
	return err
}

// RunnerContract: a runner with two workers.
func RunnerContract() {
	props("C34")
	r := newRunner()
	var ws [2]*leaf
	ends := false
	for i, id := range []string{"a", "b"} {
		i := i
		ws[i] = newLeaf()
		if ws[i].exit && ws[i].err != nil {
			ends = true
		}
		err := r.StartWorker(context.Background(), id, func(context.Context) (worker.Worker, error) {
			return ws[i], nil
		})
		// it may have died
		vp.Assert(err == nil || err == worker.ErrDead, "C07: StartWorker of a fresh id fails")
	}
	contract(r, ends)
}

// EngineContract: an engine with two manifolds, and a Filter.
func EngineContract() {
	props("C34")
	var filter func(error) error
	if vp.Bool("filter") {
		filter = func(err error) error {
			if err == errF {
				return nil
			}
			return err
		}
	}
	e := newEngine(filter)
	ends := false
	for _, name := range []string{"a", "b"} {
		w := newLeaf()
		if w.exit && w.err != nil {
			ends = true
		}
		started := false
		e.Install(name, dependency.Manifold{Start: func(context.Context, dependency.Getter) (worker.Worker, error) {
			vp.Assert(!started, "C15: started again although nothing calls for it")
			started = true
			return w, nil
		}})
	}
	contract(e, ends)
}

// CatacombContract: a catacomb with an initial worker.
func CatacombContract() {
	props("C34")
	w := newLeaf()
	c := &cata{}
	res := pickErr()
	c.invoke(func() error {
		<-c.site.Dying()
		return res
	}, w)
	contract(c, w.exit && w.err != nil)
}

// cata is a worker made with a catacomb.
type cata struct{ site catacomb.Catacomb }

func (c *cata) Kill()       { c.site.Kill(nil) }
func (c *cata) Wait() error { return c.site.Wait() }

func (c *cata) invoke(work func() error, init ...worker.Worker) {
	err := catacomb.Invoke(catacomb.Plan{Name: "cata", Site: &c.site, Work: work, Init: init})
	vp.Assert(err == nil, "C25: Invoke of a valid plan fails")
}

func (c *cata) idle() error {
	<-c.site.Dying()
	return c.site.ErrDying()
}

// RunnerInCatacomb: a catacomb owns a runner that runs a worker.
func RunnerInCatacomb() {
	props("C34")
	w := newLeaf()
	r := newRunner()
	c := &cata{}
	c.invoke(c.idle, r)
	got := false
	serr := r.StartWorker(context.Background(), "a", func(context.Context) (worker.Worker, error) {
		got = true
		return w, nil
	})
	err := top(c, w.exit && w.err != nil && serr == nil)
	vp.Assert(!got || w.dead, "C34: a worker outlives the worker that owns it")
	if got {
		vp.Assert(err == w.err, "C34: the error of a nested worker is not passed on")
	} else {
		vp.Assert(err == nil, "C34: a nested worker fails with an error nobody gave")
	}
}

// CatacombInEngine: an engine runs a catacomb that owns a worker.
func CatacombInEngine() {
	props("C34")
	w := newLeaf()
	e := newEngine(nil)
	got := false
	c := &cata{}
	ierr := e.Install("a", dependency.Manifold{Start: func(context.Context, dependency.Getter) (worker.Worker, error) {
		vp.Assert(!got, "C15: started again although nothing calls for it")
		got = true
		c.invoke(c.idle, w)
		return c, nil
	}})
	vp.Assert(ierr == nil, "C19: Install of a fresh name on a running engine fails")
	err := top(e, w.exit && w.err != nil)
	vp.Assert(!got || w.dead, "C34: a worker outlives the worker that owns it")
	if got {
		vp.Assert(err == w.err, "C34: the error of a nested worker is not passed on")
	} else {
		vp.Assert(err == nil, "C34: a nested worker fails with an error nobody gave")
	}
}

// EngineInRunner: a runner runs an engine that runs a worker.
func EngineInRunner() {
	props("C34")
	w := newLeaf()
	r := newRunner()
	got := false
	serr := r.StartWorker(context.Background(), "engine", func(context.Context) (worker.Worker, error) {
		e := newEngine(nil)
		ierr := e.Install("a", dependency.Manifold{Start: func(context.Context, dependency.Getter) (worker.Worker, error) {
			vp.Assert(!got, "C15: started again although nothing calls for it")
			got = true
			return w, nil
		}})
		vp.Assert(ierr == nil, "C19: Install of a fresh name on a running engine fails")
		return e, nil
	})
	vp.Assert(serr == nil, "C07: StartWorker of a fresh id fails")
	err := top(r, w.exit && w.err != nil)
	vp.Assert(!got || w.dead, "C34: a worker outlives the worker that owns it")
	if got {
		vp.Assert(err == w.err, "C34: the error of a nested worker is not passed on")
	} else {
		vp.Assert(err == nil, "C34: a nested worker fails with an error nobody gave")
	}
}

// top kills w, or waits for it to end by itself, and leaves nothing behind.
func top(w worker.Worker, ends bool) error {
	if !ends || vp.Bool("kill") {
		w.Kill()
	}
	err := w.Wait()
	vp.Quiesce()
	vp.Assert(vp.Goroutines() == 0, "C34: a finished worker leaves goroutines behind")
	vp.Reach("end")
	return err
}
