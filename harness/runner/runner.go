// Package runner holds the harnesses for worker.Runner: an environment (clock,
// workers, start functions, clients) whose choices are symbolic, and ghost
// state that expresses the properties.
package runner

import (
	"context"
	"errors"
	"time"

	"github.com/juju/worker/v4"
	"github.com/juju/worker/v4/zzverif/vp"
)

type logger struct{}

func (logger) Debugf(string, ...interface{}) {}
func (logger) Infof(string, ...interface{})  {}
func (logger) Errorf(string, ...interface{}) {}

var (
	errF1 = errors.New("fatal one")
	errF2 = errors.New("fatal two")
	errN  = errors.New("restartable")
	errX  = errors.New("not restartable")
)

func fatal(err error) bool { return err == errF1 || err == errF2 }

// how an exit error is chosen
const (
	eNil = 1 << iota
	eN
	eX
	eF1
	eF2
)

func pickErr(name string, mask int) error {
	var es []error
	if mask&eNil != 0 {
		es = append(es, nil)
	}
	if mask&eN != 0 {
		es = append(es, errN)
	}
	if mask&eX != 0 {
		es = append(es, errX)
	}
	if mask&eF1 != 0 {
		es = append(es, errF1)
	}
	if mask&eF2 != 0 {
		es = append(es, errF2)
	}
	if len(es) == 1 {
		return es[0]
	}
	return es[vp.Pick(name, len(es))]
}

// inst is one worker instance handed to the runner.
type inst struct {
	s      *slot
	killed bool
	exit   bool // may finish by itself
	err    error
	dead   bool // its Wait has returned
	gone   bool // the runner has acted on its end
	hold   bool // ignores Kill
	kblock *bool
}

func (w *inst) Kill() {
	vp.Gate()
	if w.s.e.noKill {
		vp.Assert(w.s.mayKill || w.s.e.shutting(), "C05: a worker that nobody stopped is killed")
		vp.Assert(w.s.mayKill || w.s.e.shutting(), "C04: a worker is killed because another one finished")
	}
	if !w.hold {
		w.killed = true
	}
	if w.kblock != nil {
		vp.Await(w.kblock)
	}
}

func (w *inst) Wait() error {
	vp.Await(&w.killed, &w.exit)
	if !w.dead {
		w.dead = true
		w.err = pickErr("exiterr", w.s.exitMask())
		w.s.end(w.err)
	}
	return w.err
}

func (w *inst) Report() map[string]interface{} {
	return map[string]interface{}{"inst": w}
}

// slot is one StartWorker incarnation of an id.
type slot struct {
	e        *env
	id       string
	calls    int  // start calls begun
	starting bool // a start call is in progress
	insts    []*inst
	stopped  bool // StopWorker has returned nil for it
	mayKill  bool // someone may stop it
	endedSt  bool // it has finished since that
	ends     int  // how often an instance or a start call ended
	lastEnd  error
	ctx      context.Context
	mask     int  // exit errors, 0: the environment's
	maxOwn   int  // -1: the environment's
	ready    bool // StartWorker has returned nil
	ctxSeen  bool
	ticks    bool  // a start begins a minute after what was before it, and takes one
	began    int64 // when the last start began
}

func (s *slot) exitMask() int {
	if s.mask != 0 {
		return s.mask
	}
	return s.e.exitMask
}

// end records the end of a worker or a failed start.
func (s *slot) end(err error) {
	s.ends++
	s.lastEnd = err
	if s.stopped {
		s.endedSt = true
	}
	if s.e.fatal(err) {
		s.e.fatals++
	}
}

type env struct {
	r        *worker.Runner
	slots    []*slot
	timers   int // clock.After calls
	lastT    chan time.Time
	now      int64
	delay    time.Duration
	noTimers bool // the clock does not fire by itself

	maxStarts int // start calls per slot whose worker finishes by itself
	failMask  int // start failure errors (0: starts succeed)
	exitMask  int // exit errors
	slowStart bool
	ctxStart  bool // start blocks until its context is cancelled
	noKill    bool // no worker may be killed except by a stop of its slot

	killing    bool // Kill is about to be called
	killCalled bool // Kill has returned
	fatals     int
	first      error // first fatal error the runner learned of
	waited     bool  // Runner.Wait has returned

	fatalF, restartF func(error) bool // nil: the default classification
}

func (e *env) fatal(err error) bool {
	if e.fatalF != nil {
		return err != nil && e.fatalF(err)
	}
	return fatal(err)
}

func (e *env) restartable(err error) bool {
	if e.restartF != nil {
		return err != nil && !e.fatal(err) && e.restartF(err)
	}
	return err == errN
}

func (e *env) shutting() bool { return e.killing || e.fatals > 0 }

func (e *env) Now() time.Time { return vp.Time(1000 + e.now) }

func (e *env) After(d time.Duration) <-chan time.Time {
	vp.Gate()
	vp.Assert(d == e.delay, "C04: a restart waits for exactly RestartDelay")
	vp.Assert(!e.waited, "C02: a restart is scheduled after Wait has returned")
	e.timers++
	c := make(chan time.Time, 1)
	if !e.noTimers {
		c <- vp.Time(2000)
	}
	e.lastT = c
	if len(e.slots) == 1 {
		for _, w := range e.slots[0].insts {
			w.gone = true
		}
	}
	return c
}

func (e *env) isFatal(err error) bool {
	if !e.fatal(err) {
		return false
	}
	vp.Gate()
	if e.first == nil {
		e.first = err
	}
	return true
}

func (e *env) newSlot(id string) *slot {
	s := &slot{e: e, id: id, maxOwn: -1}
	e.slots = append(e.slots, s)
	return s
}

const minute = 60e9

// start is the start function of a slot.
func (s *slot) start(ctx context.Context) (worker.Worker, error) {
	e := s.e
	vp.Gate()
	s.ctx = ctx
	vp.Assert(!e.waited, "C02: a start function is called after Wait has returned")
	for _, o := range e.slots {
		if o.id != s.id {
			continue
		}
		vp.Assert(!o.starting, "C01: start called while an earlier start call for the id is in progress")
		for _, w := range o.insts {
			vp.Assert(w.dead, "C01: start called while an earlier worker of the id has not finished")
			w.gone = true
		}
	}
	vp.Assert(!s.endedSt, "C05: a stopped worker is started again after it finished")
	s.calls++
	if s.ticks {
		e.now += minute
		s.began = e.now
		defer func() { e.now += minute }()
	}
	if s.calls > 1 {
		vp.Assert(s.ends == s.calls-1, "C04: started again although it has not ended")
		vp.Assert(e.restartable(s.lastEnd), "C04: restarted although the last end does not call for a restart")
		vp.Assert(len(e.slots) > 1 || e.timers == s.calls-1, "C04: one restart delay per restart")
		vp.Assert(len(e.slots) > 1 || len(e.lastT) == 0, "C04: restarted before the restart delay has elapsed")
	} else {
		vp.Assert(len(e.slots) > 1 || e.timers == 0, "C04: the first start is not delayed")
	}
	own := s.calls <= e.maxStarts
	if s.maxOwn >= 0 {
		own = s.calls <= s.maxOwn
	}
	if e.slowStart || e.ctxStart {
		s.starting = true
		if e.ctxStart {
			<-ctx.Done()
			vp.Gate()
		} else {
			vp.Gate()
		}
		vp.Assert(!e.waited, "C02: Wait has returned while a start call is in progress")
		s.starting = false
	}
	if e.failMask != 0 && own && vp.Bool("startfails") {
		err := pickErr("starterr", e.failMask)
		s.end(err)
		return nil, err
	}
	w := &inst{s: s, exit: own}
	s.insts = append(s.insts, w)
	return w, nil
}

func (s *slot) last() *inst {
	if len(s.insts) == 0 {
		return nil
	}
	return s.insts[len(s.insts)-1]
}

func (e *env) newRunner() { e.newRunnerP(worker.RunnerParams{}) }

func (e *env) newRunnerP(p worker.RunnerParams) {
	e.delay = p.RestartDelay
	if e.delay == 0 {
		e.delay = 3 * time.Second
	}
	p.Name = "r"
	p.Clock = e
	p.Logger = logger{}
	if p.IsFatal == nil {
		p.IsFatal = e.isFatal
	}
	if p.ShouldRestart == nil {
		p.ShouldRestart = func(err error) bool { return err != errX }
		if e.restartF != nil {
			p.ShouldRestart = e.restartF
		}
	}
	r, err := worker.NewRunner(p)
	vp.Assert(err == nil, "C21: NewRunner rejects valid parameters")
	e.r = r
}

// begin starts a slot, which must succeed.
func (e *env) begin(id string) *slot {
	s := e.newSlot(id)
	err := e.r.StartWorker(context.Background(), id, s.start)
	vp.Assert(err == nil || e.shutting(), "C07: StartWorker of a fresh id on a running runner fails")
	return s
}

// finish kills the runner, waits for it, and checks the final state.
func (e *env) finish() {
	e.kill()
	e.wait()
	vp.Reach("end")
}

func (e *env) kill() {
	vp.Gate()
	e.killing = true
	e.r.Kill()
	e.killCalled = true
}

func (e *env) wait() {
	err := e.r.Wait()
	e.waited = true
	for _, s := range e.slots {
		vp.Assert(!s.starting, "C02: Wait returned while a start call is in progress")
		for _, w := range s.insts {
			vp.Assert(w.dead, "C02: Wait returned while a worker has not finished")
		}
	}
	vp.Assert(err == nil || e.fatal(err), "C06: Wait returns an error that is not fatal")
	vp.Assert((e.fatals > 0) == (err != nil), "C06: Wait's error does not reflect whether a worker failed fatally")
}

func props(l ...string) {
	for _, p := range l {
		vp.DeadlockIs(p)
		vp.CrashIs(p)
	}
}

const allMask = eNil | eN | eX | eF1

// One: a single worker whose starts may fail and which may finish with any
// kind of error, restarted up to twice, and a Kill at any moment.
func One() {
	props("C03")
	e := &env{maxStarts: 2, exitMask: allMask, failMask: eN | eX | eF1, slowStart: true}
	e.newRunner()
	e.begin("a")
	e.finish()
}

// One3 is One with more restarts.
func One3() {
	props("C03")
	e := &env{maxStarts: 4, exitMask: allMask, failMask: eN | eX | eF1, slowStart: true}
	e.newRunner()
	e.begin("a")
	e.finish()
}

// Two: two workers with symbolic exits, and a Kill at any moment.
func Two() {
	props("C03")
	e := &env{maxStarts: 1, exitMask: eN | eF1, slowStart: true}
	e.newRunner()
	e.begin("a")
	e.begin("b")
	e.finish()
}

// TwoBig is Two with a restart of each and all kinds of errors.
func TwoBig() {
	props("C03")
	e := &env{maxStarts: 2, exitMask: allMask, slowStart: true}
	e.newRunner()
	e.begin("a")
	e.begin("b")
	e.finish()
}

// Reuse: a client stops the worker and starts another one under the same id,
// while it runs, restarts or finishes, with a Kill at any moment.
func Reuse() {
	props("C03")
	e := &env{maxStarts: 2, exitMask: eNil | eN | eF1, slowStart: true}
	e.newRunner()
	s := e.begin("a")
	done := make(chan struct{})
	go func() {
		e.stop(s)
		e.second("a")
		close(done)
	}()
	e.finish()
	<-done
}

// stop calls StopWorker for slot s.
func (e *env) stop(s *slot) {
	s.mayKill = true
	err := e.r.StopWorker(s.id)
	vp.Gate()
	if err == nil {
		s.stopped = true
	} else {
		vp.Assert(err == worker.ErrDead && e.shutting(), "C05: StopWorker fails on a running runner")
	}
}

// second starts another slot under an id that may be known.
func (e *env) second(id string) *slot {
	s := e.newSlot(id)
	old := e.slots[0]
	err := e.r.StartWorker(context.Background(), id, s.start)
	vp.Gate()
	switch {
	case err == nil:
		// on a running runner the id was not known, so the first worker is over
		if !e.shutting() {
			vp.Assert(old.over(), "C07: StartWorker accepts an id that is known")
			vp.Reach("second accepted")
		}
	case err == worker.ErrDead:
		vp.Assert(e.shutting(), "C07: StartWorker reports a dead runner although it is running")
		vp.Assert(s.calls == 0, "C07: StartWorker fails but its function is called")
	default:
		vp.Assert(isAlreadyExists(err), "C07: StartWorker returns an unexpected error")
		vp.Assert(s.calls == 0, "C07: StartWorker refuses a known id but calls the function")
		vp.Reach("second refused")
	}
	return s
}

// over: the slot has ended for good, as far as its own ends tell.
func (s *slot) over() bool {
	if s.starting || s.calls != s.ends {
		return false
	}
	return s.ends > 0 && (!s.e.restartable(s.lastEnd) || s.stopped || s.mayKill)
}
