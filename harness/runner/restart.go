package runner

import (
	"context"
	"time"

	"github.com/juju/worker/v4"
	"github.com/juju/worker/v4/zzverif/vp"
)

func hasName(l []string, id string) bool {
	n := 0
	for _, x := range l {
		if x == id {
			n++
		}
	}
	vp.Assert(n <= 1, "C10: WorkerNames lists an id twice")
	return n == 1
}

// settled checks one slot when nothing can move any more (no Kill, no stop):
// everything that must be restarted runs, everything else is forgotten.
func (e *env) settled(s *slot) {
	if e.fatals > 0 {
		return
	}
	vp.Assert(!s.starting, "C04: a start call never returns")
	vp.Assert(s.calls > 0, "C07: StartWorker returned nil but the start function is not called")
	known := hasName(e.r.WorkerNames(), s.id)
	if s.over() {
		vp.Assert(!known, "C04: a worker that is not to be restarted is still known")
		vp.Reach("forgotten")
		return
	}
	vp.Assert(known, "C10: WorkerNames omits a known id")
	vp.Assert(s.calls == s.ends+1, "C04: a worker whose end calls for a restart is not started again")
	w := s.last()
	vp.Assert(w != nil && !w.dead && !w.killed, "C04: a worker does not keep running")
	if s.calls > 1 {
		vp.Reach("restarted")
	}
}

// Restart: one worker failing repeatedly, to start or while running, with a
// symbolic RestartDelay and a bystander; what has happened once all is quiet.
func Restart() {
	props("C04")
	e := &env{maxStarts: 2, exitMask: eNil | eN | eX, failMask: eN | eX}
	d := time.Duration(vp.Int("delay", 0, 1<<40))
	e.newRunnerP(worker.RunnerParams{RestartDelay: d})
	s := e.begin("a")
	vp.Quiesce()
	e.settled(s)
	e.finish()
}

// RestartTwo: the bystander is not touched by the other worker's ends.
func RestartTwo() {
	props("C04")
	e := &env{maxStarts: 1, exitMask: eNil | eN | eX, noKill: true}
	e.newRunner()
	s := e.begin("a")
	b := e.newSlot("b")
	b.maxOwn = 0
	err := e.r.StartWorker(context.Background(), "b", b.start)
	vp.Assert(err == nil, "C07: StartWorker of a fresh id on a running runner fails")
	vp.Quiesce()
	e.settled(s)
	e.settled(b)
	vp.Assert(b.calls == 1, "C04: an unrelated worker is restarted")
	e.finish()
}

// RestartDefault: ShouldRestart unset means always, a zero delay means 3s.
func RestartDefault() {
	props("C04")
	e := &env{maxStarts: 2, exitMask: eNil | eN, failMask: eN}
	e.delay = 3 * time.Second
	r, err := worker.NewRunner(worker.RunnerParams{Name: "r", Clock: e, Logger: logger{}, IsFatal: e.isFatal})
	vp.Assert(err == nil, "C21: NewRunner rejects valid parameters")
	e.r = r
	s := e.begin("a")
	vp.Quiesce()
	e.settled(s)
	e.finish()
}

// NoTimer: while the clock does not move nothing is restarted, and a killed
// runner does not wait for it.
func NoTimer() {
	props("C03")
	e := &env{maxStarts: 2, exitMask: eNil | eN | eX, failMask: eN | eX, noTimers: true}
	e.newRunner()
	s := e.begin("a")
	vp.Quiesce()
	vp.Assert(s.calls == 1, "C04: restarted before the restart delay has elapsed")
	if s.lastEnd == errN {
		vp.Assert(e.timers == 1, "C04: no restart delay is started")
		vp.Assert(hasName(e.r.WorkerNames(), "a"), "C10: WorkerNames omits an id waiting to be restarted")
		vp.Reach("waiting")
		if vp.Bool("fire") {
			e.lastT <- vp.Time(3000)
			vp.Quiesce()
			vp.Assert(s.calls == 2, "C04: not restarted after the restart delay")
			vp.Reach("fired")
		}
	}
	n := s.calls
	e.finish()
	vp.Assert(s.calls == n, "C03: a worker is restarted by a runner that is shutting down although its delay has not elapsed")
}

// NoTimerKill: as NoTimer with the Kill at any moment.
func NoTimerKill() {
	props("C03")
	e := &env{maxStarts: 2, exitMask: eNil | eN | eX, failMask: eN | eX, noTimers: true, slowStart: true}
	e.newRunner()
	s := e.begin("a")
	e.finish()
	vp.Assert(s.calls <= 1, "C03: a worker is restarted by a runner that is shutting down although its delay has not elapsed")
}

// FatalDelay: a fatal error while another worker waits for its restart delay.
func FatalDelay() {
	props("C03")
	e := &env{maxStarts: 1, exitMask: eF1, noTimers: true}
	e.newRunner()
	b := e.newSlot("b")
	b.mask = eN
	e.r.StartWorker(context.Background(), "b", b.start)
	e.begin("a")
	e.wait()
	vp.Reach("end")
}

// FatalStart: a fatal error while another worker's start waits for its
// context.
func FatalStart() {
	props("C03", "C07")
	e := &env{maxStarts: 0, exitMask: eNil}
	e.newRunner()
	b := e.newSlot("b")
	started := make(chan struct{})
	bs := func(ctx context.Context) (worker.Worker, error) {
		vp.Gate()
		vp.Assert(ctx.Err() == nil || e.shutting(), "C07: the start context is cancelled although the runner is running")
		b.calls++
		close(started)
		<-ctx.Done()
		vp.Gate()
		vp.Assert(e.shutting(), "C07: the start context is cancelled although the runner is running")
		b.end(ctx.Err())
		return nil, ctx.Err()
	}
	e.r.StartWorker(context.Background(), "b", bs)
	<-started
	a := e.newSlot("a")
	a.mask = eF1
	a.maxOwn = 1
	e.r.StartWorker(context.Background(), "a", a.start)
	e.wait()
	vp.Reach("end")
}

// KillStart: the start of a worker waits for its context; Kill or the
// caller's cancellation end it.
func KillStart() {
	props("C03", "C07")
	e := &env{exitMask: eNil, ctxStart: true, maxStarts: 0}
	e.newRunner()
	s := e.newSlot("a")
	ctx, cancel := context.WithCancel(context.Background())
	err := e.r.StartWorker(ctx, "a", s.start)
	vp.Assert(err == nil, "C07: StartWorker of a fresh id on a running runner fails")
	vp.Quiesce()
	vp.Assert(s.starting && s.ctx.Err() == nil, "C07: the start context is cancelled although the runner is running")
	if vp.Bool("cancel") {
		cancel()
		vp.Quiesce()
		vp.Assert(!s.starting, "C07: the start context is not cancelled with the caller's context")
		vp.Reach("cancelled")
	} else {
		e.kill()
		vp.Quiesce()
		vp.Assert(!s.starting, "C07: the start context is not cancelled when the runner is killed")
		vp.Reach("killed")
	}
	e.finish()
	cancel()
}

// RestartCtx: the context of a restarted worker is cancelled by Kill, and not
// with the context of the StartWorker call.
func RestartCtx() {
	props("C03", "C07")
	e := &env{exitMask: eN, maxStarts: 1}
	e.newRunner()
	s := e.newSlot("a")
	ctx, cancel := context.WithCancel(context.Background())
	err := e.r.StartWorker(ctx, "a", s.start)
	vp.Assert(err == nil, "C07: StartWorker of a fresh id on a running runner fails")
	vp.Quiesce()
	vp.Assert(s.calls == 2 && s.ctx.Err() == nil, "C07: the start context is cancelled although the runner is running")
	e.kill()
	vp.Quiesce()
	vp.Assert(s.ctx.Err() != nil, "C07: the start context is not cancelled when the runner is killed")
	e.finish()
	cancel()
}

// Stop: a StopWorker at any moment; what has happened once all is quiet.
func Stop() {
	props("C05")
	e := &env{maxStarts: 2, exitMask: eNil | eN | eX, failMask: eN | eX, slowStart: true, noKill: true}
	e.newRunner()
	s := e.begin("a")
	if vp.Bool("quiet first") {
		vp.Quiesce()
	}
	calls := s.calls
	e.stop(s)
	vp.Reach("stopped")
	vp.Quiesce()
	vp.Assert(!s.starting && s.calls == s.ends, "C05: a stopped worker is left running")
	vp.Assert(!hasName(e.r.WorkerNames(), "a"), "C05: the id of a stopped worker that has finished is still known")
	vp.Assert(s.calls <= calls+3, "C05: a stopped worker keeps being restarted")
	// the id is free again
	s2 := e.newSlot("a")
	s2.maxOwn = 0
	err := e.r.StartWorker(context.Background(), "a", s2.start)
	vp.Assert(err == nil, "C05: the id of a stopped worker cannot be used again")
	vp.Quiesce()
	w := s2.last()
	vp.Assert(w != nil && !w.dead && !w.killed, "C05: a worker started under a re-used id does not run")
	// stopping an unknown id changes nothing
	vp.Assert(e.r.StopWorker("zz") == nil, "C05: StopWorker of an unknown id fails")
	vp.Quiesce()
	vp.Assert(!w.dead && !w.killed && s2.calls == 1, "C05: StopWorker of an unknown id affects a worker")
	e.finish()
}

// StopDelay: StopWorker during a restart delay, which elapses or not.
func StopDelay() {
	props("C05", "C03")
	e := &env{maxStarts: 1, exitMask: eN, noTimers: true, noKill: true}
	e.newRunner()
	s := e.begin("a")
	vp.Quiesce()
	e.stop(s)
	vp.Quiesce()
	if s.calls == s.ends && e.timers == 1 && hasName(e.r.WorkerNames(), "a") {
		// a stop need not cut the delay short
		e.lastT <- vp.Time(3000)
		vp.Quiesce()
	}
	vp.Assert(!s.starting && s.calls == s.ends, "C05: a worker stopped during its restart delay runs")
	vp.Assert(s.calls <= 2 && e.timers == 1, "C05: a worker stopped during its restart delay keeps being restarted")
	vp.Assert(!hasName(e.r.WorkerNames(), "a"), "C05: the id of a stopped worker that has finished is still known")
	e.finish()
}

// StopOther: StopWorker of one worker leaves the other one alone.
func StopOther() {
	props("C05")
	e := &env{maxStarts: 0, exitMask: eNil | eN, slowStart: true, noKill: true}
	e.newRunner()
	a := e.begin("a")
	b := e.begin("b")
	e.stop(a)
	vp.Quiesce()
	w := b.last()
	vp.Assert(w != nil && !w.dead && !w.killed && b.calls == 1, "C05: StopWorker affects another worker")
	vp.Assert(a.calls == a.ends && !a.starting, "C05: a stopped worker is left running")
	vp.Assert(a.calls == 1, "C05: a stopped worker is started again")
	e.finish()
}
