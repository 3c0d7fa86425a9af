package runner

import (
	"context"

	jujuerrors "github.com/juju/errors"

	"github.com/juju/worker/v4"
	"github.com/juju/worker/v4/zzverif/vp"
)

func isAlreadyExists(err error) bool { return jujuerrors.Is(err, jujuerrors.AlreadyExists) }
func isNotFound(err error) bool      { return jujuerrors.Is(err, jujuerrors.NotFound) }

// lookup calls Worker and checks its answer.
func (e *env) lookup(s *slot, abort chan struct{}, aborted *bool) (worker.Worker, error) {
	vp.Gate()
	killed := e.killCalled
	// instances the runner has dealt with the end of
	dealt := 0
	for _, w := range s.insts {
		if w.gone {
			dealt++
		}
	}
	w, err := e.r.Worker(s.id, abort)
	vp.Gate()
	switch {
	case err == nil:
		vp.Assert(w != nil, "C08: Worker returns neither a worker nor an error")
		i, ok := w.(*inst)
		vp.Assert(ok && i.s == s, "C08: Worker returns a worker that was not started under the id")
		for n := 0; n < dealt; n++ {
			vp.Assert(s.insts[n] != i, "C08: Worker returns a worker that has finished and been replaced")
		}
		vp.Reach("found")
	case err == worker.ErrDead:
		vp.Assert(e.shutting(), "C08: Worker reports a dead runner although it is running")
		vp.Reach("dead")
	case err == worker.ErrAborted:
		vp.Assert(*aborted, "C08: Worker reports an abort that did not happen")
		vp.Reach("aborted")
	default:
		vp.Assert(isNotFound(err), "C08: Worker returns an unexpected error")
		vp.Assert(s.over(), "C08: Worker reports a known id as not found")
		vp.Assert(!killed, "C08: Worker says not found although the runner was killed before")
		vp.Reach("not found")
	}
	if err != nil {
		vp.Assert(w == nil, "C08: Worker returns a worker together with an error")
	}
	return w, err
}

// Lookup: Worker called at any moment while a worker starts, fails, restarts,
// is stopped, and the runner is killed.
func Lookup() {
	props("C08", "C03")
	e := &env{maxStarts: 2, exitMask: eNil | eN, failMask: eN, slowStart: true}
	e.newRunner()
	s := e.begin("a")
	done := make(chan struct{})
	go func() {
		e.lookup(s, nil, nil)
		close(done)
	}()
	e.kill()
	<-done
	e.wait()
	vp.Reach("end")
}

// LookupAbort: a Worker call that waits (for a restart that does not come)
// ends when it is aborted, the runner is killed, the worker is stopped or the
// restart happens; and goes on waiting otherwise.
func LookupAbort() {
	props("C08", "C03")
	e := &env{maxStarts: 1, exitMask: eN, failMask: eN, noTimers: true}
	e.newRunner()
	s := e.begin("a")
	vp.Quiesce()
	goroutines := vp.Goroutines()
	abort := make(chan struct{})
	aborted, returned := false, false
	done := make(chan struct{})
	go func() {
		e.lookup(s, abort, &aborted)
		returned = true
		close(done)
	}()
	if vp.Bool("early") {
		vp.Quiesce()
		vp.Assert(!returned, "C08: Worker returns although no worker is available and nothing happened")
	}
	event := vp.Pick("event", 4)
	switch event {
	case 0:
		vp.Gate()
		aborted = true
		close(abort)
	case 1:
		e.kill()
	case 2:
		e.stop(s)
		vp.Gate()
		e.lastT <- vp.Time(3000)
	case 3:
		vp.Gate()
		e.lastT <- vp.Time(3000)
	}
	vp.Quiesce()
	vp.Assert(returned, "C08: Worker hangs although the worker is available or removed, abort fired, or the runner was killed")
	<-done
	if event == 0 {
		vp.Assert(vp.Goroutines() <= goroutines, "C08: an aborted Worker call leaves a goroutine behind")
	}
	e.finish()
	vp.Quiesce()
	vp.Assert(vp.Goroutines() == 0, "C08: a Worker call leaves a goroutine behind")
}

// LookupStarting: the first start is in progress.
func LookupStarting() {
	props("C08", "C03")
	e := &env{maxStarts: 0, exitMask: eNil}
	e.newRunner()
	s := e.newSlot("a")
	release := false
	err := e.r.StartWorker(context.Background(), "a", func(ctx context.Context) (worker.Worker, error) {
		vp.Await(&release)
		return s.start(ctx)
	})
	vp.Assert(err == nil, "C07: StartWorker of a fresh id on a running runner fails")
	abort := make(chan struct{})
	aborted, returned, returned2 := false, false, false
	done := make(chan struct{}, 2)
	go func() {
		e.lookup(s, abort, &aborted)
		returned = true
		done <- struct{}{}
	}()
	go func() {
		e.lookup(s, nil, nil)
		returned2 = true
		done <- struct{}{}
	}()
	vp.Quiesce()
	vp.Assert(!returned && !returned2, "C08: Worker returns although no worker is available and nothing happened")
	if vp.Bool("abort") {
		vp.Gate()
		aborted = true
		close(abort)
	}
	vp.Gate()
	release = true
	vp.Quiesce()
	vp.Assert(returned && returned2, "C08: Worker hangs although the worker is available or removed, abort fired, or the runner was killed")
	e.finish()
}

// remove calls StopAndRemoveWorker and checks its answer.
func (e *env) remove(s *slot, abort chan struct{}, aborted *bool) error {
	vp.Gate()
	s.mayKill = true
	err := e.r.StopAndRemoveWorker(s.id, abort)
	vp.Gate()
	switch {
	case err == worker.ErrAborted:
		vp.Assert(aborted != nil && *aborted, "C09: StopAndRemoveWorker reports an abort that did not happen")
		vp.Reach("aborted")
	case err == worker.ErrDead:
		vp.Assert(e.shutting(), "C09: StopAndRemoveWorker reports a dead runner although it is running")
		vp.Reach("dead")
	case isNotFound(err):
		vp.Assert(s.over(), "C09: StopAndRemoveWorker reports a known id as not found")
		vp.Reach("not found")
	default:
		vp.Assert(!s.starting && s.calls == s.ends, "C09: StopAndRemoveWorker returned although the worker is not finished")
		ok := false
		for _, w := range s.insts {
			if w.dead && w.err == err {
				ok = true
			}
		}
		vp.Assert(ok, "C09: StopAndRemoveWorker does not return the worker's error")
		if !e.shutting() {
			s.stopped, s.endedSt = true, true
		}
		if s == e.slots[len(e.slots)-1] {
			vp.Assert(!hasName(e.r.WorkerNames(), s.id), "C09: the id is still known after StopAndRemoveWorker")
		}
		vp.Reach("removed")
	}
	return err
}

// Remove: StopAndRemoveWorker of a worker with any exit error, which may also
// be finishing by itself.
func Remove() {
	props("C09", "C03")
	e := &env{maxStarts: vp.Pick("own", 2), exitMask: eNil | eN | eX | eF1, slowStart: true}
	e.newRunner()
	s := e.begin("a")
	returned := false
	done := make(chan struct{})
	go func() {
		e.remove(s, nil, nil)
		returned = true
		close(done)
	}()
	vp.Quiesce()
	vp.Assert(returned, "C09: StopAndRemoveWorker does not return although the worker has stopped")
	vp.Assert(e.fatals > 0 || s.over() && !hasName(e.r.WorkerNames(), "a"), "C09: a removed worker is still known or was started again")
	<-done
	e.finish()
}

// Remove2: two callers remove the same worker.
func Remove2() {
	props("C09", "C03")
	e := &env{maxStarts: 0, exitMask: eNil | eN | eX}
	e.newRunner()
	s := e.begin("a")
	n := 0
	for i := 0; i < 2; i++ {
		go func() {
			e.remove(s, nil, nil)
			n++
		}()
	}
	vp.Quiesce()
	vp.Assert(n == 2, "C09: StopAndRemoveWorker does not return although the worker has stopped")
	vp.Assert(s.over() && !hasName(e.r.WorkerNames(), "a"), "C09: a removed worker is still known or was started again")
	e.finish()
}

// RemoveKill: StopAndRemoveWorker while the runner is killed.
func RemoveKill() {
	props("C09", "C03")
	e := &env{maxStarts: 0, exitMask: eNil | eN}
	e.newRunner()
	s := e.begin("a")
	done := make(chan struct{})
	go func() {
		e.remove(s, nil, nil)
		close(done)
	}()
	e.kill()
	<-done
	e.wait()
	vp.Reach("end")
}

// RemoveAbort: abort ends the call when the worker does not finish.
func RemoveAbort() {
	props("C09", "C03")
	e := &env{maxStarts: 0, exitMask: eNil | eN}
	e.newRunner()
	s := e.begin("a")
	vp.Quiesce()
	w := s.last()
	w.hold = true
	abort := make(chan struct{})
	aborted := false
	returned := false
	go func() {
		e.remove(s, abort, &aborted)
		returned = true
	}()
	if vp.Bool("quiet") {
		vp.Quiesce()
		vp.Assert(!returned, "C09: StopAndRemoveWorker returned although the worker is not finished")
	}
	if vp.Bool("kill first") {
		e.kill()
		if vp.Bool("quiet then") {
			vp.Quiesce()
		}
	}
	vp.Gate()
	aborted = true
	close(abort)
	vp.Quiesce()
	vp.Assert(returned, "C09: StopAndRemoveWorker does not return when aborted")
	w.hold, w.killed = false, true
	e.finish()
}

// LookupTwo: Worker calls for an id whose worker fails to start, finishes or
// restarts, while another worker runs.
func LookupTwo() {
	props("C08", "C03")
	e := &env{maxStarts: 2, exitMask: eNil | eN | eX, failMask: eN | eX}
	e.newRunner()
	b := e.newSlot("b")
	b.maxOwn = 0
	err := e.r.StartWorker(context.Background(), "b", b.start)
	vp.Assert(err == nil, "C07: StartWorker of a fresh id on a running runner fails")
	vp.Quiesce()
	a := e.begin("a")
	returned := false
	go func() {
		e.lookup(a, nil, nil)
		returned = true
	}()
	vp.Quiesce()
	vp.Assert(returned, "C08: Worker hangs although the worker is available or removed, abort fired, or the runner was killed")
	w, err := e.r.Worker("b", nil)
	vp.Assert(err == nil && w == b.last(), "C08: Worker does not return the running worker")
	_, err = e.r.Worker("zz", nil)
	vp.Assert(isNotFound(err), "C08: Worker of an unknown id does not return NotFound")
	e.finish()
}
