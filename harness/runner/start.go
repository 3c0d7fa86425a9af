package runner

import (
	"context"
	"runtime"

	"github.com/juju/worker/v4"
	"github.com/juju/worker/v4/zzverif/vp"
)

// StartTwice: two clients start a worker under the same id at the same time.
func StartTwice() {
	props("C03", "C07")
	e := &env{maxStarts: vp.Pick("own", 2), exitMask: eNil | eN, slowStart: true}
	e.newRunner()
	var errs [2]error
	var returned [2]bool
	for i := 0; i < 2; i++ {
		i, s := i, e.newSlot("a")
		go func() {
			err := e.r.StartWorker(context.Background(), "a", s.start)
			vp.Gate()
			errs[i] = err
			returned[i] = true
			if err == nil {
				vp.Assert(hasName(e.r.WorkerNames(), "a") || s.over() || e.slots[1-i].calls > 0, "C07: the id is not known although StartWorker has returned")
			}
		}()
	}
	vp.Quiesce()
	vp.Assert(returned[0] && returned[1], "C07: StartWorker hangs on a running runner")
	ok := 0
	for i := 0; i < 2; i++ {
		s := e.slots[i]
		if errs[i] == nil {
			ok++
			vp.Assert(s.calls > 0, "C07: StartWorker returned nil but the start function is not called")
			if e.slots[1-i].calls > 0 {
				vp.Assert(s.over() || e.slots[1-i].over(), "C07: StartWorker accepts an id that is known")
			}
		} else {
			vp.Assert(isAlreadyExists(errs[i]), "C07: StartWorker returns an unexpected error")
			vp.Assert(s.calls == 0, "C07: StartWorker refuses a known id but calls the function")
			vp.Reach("refused")
		}
	}
	vp.Assert(ok > 0, "C07: StartWorker refuses a fresh id")
	e.finish()
}

// StartKnown: sequentially, a known id is refused in every phase of its
// worker: starting, running, waiting to be restarted.
func StartKnown() {
	props("C03", "C07")
	e := &env{maxStarts: vp.Pick("own", 2), exitMask: eNil | eN | eX, failMask: eN | eX, noTimers: true}
	e.newRunner()
	s := e.begin("a")
	if vp.Bool("quiet") {
		vp.Quiesce()
		s2 := e.newSlot("a")
		was := s.over()
		err := e.r.StartWorker(context.Background(), "a", s2.start)
		vp.Assert((err == nil) == was, "C07: StartWorker succeeds for a known id or fails for an unknown one")
		vp.Quiesce()
		vp.Assert((s2.calls > 0) == was, "C07: the start function is called although StartWorker failed, or not called although it succeeded")
		if was {
			vp.Reach("free")
		} else {
			vp.Assert(isAlreadyExists(err), "C07: StartWorker returns an unexpected error")
			vp.Reach("known")
		}
	} else {
		e.second("a")
	}
	e.finish()
}

// StartDead: StartWorker and the other calls while the runner dies and after.
func StartDead() {
	props("C03", "C07")
	e := &env{maxStarts: 0, exitMask: eNil | eN | eF1}
	e.newRunner()
	e.begin("b")
	e.begin("a")
	done := make(chan struct{})
	s := e.newSlot("c")
	go func() {
		err := e.r.StartWorker(context.Background(), "c", s.start)
		vp.Gate()
		if err != nil {
			vp.Assert(err == worker.ErrDead, "C07: StartWorker returns an unexpected error")
			vp.Assert(e.shutting(), "C07: StartWorker reports a dead runner although it is running")
			vp.Assert(s.calls == 0, "C07: StartWorker fails but its function is called")
			vp.Reach("dead")
		} else {
			vp.Reach("started")
		}
		close(done)
	}()
	e.finish()
	<-done
	e.afterDeath()
}

// afterDeath: all calls return and report a dead runner.
func (e *env) afterDeath() {
	d := e.newSlot("d")
	err := e.r.StartWorker(context.Background(), "d", d.start)
	vp.Assert(err == worker.ErrDead, "C07: StartWorker on a dead runner does not return ErrDead")
	vp.Assert(e.r.StopWorker("a") == worker.ErrDead, "C05: StopWorker on a dead runner does not return ErrDead")
	_, err = e.r.Worker("a", nil)
	vp.Assert(err == worker.ErrDead, "C08: Worker on a dead runner does not return ErrDead")
	err = e.r.StopAndRemoveWorker("a", nil)
	vp.Assert(err == worker.ErrDead, "C09: StopAndRemoveWorker on a dead runner does not return ErrDead")
	vp.Assert(len(e.r.WorkerNames()) == 0, "C10: a dead runner lists workers")
	rep, _ := e.r.Report()["workers"].(map[string]interface{})
	vp.Assert(rep != nil && len(rep) == 0, "C10: a dead runner reports workers")
	e.r.Kill()
	vp.Quiesce()
	vp.Assert(d.calls == 0, "C07: a dead runner calls a start function")
	vp.Assert(d.calls == 0, "C02: a dead runner calls a start function")
	vp.Reach("after")
}

// StartCancel: the caller's context is cancelled while the runner is busy
// (blocked in a worker's Kill), so that StartWorker cannot be served.
func StartCancel() {
	props("C07")
	e := &env{maxStarts: 0, exitMask: eNil | eN}
	e.newRunner()
	b := e.begin("b")
	vp.Quiesce()
	release := false
	b.last().kblock = &release
	b.mayKill = true
	e.r.StopWorker("b")
	ctx, cancel := context.WithCancel(context.Background())
	s := e.newSlot("a")
	returned := false
	var err error
	go func() {
		err = e.r.StartWorker(ctx, "a", s.start)
		vp.Gate()
		returned = true
	}()
	if vp.Bool("quiet") {
		vp.Quiesce()
		vp.Assert(!returned, "C07: StartWorker returns although the runner has not taken the request")
	}
	cancel()
	vp.Quiesce()
	vp.Assert(returned, "C07: StartWorker blocks although the caller's context is cancelled")
	vp.Assert(err != nil, "C07: StartWorker returns nil although the runner has not taken the request")
	release = true
	vp.Quiesce()
	vp.Assert(s.calls == 0, "C07: StartWorker fails but its function is called")
	e.finish()
}

// ---- Report and WorkerNames ----

func (e *env) report(s *slot) (state string, w *inst, listed bool) {
	rep, _ := e.r.Report()["workers"].(map[string]interface{})
	vp.Assert(rep != nil, "C10: Report has no workers entry")
	r, ok := rep[s.id]
	if !ok {
		return "", nil, false
	}
	m, _ := r.(map[string]interface{})
	vp.Assert(m != nil, "C10: a worker's report is malformed")
	state, _ = m[worker.KeyState].(string)
	if sub, ok := m[worker.KeyReport].(map[string]interface{}); ok {
		w, _ = sub["inst"].(*inst)
		vp.Assert(w != nil, "C10: a worker's own report is altered")
	}
	return state, w, true
}

// observe calls Report or WorkerNames at any moment.
func (e *env) observe(s *slot) {
	vp.Gate()
	began := s.ready
	dealt := 0
	for _, w := range s.insts {
		if w.gone || w.killed {
			dealt++
		}
	}
	if vp.Bool("names") {
		l := e.r.WorkerNames()
		vp.Gate()
		known := hasName(l, s.id)
		vp.Assert(len(l) == 0 || len(l) == 1 && known, "C10: WorkerNames lists an id the runner does not know")
		vp.Assert(known || !began || s.over() || e.shutting(), "C10: WorkerNames omits a known id")
		return
	}
	state, w, listed := e.report(s)
	vp.Gate()
	vp.Assert(listed || !began || s.over() || e.shutting(), "C10: Report omits a known id")
	if !listed {
		return
	}
	vp.Assert(state == "started" || state == "stopped" || state == "stopping", "C10: Report shows an unknown state")
	if state == "started" {
		vp.Assert(w != nil, "C10: Report omits the worker's own report")
		vp.Reach("started")
	} else {
		vp.Reach("not started")
	}
	if w != nil {
		for n := 0; n < dealt; n++ {
			vp.Assert(s.insts[n] != w, "C10: Report shows a worker that has finished or was told to stop as current")
		}
	}
}

// Observe: Report and WorkerNames during starts, restarts and a Kill.
func Observe() {
	props("C10", "C03")
	e := &env{maxStarts: 1, exitMask: eNil | eN | eX, failMask: eN, slowStart: true}
	e.newRunner()
	s := e.begin("a")
	s.ready = true
	done := make(chan struct{})
	go func() {
		e.observe(s)
		close(done)
	}()
	e.kill()
	<-done
	e.wait()
	vp.Reach("end")
}

// ObserveStop: Report and WorkerNames around a StopWorker.
func ObserveStop() {
	props("C10", "C03")
	e := &env{maxStarts: 0, exitMask: eNil | eN, slowStart: true}
	e.newRunner()
	s := e.begin("a")
	s.ready = true
	go func() {
		e.stop(s)
	}()
	e.observe(s)
	vp.Quiesce()
	_, _, listed := e.report(s)
	vp.Assert(!listed, "C10: Report lists a worker that was stopped")
	vp.Assert(len(e.r.WorkerNames()) == 0, "C10: WorkerNames lists a worker that was stopped")
	e.finish()
}

// ObserveQuiet: what Report shows when nothing moves.
func ObserveQuiet() {
	props("C10")
	e := &env{maxStarts: vp.Pick("own", 2), exitMask: eNil | eN | eX, failMask: eN, noTimers: vp.Bool("notimers")}
	e.newRunner()
	s := e.begin("a")
	vp.Quiesce()
	e.quietReport(s)
	e.finish()
}

func (e *env) quietReport(s *slot) {
	state, w, listed := e.report(s)
	known := hasName(e.r.WorkerNames(), s.id)
	vp.Assert(known == listed, "C10: Report and WorkerNames disagree")
	vp.Assert(listed == !s.over(), "C10: Report does not show exactly the known ids")
	if !listed {
		return
	}
	l := s.last()
	if l == nil || l.dead {
		vp.Assert(state != "started", "C10: Report shows a worker as started although none runs")
		vp.Assert(w == nil, "C10: Report shows the report of a finished worker")
		vp.Reach("waiting")
	} else {
		vp.Assert(state == "started" && w == l, "C10: Report does not show a running worker as started with its own report")
		vp.Reach("running")
	}
}

// API: any call of the interface while a worker fails, restarts and the
// runner is killed.
func API() {
	props("C03")
	e := &env{maxStarts: 1, exitMask: eNil | eN | eF1, slowStart: true}
	e.newRunner()
	s := e.begin("a")
	done := make(chan struct{})
	go func() {
		switch vp.Pick("call", 6) {
		case 0:
			n := e.newSlot("b")
			e.r.StartWorker(context.Background(), "b", n.start)
		case 1:
			e.stop(s)
		case 2:
			e.r.Worker("a", nil)
		case 3:
			e.r.StopAndRemoveWorker("a", nil)
		case 4:
			e.r.WorkerNames()
		case 5:
			e.r.Report()
		}
		close(done)
	}()
	e.finish()
	<-done
}

// Goexit: a start function or worker that calls runtime.Goexit.
func Goexit() {
	props("C03")
	e := &env{maxStarts: 0, exitMask: eNil}
	e.newRunner()
	s := e.newSlot("a")
	e.r.StartWorker(context.Background(), "a", func(ctx context.Context) (worker.Worker, error) {
		vp.Gate()
		s.calls++
		if s.calls == 1 {
			s.ends++
			s.lastEnd = errN
			runtime.Goexit()
		}
		s.calls--
		return s.start(ctx)
	})
	vp.Quiesce()
	e.finish()
}

// StartCancelAny: the caller's context is cancelled at any moment of the call.
func StartCancelAny() {
	props("C07", "C03")
	e := &env{maxStarts: vp.Pick("own", 2), exitMask: eNil | eN, slowStart: true}
	e.newRunner()
	ctx, cancel := context.WithCancel(context.Background())
	s := e.newSlot("a")
	returned := false
	var err error
	go func() {
		err = e.r.StartWorker(ctx, "a", s.start)
		vp.Gate()
		returned = true
		if err == nil {
			vp.Assert(hasName(e.r.WorkerNames(), "a") || s.over() || e.shutting(), "C07: the id is not known although StartWorker has returned")
			vp.Reach("started")
		} else {
			vp.Assert(s.calls == 0, "C07: StartWorker fails but its function is called")
			vp.Reach("refused")
		}
	}()
	cancel()
	vp.Quiesce()
	vp.Assert(returned, "C07: StartWorker blocks although the caller's context is cancelled")
	vp.Assert((err == nil) == (s.calls > 0), "C07: the start function is called although StartWorker failed, or not called although it succeeded")
	if err != nil {
		vp.Assert(!hasName(e.r.WorkerNames(), "a"), "C07: StartWorker fails but the id is known")
	}
	e.finish()
}

// LastStart: the time in Report is when the running worker was started.
func LastStart() {
	props("C10")
	e := &env{maxStarts: 2, exitMask: eN | eNil, failMask: eN, noKill: true}
	e.newRunner()
	s := e.newSlot("a")
	s.ticks = true
	err := e.r.StartWorker(context.Background(), "a", s.start)
	vp.Assert(err == nil, "C07: StartWorker of a fresh id on a running runner fails")
	vp.Quiesce()
	rep, _ := e.r.Report()["workers"].(map[string]interface{})
	if m, ok := rep["a"].(map[string]interface{}); ok {
		vp.Assert(m[worker.KeyState] == "started", "C10: a running worker is not reported as started")
		at := func(ns int64) string { return vp.Time(1000 + ns).Format("2006-01-02 15:04:05") }
		got := m[worker.KeyLastStart]
		vp.Assert(got == at(s.began) || got == at(s.began+minute), "C10: the time in Report is not when the worker was last started")
		vp.Reach("running")
	}
	e.finish()
}
