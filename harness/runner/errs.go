package runner

import (
	"context"

	"github.com/juju/worker/v4"
	"github.com/juju/worker/v4/zzverif/vp"
)

func rank(err error) int {
	switch err {
	case errF2:
		return 2
	case errF1:
		return 1
	}
	return 0
}

func (e *env) waitErr() error {
	err := e.r.Wait()
	e.waited = true
	vp.Reach("end")
	return err
}

// ErrRank: two workers which may both fail fatally, in any order; MoreImportant
// is a ranking.
func ErrRank() {
	e := &env{maxStarts: 1, exitMask: eNil | eN | eF1 | eF2}
	best := 0
	e.newRunnerP(worker.RunnerParams{MoreImportant: func(e0, e1 error) bool { return rank(e0) > rank(e1) }})
	a := e.begin("a")
	b := e.begin("b")
	e.kill()
	err := e.waitErr()
	for _, s := range e.slots {
		for _, w := range s.insts {
			if r := rank(w.err); r > best {
				best = r
			}
		}
	}
	_, _ = a, b
	if best == 0 {
		vp.Assert(err == nil, "C06: Wait returns an error although no worker failed fatally")
	} else {
		vp.Assert(rank(err) == best, "C06: Wait does not return the most important fatal error")
		vp.Reach("fatal")
	}
}

// ErrStart: fatal errors from failing starts and from workers.
func ErrStart() {
	e := &env{maxStarts: 2, exitMask: eN | eF1 | eNil, failMask: eN | eF2 | eX}
	e.newRunnerP(worker.RunnerParams{MoreImportant: func(e0, e1 error) bool { return rank(e0) > rank(e1) }})
	s := e.begin("a")
	e.kill()
	err := e.waitErr()
	if fatal(s.lastEnd) {
		vp.Assert(err == s.lastEnd, "C06: Wait does not return the fatal error")
		vp.Reach("fatal")
	} else {
		vp.Assert(err == nil, "C06: Wait returns an error although no worker failed fatally")
	}
}

// ErrFirst: without MoreImportant the first fatal error is returned.
func ErrFirst() {
	e := &env{maxStarts: 1, exitMask: eF1 | eF2 | eNil}
	e.newRunner()
	e.begin("a")
	e.begin("b")
	e.kill()
	err := e.waitErr()
	vp.Assert(err == e.first, "C06: Wait does not return the first fatal error")
}

// ErrAll: without IsFatal every error is fatal.
func ErrAll() {
	e := &env{maxStarts: 1, exitMask: eNil | eN | eX | eF1, failMask: eN | eX | eF1}
	r, err := worker.NewRunner(worker.RunnerParams{Name: "r", Clock: e, Logger: logger{}})
	vp.Assert(err == nil, "C21: NewRunner rejects valid parameters")
	e.r = r
	s := e.newSlot("a")
	e.r.StartWorker(context.Background(), "a", s.start)
	if vp.Bool("kill") {
		e.kill()
	} else {
		vp.Quiesce()
		if s.lastEnd == nil {
			e.kill()
		}
	}
	err = e.waitErr()
	vp.Assert(err == s.lastEnd, "C06: Wait does not return the only worker's error although IsFatal is unset")
	vp.Assert(s.calls <= 1, "C06: a worker is restarted although every error is fatal")
}

// policy makes IsFatal and ShouldRestart arbitrary functions of the error.
func (e *env) policy() {
	var f, r [4]bool
	for i := range f {
		f[i] = vp.Bool("fatal")
		r[i] = vp.Bool("restart")
	}
	at := func(t *[4]bool, err error) bool {
		switch err {
		case errN:
			return t[0]
		case errX:
			return t[1]
		case errF1:
			return t[2]
		}
		return t[3]
	}
	e.fatalF = func(err error) bool { return at(&f, err) }
	e.restartF = func(err error) bool { return at(&r, err) }
}

// Policy: IsFatal and ShouldRestart are arbitrary predicates of the error,
// for exits and failed starts; what has happened once all is quiet.
func Policy() {
	props("C04", "C06")
	e := &env{maxStarts: 2, exitMask: eNil | eN | eX, failMask: eN | eX}
	e.policy()
	e.newRunner()
	s := e.begin("a")
	vp.Quiesce()
	if e.fatals == 0 {
		e.settled(s)
		e.finish()
		return
	}
	vp.Reach("fatal")
	err := e.waitErr()
	vp.Assert(err == s.lastEnd, "C06: Wait does not return the fatal error")
	vp.Assert(len(e.r.WorkerNames()) == 0, "C10: WorkerNames lists an id after death")
}

// PolicyKill: as Policy with the Kill at any moment.
func PolicyKill() {
	props("C03")
	e := &env{maxStarts: 2, exitMask: eNil | eN | eX, failMask: eN}
	e.policy()
	e.newRunner()
	e.begin("a")
	e.finish()
}

// PolicyTwo: two workers under arbitrary predicates.
func PolicyTwo() {
	props("C03")
	e := &env{maxStarts: 1, exitMask: eNil | eN | eX}
	e.policy()
	e.newRunner()
	e.begin("a")
	e.begin("b")
	vp.Quiesce()
	if e.fatals > 0 {
		vp.Reach("fatal")
		err := e.waitErr()
		vp.Assert(err != nil && e.fatal(err), "C06: Wait does not return the fatal error")
		return
	}
	for _, s := range e.slots {
		e.settled(s)
	}
	e.finish()
}

// ErrStop: two workers which may fail fatally, one of which is stopped or
// removed at any moment.
func ErrStop() {
	props("C06")
	e := &env{maxStarts: 1, exitMask: eNil | eN | eF1 | eF2, noKill: true}
	e.newRunnerP(worker.RunnerParams{MoreImportant: func(e0, e1 error) bool { return rank(e0) > rank(e1) }})
	a := e.begin("a")
	other := vp.Bool("other")
	if other {
		e.begin("b")
	}
	if vp.Bool("remove") {
		a.mayKill = true
		e.r.StopAndRemoveWorker("a", nil)
	} else {
		e.stop(a)
	}
	if vp.Bool("quiet") {
		vp.Quiesce()
	}
	e.kill()
	err := e.waitErr()
	best := 0
	for _, s := range e.slots {
		for _, w := range s.insts {
			if r := rank(w.err); r > best {
				best = r
			}
		}
	}
	if best == 0 {
		vp.Assert(err == nil, "C06: Wait returns an error although no worker failed fatally")
		return
	}
	vp.Reach("fatal")
	vp.Assert(rank(err) == best, "C06: Wait does not return the most important fatal error")
}
