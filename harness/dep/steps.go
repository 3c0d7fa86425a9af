package dep

import (
	"github.com/juju/worker/v4/dependency"
	"github.com/juju/worker/v4/zzverif/vp"
)

// step lets m's worker end with err while nothing else moves, waits until
// everything is quiet, and judges what happened.
func (e *env) step(m *mf, err error, all []*mf) {
	w := m.live()
	if w == nil {
		return
	}
	calls := make([]int, len(all))
	kills := make([]int, len(all))
	lives := make([]*inst, len(all))
	for i, x := range all {
		calls[i], kills[i], lives[i] = x.calls, x.kills, x.live()
	}
	w.fixed, w.fixedErr = true, err
	w.exit = true
	vp.Quiesce()
	vp.Assert(w.dead, "C12: a worker that ended is still waited for")
	if rank(err) > 0 {
		return
	}
	wants := again(err)
	if uninstalls(err) {
		m.removed = true
	}
	vp.Assert((m.calls > calls[idx(all, m)]) == wants, "C15: an end that calls for a restart is not followed by one, or another is")
	vp.Assert(m.kills == kills[idx(all, m)] || m.dependsOn(m), "C14: a worker that ended by itself is killed")
	for i, x := range all {
		if x == m || x.removed {
			continue
		}
		if x.dependsOn(m) {
			if x.direct(m) {
				vp.Assert(lives[i] == nil || x.kills > kills[i] && lives[i].dead, "C14: a dependent keeps running although its input has ended")
				vp.Assert(x.calls > calls[i], "C14: a dependent is not started again when its input has ended")
			}
		} else {
			vp.Assert(x.calls == calls[i] && x.kills == kills[i], "C14: a manifold is restarted although none of its inputs has changed")
		}
	}
	e.settled(all...)
}

func idx(all []*mf, m *mf) int {
	for i, x := range all {
		if x == m {
			return i
		}
	}
	return -1
}

func (m *mf) direct(o *mf) bool {
	for _, i := range m.ins {
		if i == o {
			return true
		}
	}
	return false
}

// dependsOn: m depends on o, directly or not.
func (m *mf) dependsOn(o *mf) bool {
	for _, i := range m.ins {
		if i == o || i != nil && i.dependsOn(o) {
			return true
		}
	}
	return false
}

const stepMask = eNil | eN | eMissing | eBounce | eUninstall | eWBounce

// steps: n ends of symbolic workers with symbolic errors, one after the other.
func (e *env) steps(n int, all []*mf, mask int) {
	for i, m := range all {
		e.install(m)
		vp.Quiesce()
		e.settled(all[:i+1]...)
	}
	for i := 0; i < n; i++ {
		m := all[vp.Pick("who", len(all))]
		e.step(m, pickErr("how", mask), all)
	}
	vp.Reach("steps")
	e.finish()
}

// StepsChain: c needs b needs a, and d is on its own.
func StepsChain() {
	props("C14")
	e := &env{}
	e.engine(e.config())
	a := e.mf("a")
	b := e.mf("b", a)
	c := e.mf("c", b)
	d := e.mf("d")
	b.soft = vp.Bool("soft")
	c.soft = b.soft
	e.steps(1, []*mf{a, b, c, d}, stepMask)
}

// StepsPair: two ends in a row of b needs a.
func StepsPair() {
	props("C14")
	e := &env{}
	e.engine(e.config())
	a := e.mf("a")
	b := e.mf("b", a)
	b.soft = vp.Bool("soft")
	e.steps(2, []*mf{a, b}, stepMask)
}

// StepsTwice: b names its input a twice.
func StepsTwice() {
	props("C14", "C15", "C17")
	e := &env{}
	e.engine(e.config())
	a := e.mf("a")
	b := e.mf("b", a, a)
	b.soft = vp.Bool("soft")
	e.steps(2, []*mf{a, b}, stepMask)
}

// StepsDiamond: c needs a and b, b needs a.
func StepsDiamond() {
	props("C14")
	e := &env{}
	e.engine(e.config())
	a := e.mf("a")
	b := e.mf("b", a)
	c := e.mf("c", a, b)
	c.soft = vp.Bool("soft")
	e.steps(1, []*mf{a, b, c}, stepMask)
}

// Killed: a dependent that is told to stop ends with any error and is started
// again.
func Killed() {
	props("C15")
	e := &env{}
	e.engine(e.config())
	a := e.mf("a")
	b := e.mf("b", a)
	d := e.mf("d")
	b.mask = stepMask | eWMissing | eWUninstall
	e.install(a)
	e.install(b)
	e.install(d)
	vp.Quiesce()
	n := b.calls
	w := a.live()
	w.fixed, w.fixedErr = true, errN
	w.exit = true
	vp.Quiesce()
	vp.Assert(b.calls > n, "C15: a worker that was stopped because its input changed is not started again")
	vp.Assert(b.live() != nil, "C14: a manifold whose inputs all run is not running")
	vp.Assert(d.calls == 1 && d.kills == 0, "C14: a manifold is restarted although none of its inputs has changed")
	e.settled(a, b, d)
	vp.Reach("killed")
	e.finish()
}

// KilledStart: a start that is told to stop returns any error, or a worker,
// and is started again.
func KilledStart() {
	props("C22")
	e := &env{}
	e.engine(e.config())
	a := e.mf("a")
	b := e.mf("b", a)
	b.ctxStarts = 3 // its first start (without a) may have been abandoned
	b.own, b.failMask = 4, stepMask&^eNil|eWMissing|eWUninstall
	e.install(a)
	vp.Quiesce()
	e.install(b)
	vp.Quiesce()
	vp.Assert(b.starting && b.calls == 1, "C19: an installed manifold is never started")
	vp.Assert(b.ctx.Err() == nil, "C22: the context of a start is cancelled although nothing has changed")
	b.ctxStarts = 0
	w := a.live()
	w.fixed, w.fixedErr = true, []error{errN, nil}[vp.Pick("a ends", 2)]
	w.exit = true
	vp.Quiesce()
	vp.Assert(!b.starting, "C22: the context of a start is not cancelled when an input changes")
	vp.Assert(b.calls >= 2, "C15: a start that was stopped because its input changed is not made again")
	if a.live() != nil {
		vp.Reach("again")
	}
	e.finish()
}

// CtxKill: Kill or a fatal error cancels the contexts of starts.
func CtxKill() {
	props("C22", "C13")
	e := &env{}
	e.engine(e.config())
	a := e.mf("a")
	b := e.mf("b")
	b.ctxStarts = 1
	b.own, b.failMask = 1, eNil|eN
	b.failMask = eN
	e.install(a)
	e.install(b)
	if vp.Bool("settle") {
		vp.Quiesce()
		vp.Assert(b.starting && b.ctx.Err() == nil, "C22: the context of a start is cancelled although nothing has changed")
	}
	if vp.Bool("fatal") {
		if w := a.live(); w != nil {
			w.fixed, w.fixedErr = true, errF1
			w.exit = true
			e.wait()
			return
		}
	}
	e.finish()
}

// PendingBounce: a start waits for its delay when its input changes.
func PendingBounce() {
	props("C22", "C14")
	e := &env{noTimers: true}
	c := e.config()
	c.ErrorDelay = 1000000000
	e.engine(c)
	a := e.mf("a")
	b := e.mf("b", a)
	e.install(a)
	vp.Quiesce()
	e.install(b)
	vp.Quiesce()
	// BounceDelay is 0; b fails and waits for ErrorDelay
	w := b.live()
	vp.Assert(w != nil, "C14: a manifold whose inputs all run is not running")
	w.fixed, w.fixedErr = true, errN
	w.exit = true
	vp.Quiesce()
	n := b.calls
	vp.Assert(e.timers == 1, "C16: a restart is not delayed")
	// now a changes: the pending start is abandoned and another one is made
	x := a.live()
	x.fixed, x.fixedErr = true, dependency.ErrBounce
	x.exit = true
	vp.Quiesce()
	vp.Assert(b.calls > n, "C22: a pending start is not rescheduled when an input changes")
	vp.Assert(b.live() != nil && b.seen[0] == a.live(), "C14: a manifold's last start did not see the workers that its inputs run now")
	e.settled(a, b)
	vp.Reach("rescheduled")
	e.finish()
}
