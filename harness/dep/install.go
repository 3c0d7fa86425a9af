package dep

import (
	"github.com/juju/worker/v4/dependency"
	"github.com/juju/worker/v4/zzverif/vp"
)

// ---- C19 ----

// InstallTwice: two concurrent installs of one name, against Kill, with a
// bystander.
func InstallTwice() {
	props("C19")
	e := &env{}
	e.engine(e.config())
	a := e.mf("a")
	b := e.mf("a")
	d := e.mf("d")
	killer := vp.Bool("kill")
	var errs [2]error
	done := [2]bool{}
	for i, m := range []*mf{a, b} {
		i, m := i, m
		go func() {
			err := e.e.Install(m.name, m.manifold())
			vp.Gate()
			errs[i], done[i] = err, true
			if err != nil {
				m.refused = true
			}
		}()
	}
	e.install(d)
	if !killer {
		vp.Await(&done[0])
		vp.Await(&done[1])
		vp.Assert((errs[0] == nil) != (errs[1] == nil), "C19: not exactly one of two installs of a name succeeds")
		vp.Quiesce()
		vp.Assert(a.calls+b.calls == 1, "C19: an installed manifold is never started, or a refused one is")
		vp.Assert(a.refused == (a.calls == 0), "C19: a refused manifold is started")
		vp.Assert(a.kills+b.kills+d.kills == 0 && d.calls == 1, "C19: a refused install disturbs a manifold")
		vp.Reach("one")
	}
	e.finish()
	vp.Assert(done[0] && done[1], "C19: Install does not return")
	vp.Assert(errs[0] != nil || errs[1] != nil, "C19: two installs of one name succeed")
	vp.Assert(!a.refused || a.calls == 0, "C19: a refused manifold is started")
	vp.Assert(!b.refused || b.calls == 0, "C19: a refused manifold is started")
}

// InstallKnown: Install of a name that is installed, whatever its phase, and
// of a cycle.
func InstallKnown() {
	props("C19")
	e := &env{noTimers: true}
	c := e.config()
	c.ErrorDelay = 1000000000
	e.engine(c)
	x := e.mf("x")
	a := e.mf("a", x)
	d := e.mf("d", a)
	a.soft, d.soft = true, true
	a.own, a.mask, a.failMask = 1, eNil|eN|eMissing, eN|eMissing
	if vp.Bool("starting") {
		a.ctxStarts = 1
	}
	e.install(a)
	e.install(d)
	vp.Quiesce()
	calls, kills, live, timers, dcalls, dkills := a.calls, a.kills, a.live(), e.timers, d.calls, d.kills
	before := e.entry("a")
	cyc := vp.Bool("cycle")
	n := e.mf("a")
	if cyc {
		n.name = "x"
		n.inNames, n.ins = []string{"d"}, []*mf{d}
		vp.Reach("cycle")
	} else {
		n.soft = true
		if vp.Bool("inputs") {
			n.inNames, n.ins = []string{"x"}, []*mf{x}
		}
		vp.Reach("known")
	}
	err := e.e.Install(n.name, n.manifold())
	vp.Assert(err != nil, "C19: Install of a name that is installed, or of a cycle, succeeds")
	vp.Quiesce()
	vp.Assert(n.calls == 0, "C19: a refused manifold is started")
	vp.Assert(a.calls == calls && a.kills == kills && a.live() == live && e.timers == timers, "C19: a refused install disturbs a manifold")
	vp.Assert(d.calls == dcalls && d.kills == dkills, "C19: a refused install disturbs a manifold")
	after := e.entry("a")
	vp.Assert(before[dependency.KeyState] == after[dependency.KeyState], "C19: a refused install disturbs a manifold")
	vp.Assert(len(after[dependency.KeyInputs].([]string)) == 1, "C19: a refused install changes the inputs of a manifold")
	// the refused install leaves no dependency behind
	if cyc {
		vp.Assert(e.entry("x") == nil, "C20: Report shows a manifold that is not installed")
		a.ctxStarts = 0
		y := e.mf("x")
		a.ins[0] = y
		y.fresh = true
		e.install(y)
		vp.Quiesce()
		vp.Assert(y.calls == 1 && y.kills == 0, "C19: a refused install leaves something behind")
		vp.Assert(a.calls > calls, "C14: a manifold is not started again when its input starts")
	}
	e.finish()
}

// InstallRefused: a cycle is refused, then its inputs change.
func InstallRefused() {
	props("C19")
	e := &env{}
	e.engine(e.config())
	a := e.mf("a")
	a.own, a.mask = 1, eBounce|eMissing
	e.install(a)
	n := e.mf("n")
	n.inNames = []string{"a", "n"}
	n.ins = []*mf{a, n}
	n.refused = true
	d := e.mf("d", a)
	d.soft = true
	e.install(d)
	err := e.e.Install("n", n.manifold())
	vp.Assert(err != nil, "C19: Install of a cycle succeeds")
	vp.Quiesce()
	vp.Assert(e.e.Report()[dependency.KeyState] == "started", "C19: a refused install brings the engine down")
	vp.Assert(d.live() != nil, "C19: a refused install disturbs a manifold")
	vp.Assert(e.entry("n") == nil, "C19: a refused manifold is installed")
	vp.Reach("refused")
	e.finish()
}

// entry is a manifold's entry in the engine's report.
func (e *env) entry(name string) map[string]interface{} {
	r := e.e.Report()
	ms, ok := r[dependency.KeyManifolds].(map[string]interface{})
	vp.Assert(ok, "C20: Report has no manifolds")
	x, ok := ms[name]
	if !ok {
		return nil
	}
	m, ok := x.(map[string]interface{})
	vp.Assert(ok, "C20: Report has something else than an entry for a manifold")
	return m
}

// InstallDead: Install against Kill or a fatal error, and after death.
func InstallDead() {
	props("C19", "C20")
	e := &env{}
	e.engine(e.config())
	a := e.mf("a")
	b := e.mf("b")
	d := e.mf("d")
	if vp.Bool("fatal") {
		d.own, d.mask = 1, eF1
	}
	e.install(d)
	done := false
	go func() {
		err := e.e.Install("a", a.manifold())
		vp.Gate()
		done = true
		vp.Assert(err == nil || e.shutting(), "C19: Install of a fresh name on a running engine fails")
		a.refused = err != nil
		if err != nil {
			vp.Reach("refused")
		}
	}()
	e.finish()
	vp.Assert(done, "C19: Install does not return")
	vp.Assert(!a.refused || a.calls == 0, "C19: a refused manifold is started")
	err := e.e.Install("b", b.manifold())
	vp.Assert(err != nil, "C19: Install on a dead engine succeeds")
	vp.Quiesce()
	vp.Assert(b.calls == 0 && vp.Goroutines() == 0, "C19: Install on a dead engine starts something")
}

// Reinstall: a removes itself and is installed again, with a dependent, an
// input of the old incarnation and a bystander.
func Reinstall() {
	props("C19", "C12")
	e := &env{}
	e.engine(e.config())
	c := e.mf("c")
	a := e.mf("a", c)
	b := e.mf("b", a)
	b.soft = vp.Bool("soft")
	e.install(c)
	e.install(a)
	e.install(b)
	vp.Quiesce()
	e.step(a, []error{dependency.ErrUninstall, wUninstall}[vp.Pick("how", 2)], []*mf{c, a, b})
	vp.Assert(e.entry("a") == nil && e.entry("b") != nil && e.entry("c") != nil, "C20: Report does not show exactly the installed manifolds")
	calls, dcalls := a.calls, b.calls
	a.gone = true
	if vp.Bool("touch") {
		// the old incarnation's input changes
		e.step(c, dependency.ErrBounce, []*mf{c})
		vp.Assert(a.calls == calls && b.calls == dcalls, "C19: a manifold that was removed is started again")
	}
	n := e.mf("a")
	if vp.Bool("same inputs") {
		n.inNames, n.ins = []string{"c"}, []*mf{c}
	}
	err := e.e.Install("a", n.manifold())
	vp.Assert(err == nil, "C19: a removed manifold cannot be installed again")
	b.ins[0] = n
	vp.Quiesce()
	e.settled(c, n, b)
	vp.Assert(n.calls == 1 && b.live() != nil && b.calls > dcalls, "C14: a manifold is not started again when its input starts")
	// and dependencies are those of the new incarnation
	e.step(c, dependency.ErrBounce, []*mf{c, n, b})
	vp.Reach("again")
	e.finish()
}

// ReinstallRace: a removes itself while it is installed again and its input
// ends.
func ReinstallRace() {
	props("C19", "C12", "C13")
	e := &env{}
	e.engine(e.config())
	c := e.mf("c")
	a := e.mf("a", c)
	c.own, c.mask = 1, eBounce
	a.own, a.mask, a.failMask = 1, eUninstall, eUninstall
	e.install(c)
	e.install(a)
	n := e.mf("a")
	err := e.e.Install("a", n.manifold())
	n.refused = err != nil
	if err == nil {
		a.gone = true
		vp.Reach("again")
	} else {
		vp.Reach("refused")
	}
	vp.Quiesce()
	if err == nil {
		vp.Assert(n.live() != nil && n.calls == 1, "C19: an installed manifold is never started")
		vp.Assert(n.kills == 0, "C14: a worker is killed although none of its inputs has changed")
	} else {
		vp.Assert(n.calls == 0, "C19: a refused manifold is started")
	}
	e.finish()
}

// InstallMany: the Install helper installs all manifolds, or stops at the
// first one that is refused.
func InstallMany() {
	props("C19")
	e := &env{}
	e.engine(e.config())
	a := e.mf("a")
	b := e.mf("b", a)
	x := e.mf("b")
	known := vp.Bool("known")
	if known {
		e.install(x)
	}
	err := dependency.Install(e.e, dependency.Manifolds{"a": a.manifold(), "b": b.manifold()})
	vp.Assert((err != nil) == known, "C19: Install of several manifolds fails although none is refused, or succeeds")
	vp.Quiesce()
	if known {
		vp.Assert(b.calls == 0 && x.calls == 1, "C19: a refused manifold is started")
	} else {
		e.settled(a, b)
		vp.Assert(a.live() != nil && b.live() != nil, "C19: an installed manifold is never started")
	}
	vp.Reach("end")
	e.finish()
}
