package dep

import (
	"github.com/juju/worker/v4/dependency"
	"github.com/juju/worker/v4/zzverif/vp"
)

// ---- C20 ----

// judgeQuiet judges Report when nothing moves: exactly the installed
// manifolds, each as the environment knows it.
func (e *env) judgeQuiet(installed ...*mf) {
	r := e.e.Report()
	state := "started"
	if e.waited {
		state = "stopped"
	} else if e.shutting() {
		state = "stopping"
	}
	vp.Assert(r[dependency.KeyState] == state, "C20: the engine's state in Report is wrong")
	re, has := r[dependency.KeyError]
	vp.Assert(has == (e.worst != nil), "C20: the engine's error in Report is wrong")
	if has {
		vp.Assert(re == e.worst.Error(), "C20: the engine's error in Report is wrong")
	}
	ms, ok := r[dependency.KeyManifolds].(map[string]interface{})
	vp.Assert(ok, "C20: Report has no manifolds")
	n := 0
	for _, m := range installed {
		if m.removed || m.refused {
			_, has := ms[m.name]
			vp.Assert(!has, "C20: Report shows a manifold that is not installed")
			continue
		}
		n++
		x, ok := ms[m.name].(map[string]interface{})
		vp.Assert(ok, "C20: Report does not show an installed manifold")
		m.judge(x)
	}
	vp.Assert(len(ms) == n, "C20: Report shows a manifold that is not installed")
}

func (m *mf) judge(x map[string]interface{}) {
	w := m.live()
	state := x[dependency.KeyState]
	switch {
	case w != nil && w.rec && !w.killed && !w.told:
		vp.Assert(state == "started", "C20: a running manifold is not reported as started")
	case w != nil && w.rec:
		vp.Assert(state == "stopping", "C20: a manifold that is told to stop is not reported as stopping")
	case m.starting || m.pending():
		vp.Assert(state == "starting", "C20: a starting manifold is not reported as starting")
	case w != nil:
		vp.Assert(state != "started", "C20: a manifold without a registered worker is reported as started")
	default:
		vp.Assert(state == "stopped", "C20: a stopped manifold is not reported as stopped")
		re, has := x[dependency.KeyError]
		last := m.lastEnd
		if m.e.shutting() && (m.calls == 0 || again(last)) {
			break // a pending start was abandoned
		}
		vp.Assert(has == (last != nil), "C20: the error of the last end is not reported")
		if has {
			vp.Assert(re == last.Error(), "C20: the error of the last end is not reported")
		}
	}
	if state != "stopped" {
		_, has := x[dependency.KeyError]
		vp.Assert(!has, "C20: an error is reported although the manifold was restarted since")
	}
	in, ok := x[dependency.KeyInputs].([]string)
	vp.Assert(ok && len(in) == len(m.inNames), "C20: the inputs in Report are wrong")
	for i := range in {
		vp.Assert(in[i] == m.inNames[i], "C20: the inputs in Report are wrong")
	}
	n, has := x[dependency.KeyStartCount]
	vp.Assert(has == (m.recs > 0), "C20: the start count in Report is wrong")
	if has {
		vp.Assert(n == m.recs, "C20: the start count in Report is wrong")
	}
	rep, has := x[dependency.KeyReport]
	vp.Assert(has == (m.reports && w != nil && w.rec), "C20: a worker's report is missing, or there is one without a worker")
	if has {
		rm := rep.(map[string]interface{})
		vp.Assert(rm["instance"] == w.n && rm["of"] == m.name, "C20: a worker's report is another worker's")
	}
}

// pending: a start waits for its delay.
func (m *mf) pending() bool {
	return m.e.noTimers && !m.e.shutting() && m.ends == m.calls && again(m.lastEnd)
}

// ReportQuiet: Report when nothing moves, after any end, during starts,
// delays, shutdown and after death.
func ReportQuiet() {
	props("C20")
	e := &env{noTimers: true}
	c := e.config()
	if vp.Bool("delay") {
		c.ErrorDelay, c.BounceDelay = 1000000000, 1000000000
	} else {
		e.noTimers = false
	}
	e.engine(c)
	e.judgeQuiet()
	a := e.mf("a")
	b := e.mf("b")
	a.reports = true
	a.own, a.mask, a.failMask = 1, eNil|eN|eMissing|eWBounce|eUninstall|eF1, eN|eMissing|eUninstall
	if vp.Bool("slow") {
		a.ctxStarts = 1
	}
	e.install(a)
	e.install(b)
	vp.Quiesce()
	a.removed = uninstalls(a.lastEnd)
	if !e.shutting() {
		e.judgeQuiet(a, b)
		vp.Reach("quiet")
	}
	if w := b.live(); w != nil && !e.shutting() {
		w.hold = true
		e.kill()
		vp.Quiesce()
		w.told = true
		e.judgeQuiet(a, b)
		vp.Reach("stopping")
		w.exit = true
	} else {
		e.kill()
	}
	e.wait()
	e.judgeQuiet(a, b)
	vp.Quiesce()
	vp.Assert(vp.Goroutines() == 0, "C13: a goroutine is left after the engine's end")
	vp.Reach("end")
}

// ReportBounce: Report around a restart because an input changed, of a
// dependent that takes its time.
func ReportBounce() {
	props("C20")
	e := &env{}
	e.engine(e.config())
	a := e.mf("a")
	b := e.mf("b", a)
	d := e.mf("d")
	b.reports, d.reports = true, true
	b.mask = eNil | eN | eUninstall
	e.install(a)
	vp.Quiesce()
	e.install(b)
	e.install(d)
	vp.Quiesce()
	e.judgeQuiet(a, b, d)
	wa, wb := a.live(), b.live()
	wb.hold = true
	wa.fixed, wa.fixedErr = true, []error{nil, errN, wMissing}[vp.Pick("a ends", 3)]
	wa.exit = true
	vp.Quiesce()
	wb.told = true
	e.judgeQuiet(a, b, d)
	wb.exit = true
	vp.Quiesce()
	e.judgeQuiet(a, b, d)
	vp.Reach("end")
	e.finish()
}

// ReportAny: Report at any moment of starts, ends, restarts, Kill and death.
func ReportAny() {
	props("C20")
	e := &env{}
	e.engine(e.config())
	a := e.mf("a")
	b := e.mf("b")
	a.own, a.mask, a.failMask = 1, eN|eNil|eF1|eUninstall, eMissing
	done := false
	installed := false
	go func() {
		vp.Gate()
		inst0, kill0, recs0, dead0 := installed, e.killed, a.recs, e.waited
		r := e.e.Report()
		vp.Gate()
		done = true
		switch r[dependency.KeyState] {
		case "started":
			vp.Assert(!kill0 && !dead0, "C20: the engine's state in Report is wrong")
			vp.Reach("started")
		case "stopping":
			vp.Assert(e.shutting() && !dead0, "C20: the engine's state in Report is wrong")
			vp.Reach("stopping")
		case "stopped":
			vp.Assert(e.shutting(), "C20: the engine's state in Report is wrong")
			vp.Reach("stopped")
		default:
			vp.Assert(false, "C20: the engine's state in Report is wrong")
		}
		ms := r[dependency.KeyManifolds].(map[string]interface{})
		x, has := ms["a"].(map[string]interface{})
		vp.Assert(has || !inst0 || uninstalls(a.lastEnd), "C20: Report does not show an installed manifold")
		_, other := ms["b"]
		vp.Assert(!other || b.wanted, "C20: Report shows a manifold that is not installed")
		if has {
			n := 0
			if c, ok := x[dependency.KeyStartCount].(int); ok {
				n = c
			}
			vp.Assert(n >= recs0 && n <= a.recs, "C20: the start count in Report is wrong")
			if x[dependency.KeyState] == "started" {
				vp.Assert(n > 0 && r[dependency.KeyState] != "stopped", "C20: a manifold without a registered worker is reported as started")
			}
		}
	}()
	e.install(a)
	installed = true
	b.wanted = true
	e.install(b)
	e.finish()
	vp.Assert(done, "C20: Report does not return")
}

// ReportStart: the time in Report is when the running worker was started.
func ReportStart() {
	props("C20")
	e := &env{}
	e.engine(e.config())
	a := e.mf("a")
	a.own, a.mask, a.failMask, a.ticks = 2, eN|eNil|eBounce, eN, true
	e.install(a)
	vp.Quiesce()
	ms, _ := e.e.Report()[dependency.KeyManifolds].(map[string]interface{})
	m, ok := ms["a"].(map[string]interface{})
	vp.Assert(ok, "C20: Report does not show an installed manifold")
	if a.live() != nil {
		vp.Assert(m[dependency.KeyState] == "started", "C20: a running manifold is not reported as started")
		at := func(ns int64) string { return vp.Time(1000 + ns).Format("2006-01-02 15:04:05") }
		got := m[dependency.KeyLastStart]
		vp.Assert(got == at(a.began) || got == at(a.began+minute), "C20: the time in Report is not when the worker was last started")
		vp.Reach("running")
	}
	e.finish()
}
