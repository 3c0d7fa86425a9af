// Package dep holds the harnesses for dependency.Engine: an environment
// (clock, manifolds, workers, clients) whose choices are symbolic, and ghost
// state that expresses the properties.
package dep

import (
	"context"
	"errors"
	"time"

	"github.com/juju/worker/v4"
	"github.com/juju/worker/v4/dependency"
	"github.com/juju/worker/v4/zzverif/vp"
)

type logger struct{}

func (logger) Tracef(string, ...interface{}) {}
func (logger) Debugf(string, ...interface{}) {}
func (logger) Infof(string, ...interface{})  {}
func (logger) Errorf(string, ...interface{}) {}

func props(l ...string) {
	for _, p := range l {
		vp.DeadlockIs(p)
		vp.CrashIs(p)
	}
}

type wrapped struct{ err error }

func (w *wrapped) Error() string { return "wrapped: " + w.err.Error() }
func (w *wrapped) Unwrap() error { return w.err }

var (
	errF1 = errors.New("fatal one")
	errF2 = errors.New("fatal two")
	errN  = errors.New("broken")

	wMissing   = &wrapped{dependency.ErrMissing}
	wBounce    = &wrapped{dependency.ErrBounce}
	wUninstall = &wrapped{dependency.ErrUninstall}
)

func rank(err error) int {
	switch err {
	case errF1:
		return 1
	case errF2:
		return 2
	}
	return 0
}

// kinds of ends
const (
	eNil = 1 << iota
	eN
	eMissing
	eBounce
	eUninstall
	eF1
	eF2
	eWMissing
	eWBounce
	eWUninstall
)

var kinds = []error{nil, errN, dependency.ErrMissing, dependency.ErrBounce, dependency.ErrUninstall, errF1, errF2, wMissing, wBounce, wUninstall}

func pickErr(name string, mask int) error {
	var es []error
	for i, e := range kinds {
		if mask&(1<<i) != 0 {
			es = append(es, e)
		}
	}
	if len(es) == 0 {
		return nil
	}
	if len(es) == 1 {
		return es[0]
	}
	return es[vp.Pick(name, len(es))]
}

// again: an end that calls for another start all by itself.
func again(err error) bool {
	return err == errN || err == error(wBounce) || err == error(dependency.ErrBounce)
}

func uninstalls(err error) bool {
	return err == error(wUninstall) || err == error(dependency.ErrUninstall)
}

// inst is one worker.
type inst struct {
	m      *mf
	n      int
	killed bool
	exit   bool // may finish by itself
	err    error
	dead   bool
	hold   bool // ignores Kill
	rec    bool // its start is recorded
	told   bool // Kill was called (for workers that ignore it)

	fixed    bool // ends with fixedErr
	fixedErr error
}

// reporting is a worker with a report.
type reporting struct{ *inst }

func (r *reporting) Report() map[string]interface{} {
	vp.Gate()
	return map[string]interface{}{"instance": r.n, "of": r.m.name}
}

func (w *inst) Kill() {
	vp.Assert(!w.m.noKill || w.m.e.shutting(), "C14: a worker is killed although none of its inputs has changed")
	vp.Assert(!w.m.fresh || w.m.e.shutting(), "C19: a refused install leaves something behind")
	w.m.kills++
	if !w.hold {
		w.killed = true
	}
}

func (w *inst) Wait() error {
	if w.m.runs {
		// its run time counts from the moment the engine knows of it
		vp.Await(&w.rec)
	}
	vp.Await(&w.killed, &w.exit)
	if !w.dead {
		w.dead = true
		if w.m.runs {
			r := runTimes[vp.Pick("ran", len(runTimes))]
			w.m.e.now += r
			w.m.ran = r
		}
		if w.fixed {
			w.err = w.fixedErr
		} else {
			w.err = pickErr("exiterr", w.m.mask)
		}
		w.m.end(w.err)
	}
	return w.err
}

var runTimes = []int64{0, 100, 99}

// mf is one manifold.
type mf struct {
	e         *env
	name      string
	inNames   []string
	ins       []*mf
	soft      bool // starts without its inputs
	mask      int  // exit errors
	failMask  int  // start failures
	own       int  // how many starts may fail, or give workers that may end
	slow      bool
	removed   bool // has ended with ErrUninstall
	noKill    bool
	fresh     bool // nothing it depends on has changed since an install was refused
	ctxStarts int  // how many starts wait for their context
	retry     int

	calls    int
	starting bool
	insts    []*inst
	seen     []*inst
	ends     int
	fails    int // ends with errN
	lastEnd  error
	runs     bool // workers run for a symbolic time
	ran      int64
	kills    int
	recs     int
	ctx      context.Context
	filter   func(error) error
	gone     bool  // has ended with ErrUninstall and nobody told it to stop
	refused  bool  // Install has failed
	reports  bool  // workers are Reporters
	ticks    bool  // a start begins a minute after what was before it, and takes one
	began    int64 // when the last start began
	wanted   bool  // Install is being called
}

func (m *mf) end(err error) {
	if err == errN {
		m.fails++
	}
	if m.filter != nil {
		err = m.filter(err)
	}
	m.ends++
	m.lastEnd = err
	if r := rank(err); r > 0 {
		m.e.fatals++
		if rank(m.e.worst) < r {
			m.e.worst = err
		}
	}
}

func (m *mf) last() *inst {
	if len(m.insts) == 0 {
		return nil
	}
	return m.insts[len(m.insts)-1]
}

// live returns the worker that is running.
func (m *mf) live() *inst {
	if w := m.last(); w != nil && !w.dead {
		return w
	}
	return nil
}

func (m *mf) output(in worker.Worker, out interface{}) error {
	w, ok := in.(*inst)
	if r, is := in.(*reporting); is {
		w, ok = r.inst, true
	}
	vp.Assert(ok && w.m.name == m.name, "C18: an Output func is called with another manifold's worker")
	*(out.(**inst)) = w
	return nil
}

const minute = 60e9

func (m *mf) start(ctx context.Context, g dependency.Getter) (worker.Worker, error) {
	e := m.e
	vp.Assert(!e.waited, "C13: a start function is called after Wait has returned")
	for _, o := range e.ms {
		if o.name != m.name {
			continue
		}
		vp.Assert(!o.starting, "C12: start called while an earlier start call for the name is in progress")
		for _, w := range o.insts {
			vp.Assert(w.dead, "C12: start called while an earlier worker of the name has not finished")
		}
	}
	vp.Assert(!m.refused, "C19: a refused manifold is started")
	vp.Assert(!m.gone, "C19: a manifold that was removed is started again")
	if m.calls > 0 && len(m.inNames) == 0 {
		vp.Assert(m.ends == m.calls, "C12: started again although it has not ended")
		vp.Assert(again(m.lastEnd), "C15: started again although nothing calls for it")
	}
	m.calls++
	m.ctx = ctx
	if m.ticks {
		e.now += minute
		m.began = e.now
		defer func() { e.now += minute }()
	}
	missing := false
	m.seen = nil
	for i, in := range m.inNames {
		var w *inst
		err := g.Get(in, &w)
		if err != nil {
			vp.Assert(errors.Is(err, dependency.ErrMissing) && w == nil, "C18: Get of a declared input fails with an error that is not ErrMissing")
			missing = true
		} else {
			vp.Assert(w != nil && m.ins[i] != nil && w.m.name == in, "C18: Get succeeds without the input's worker")
		}
		m.seen = append(m.seen, w)
	}
	if m.slow || m.calls <= m.ctxStarts {
		m.starting = true
		if m.calls <= m.ctxStarts {
			<-ctx.Done()
		}
		vp.Gate()
		vp.Assert(!e.waited, "C13: Wait has returned while a start call is in progress")
		m.starting = false
	}
	if missing && !m.soft {
		m.end(dependency.ErrMissing)
		return nil, dependency.ErrMissing
	}
	own := m.calls <= m.own
	if m.failMask != 0 && own && vp.Bool("startfails") {
		err := pickErr("starterr", m.failMask)
		m.end(err)
		if m.runs {
			m.ran = 0
		}
		if len(m.inNames) == 0 && uninstalls(err) {
			m.gone = true
		}
		return nil, err
	}
	w := &inst{m: m, exit: own && m.mask != 0, n: m.calls}
	m.insts = append(m.insts, w)
	if m.reports {
		return &reporting{w}, nil
	}
	return w, nil
}

type env struct {
	e       *dependency.Engine
	ms      []*mf
	killing bool
	killed  bool
	fatals  int
	worst   error
	waited  bool

	noTimers bool
	timers   int
	lastD    time.Duration
	pending  []chan time.Time
	now      int64
	judge    func(time.Duration) // judges each delay
	afters   int
	extra    map[string]int // starts of manifolds that are not among ms
}

func (e *env) shutting() bool { return e.killing || e.fatals > 0 }

func (e *env) Now() time.Time { return vp.Time(1000 + e.now) }

func (e *env) After(d time.Duration) <-chan time.Time {
	vp.Assert(!e.waited, "C13: a start is scheduled after Wait has returned")
	c := make(chan time.Time, 1)
	if e.judge != nil {
		e.judge(d)
		c <- vp.Time(2000)
		return c
	}
	if d <= 0 || !e.noTimers {
		c <- vp.Time(2000)
	}
	if d > 0 {
		e.timers++
		e.lastD = d
		e.pending = append(e.pending, c)
	}
	return c
}

func (e *env) RecordStart(name string) {
	known := false
	for _, m := range e.ms {
		if m.name != name {
			continue
		}
		known = true
		if w := m.last(); w != nil && !w.rec {
			w.rec = true
			m.recs++
			return
		}
	}
	vp.Assert(!known, "C20: a start is recorded that did not happen, or twice")
	_, ok := e.extra[name]
	vp.Assert(ok, "C20: a start is recorded for an unknown name")
	e.extra[name]++
}

func isFatal(err error) bool { return rank(err) > 0 }

func worst(a, b error) error {
	if rank(a) >= rank(b) {
		return a
	}
	return b
}

func (e *env) config() dependency.EngineConfig {
	return dependency.EngineConfig{
		IsFatal:    isFatal,
		WorstError: worst,
		Clock:      e,
		Metrics:    e,
		Logger:     logger{},
	}
}

func (e *env) engine(c dependency.EngineConfig) {
	en, err := dependency.NewEngine(c)
	vp.Assert(err == nil, "C21: NewEngine rejects a valid configuration")
	e.e = en
}

func (e *env) mf(name string, ins ...*mf) *mf {
	m := &mf{e: e, name: name}
	for _, i := range ins {
		m.inNames = append(m.inNames, i.name)
		m.ins = append(m.ins, i)
	}
	e.ms = append(e.ms, m)
	return m
}

func (m *mf) manifold() dependency.Manifold {
	return dependency.Manifold{Inputs: m.inNames, Start: m.start, Output: m.output}
}

// install installs m, which must succeed on a running engine.
func (e *env) install(m *mf) {
	err := e.e.Install(m.name, m.manifold())
	vp.Assert(err == nil || e.shutting(), "C19: Install of a fresh name on a running engine fails")
	m.refused = err != nil
}

func (e *env) kill() {
	vp.Gate()
	e.killing = true
	e.e.Kill()
	e.killed = true
}

func (e *env) wait() {
	err := e.e.Wait()
	e.waited = true
	for _, m := range e.ms {
		vp.Assert(!m.starting, "C13: Wait returned while a start call is in progress")
		for _, w := range m.insts {
			vp.Assert(w.dead, "C13: Wait returned while a worker has not finished")
		}
	}
	vp.Assert(err == e.worst, "C17: Wait does not return the worst fatal error")
}

// finish kills the engine, waits for it, and checks the final state.
func (e *env) finish() {
	e.kill()
	e.wait()
	vp.Quiesce()
	vp.Assert(vp.Goroutines() == 0, "C13: a goroutine is left after the engine's end")
	vp.Reach("end")
}

// settled checks what must hold when nothing moves.
func (e *env) settled(installed ...*mf) {
	if e.shutting() {
		return
	}
	for _, m := range installed {
		if m.removed {
			continue
		}
		vp.Assert(m.calls > 0, "C19: an installed manifold is never started")
		w := m.last()
		vp.Assert(w == nil || w.dead || w.rec, "C20: the start of a running worker is not recorded")
		vp.Assert(len(m.inNames) > 0 || m.recs == len(m.insts), "C20: a start is not recorded exactly once")
		vp.Assert(w == nil || w.dead || !w.killed, "C13: a worker ignores Kill")
		for i := range m.inNames {
			var cur *inst
			if m.ins[i] != nil {
				cur = m.ins[i].live()
			}
			vp.Assert(m.seen[i] == cur, "C14: a manifold's last start did not see the workers that its inputs run now")
		}
		vp.Assert(m.live() == nil || m.ctx.Err() == nil, "C22: the context of a running worker is cancelled although it was not stopped")
		if len(m.inNames) == 0 && m.ends > 0 {
			vp.Assert((m.calls > m.ends) == again(m.lastEnd), "C15: an end that calls for a restart is not followed by one, or another is")
		}
	}
}

const allMask = eNil | eN | eMissing | eBounce | eUninstall | eF1

// One: a single manifold, all kinds of ends, Kill at any moment.
func One() {
	props("C13")
	e := &env{}
	e.engine(e.config())
	a := e.mf("a")
	a.own, a.mask, a.failMask, a.slow = 2, allMask, eN|eMissing|eBounce|eUninstall|eF1, true
	e.install(a)
	e.finish()
}

// OneQuiet: a single manifold, all kinds of ends, judged when quiet.
func OneQuiet() {
	props("C15")
	e := &env{}
	e.engine(e.config())
	a := e.mf("a")
	a.own, a.mask, a.failMask = 2, allMask|eWMissing|eWBounce|eWUninstall, allMask&^eNil|eWMissing|eWBounce|eWUninstall
	e.install(a)
	vp.Quiesce()
	e.settled(a)
	if !e.shutting() {
		vp.Reach("quiet")
	}
	e.finish()
}

// Chain: b depends on a; both may end once, Kill at any moment.
func Chain() {
	props("C13")
	e := &env{}
	e.engine(e.config())
	a := e.mf("a")
	b := e.mf("b", a)
	a.own, a.mask = 1, eN|eNil
	b.own, b.mask = 1, eN|eNil
	b.soft = true
	if vp.Bool("order") {
		e.install(a)
		e.install(b)
	} else {
		e.install(b)
		e.install(a)
	}
	e.finish()
}

// ChainQuiet: b depends on a; judged when quiet.
func ChainQuiet() {
	props("C14")
	e := &env{}
	e.engine(e.config())
	a := e.mf("a")
	b := e.mf("b", a)
	a.own, a.mask = 1, eN|eNil
	b.own, b.mask = 1, eN|eNil
	b.soft = vp.Bool("soft")
	if vp.Bool("order") {
		e.install(a)
		e.install(b)
	} else {
		e.install(b)
		e.install(a)
	}
	vp.Quiesce()
	e.settled(a, b)
	vp.Reach("quiet")
	e.finish()
}
