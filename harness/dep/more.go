package dep

import (
	"context"
	"errors"

	"github.com/juju/worker/v4"
	"github.com/juju/worker/v4/dependency"
	"github.com/juju/worker/v4/zzverif/vp"
)

// ---- C11 ----

var nodeNames = []string{"a", "b", "c", "d"}

// graph picks the inputs of n manifolds: any subset of themselves.
func graph(n int) (dependency.Manifolds, [4][4]bool) {
	var adj [4][4]bool
	ms := dependency.Manifolds{}
	for i := 0; i < n; i++ {
		var in []string
		for j := 0; j < n; j++ {
			adj[i][j] = vp.Bool("edge")
			if adj[i][j] {
				in = append(in, nodeNames[j])
			}
		}
		if i == 0 && vp.Bool("absent") {
			in = append(in, "absent")
		}
		ms[nodeNames[i]] = dependency.Manifold{Inputs: in}
	}
	return ms, adj
}

func cyclic(n int, adj [4][4]bool) bool {
	for k := 0; k < n; k++ {
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				if adj[i][k] && adj[k][j] {
					adj[i][j] = true
				}
			}
		}
	}
	for i := 0; i < n; i++ {
		if adj[i][i] {
			return true
		}
	}
	return false
}

// Validate: every graph of three manifolds.
func Validate() {
	props("C11")
	ms, adj := graph(3)
	err := dependency.Validate(ms)
	vp.Assert((err != nil) == cyclic(3, adj), "C11: Validate accepts a cycle or refuses an acyclic graph")
	if err != nil {
		vp.Reach("cycle")
	} else {
		vp.Reach("acyclic")
	}
}

// Validate4: four manifolds, the last two with at most one input each.
func Validate4() {
	props("C11")
	var adj [4][4]bool
	ms := dependency.Manifolds{}
	for i := 0; i < 4; i++ {
		var in []string
		if i < 1 {
			for j := 0; j < 4; j++ {
				adj[i][j] = vp.Bool("edge")
				if adj[i][j] {
					in = append(in, nodeNames[j])
				}
			}
		} else if j := vp.Pick("input", 5); j < 4 {
			adj[i][j] = true
			in = append(in, nodeNames[j])
		}
		ms[nodeNames[i]] = dependency.Manifold{Inputs: in}
	}
	err := dependency.Validate(ms)
	vp.Assert((err != nil) == cyclic(4, adj), "C11: Validate accepts a cycle or refuses an acyclic graph")
	vp.Reach("end")
}

// ValidateAll4: every graph of four manifolds (of which one may need itself).
func ValidateAll4() {
	props("C11")
	var adj [4][4]bool
	ms := dependency.Manifolds{}
	for i := 0; i < 4; i++ {
		var in []string
		for j := 0; j < 4; j++ {
			if i == j && i > 0 {
				continue // self-loops: Validate
			}
			adj[i][j] = vp.Pick("edge", 2) == 1
			if adj[i][j] {
				in = append(in, nodeNames[j])
			}
		}
		ms[nodeNames[i]] = dependency.Manifold{Inputs: in}
	}
	err := dependency.Validate(ms)
	vp.Assert((err != nil) == cyclic(4, adj), "C11: Validate accepts a cycle or refuses an acyclic graph")
	vp.Reach("end")
}

// ValidateOrder: three manifolds with at most one input each, walked in any
// order (-maporders).
func ValidateOrder() {
	props("C11")
	var adj [4][4]bool
	ms := dependency.Manifolds{}
	for i := 0; i < 3; i++ {
		var in []string
		if j := vp.Pick("input", 4); j < 3 {
			adj[i][j] = true
			in = append(in, nodeNames[j])
		}
		ms[nodeNames[i]] = dependency.Manifold{Inputs: in}
	}
	err := dependency.Validate(ms)
	vp.Assert((err != nil) == cyclic(3, adj), "C11: Validate accepts a cycle or refuses an acyclic graph")
	vp.Reach("end")
}

// InstallGraph: three installs into an engine, one after the other.
func InstallGraph() {
	props("C11")
	e := &env{}
	e.engine(e.config())
	var adj [4][4]bool
	n := 3
	for i := 0; i < n; i++ {
		m := e.mf(nodeNames[i])
		m.noKill = false
		m.soft = true
		was := adj
		for j := 0; j < n; j++ {
			if vp.Bool("edge") {
				adj[i][j] = true
				m.inNames = append(m.inNames, nodeNames[j])
				m.ins = append(m.ins, nil)
			}
		}
		err := e.e.Install(m.name, dependency.Manifold{Inputs: m.inNames, Start: never})
		bad := cyclic(n, adj)
		vp.Assert((err != nil) == bad, "C11: Install accepts a cycle or refuses an acyclic graph")
		if bad {
			adj = was
		}
		vp.Quiesce()
	}
	vp.Reach("end")
	e.ms = nil
	e.finish()
}

func never(context.Context, dependency.Getter) (worker.Worker, error) {
	return nil, dependency.ErrMissing
}

// ---- C13: an engine that runs itself ----

// Self: the engine is one of its manifolds, and another one uses it.
func Self() {
	props("C13")
	e := &env{extra: map[string]int{"self": 0}}
	e.engine(e.config())
	err := e.e.Install("self", dependency.SelfManifold(e.e))
	vp.Assert(err == nil, "C19: Install of a fresh name on a running engine fails")
	a := e.mf("a")
	a.own, a.mask = 1, eN|eF1
	if vp.Bool("other") {
		e.install(a)
	}
	e.finish()
}

// SelfUse: a manifold installs another one through the engine.
func SelfUse() {
	props("C13", "C19")
	e := &env{extra: map[string]int{"self": 0}}
	e.engine(e.config())
	err := e.e.Install("self", dependency.SelfManifold(e.e))
	vp.Assert(err == nil, "C19: Install of a fresh name on a running engine fails")
	a := e.mf("a")
	installed := false
	err = e.e.Install("user", dependency.Manifold{Inputs: []string{"self"}, Start: func(_ context.Context, g dependency.Getter) (worker.Worker, error) {
		var i dependency.Installer
		if err := g.Get("self", &i); err != nil {
			vp.Assert(errors.Is(err, dependency.ErrMissing), "C18: Get fails with an unexpected error")
			return nil, dependency.ErrMissing
		}
		var r dependency.Reporter
		vp.Assert(g.Get("self", &r) == nil, "C18: the self manifold does not give a Reporter")
		vp.Assert(g.Get("self", &installed) != nil, "C18: the self manifold gives something else")
		if !installed {
			installed = true
			if err := i.Install(a.name, a.manifold()); err != nil {
				vp.Assert(e.shutting(), "C19: Install of a fresh name on a running engine fails")
				return nil, dependency.ErrUninstall
			}
		}
		return nil, dependency.ErrUninstall
	}})
	vp.Assert(err == nil, "C19: Install of a fresh name on a running engine fails")
	if vp.Bool("settle") {
		vp.Quiesce()
		vp.Assert(a.live() != nil, "C19: an installed manifold is never started")
		vp.Reach("installed")
	}
	e.finish()
}

// ---- C13: workers that take their time ----

// Hold: Wait does not return before a worker that ignores Kill has finished.
func Hold() {
	props("C13")
	e := &env{}
	e.engine(e.config())
	a := e.mf("a")
	b := e.mf("b")
	e.install(a)
	e.install(b)
	vp.Quiesce()
	wa := a.live()
	wa.hold = true
	done := false
	e.kill()
	go func() {
		e.e.Wait()
		vp.Gate()
		done = true
		vp.Assert(wa.dead, "C13: Wait returned while a worker has not finished")
	}()
	vp.Quiesce()
	vp.Assert(!done, "C13: Wait returned while a worker has not finished")
	vp.Assert(b.live() == nil, "C13: a worker is not stopped on Kill")
	wa.exit = true
	e.wait()
	vp.Quiesce()
	vp.Assert(done && vp.Goroutines() == 0, "C13: a goroutine is left after the engine's end")
	vp.Reach("end")
}

// ---- C17 ----

// Fatal: two manifolds with fatal and other ends, and a Filter on the engine.
func Fatal() {
	props("C17")
	e := &env{}
	c := e.config()
	filtered := errors.New("filtered")
	filter := vp.Bool("filter")
	if filter {
		c.Filter = func(err error) error {
			vp.Assert(err == e.worst, "C17: Filter is not given the worst fatal error")
			return filtered
		}
	}
	e.engine(c)
	a := e.mf("a")
	b := e.mf("b")
	a.own, a.mask, a.failMask = 1, eNil|eF1|eF2, eF1
	b.own, b.mask = 1, eF1|eF2
	e.install(a)
	e.install(b)
	if vp.Bool("kill") {
		e.kill()
	}
	err := e.e.Wait()
	e.waited = true
	vp.Assert(e.killing || e.fatals > 0, "C17: the engine stops although nothing was fatal")
	want := e.worst
	if filter {
		want = filtered
	}
	vp.Assert(err == want, "C17: Wait does not return Filter's view of the worst fatal error")
	for _, m := range e.ms {
		for _, w := range m.insts {
			vp.Assert(w.dead, "C13: Wait returned while a worker has not finished")
		}
	}
	vp.Reach("end")
}

// FatalFiltered: the manifold's Filter decides what the engine sees.
func FatalFiltered() {
	props("C17", "C15")
	e := &env{}
	e.engine(e.config())
	a := e.mf("a")
	a.own, a.mask, a.failMask = 1, eNil|eN|eF1, eN|eF1
	to := pickErr("to", eNil|eN|eBounce|eUninstall|eF2)
	from := pickErr("from", eN|eF1|eNil)
	calls := 0
	m := a.manifold()
	a.filter = func(err error) error {
		if err == from {
			return to
		}
		return err
	}
	m.Filter = func(err error) error {
		calls++
		return a.filter(err)
	}
	err := e.e.Install("a", m)
	vp.Assert(err == nil, "C19: Install of a fresh name on a running engine fails")
	vp.Quiesce()
	vp.Assert(calls == a.ends, "C15: Filter is not called once per end")
	if !e.shutting() {
		e.settled(a)
		vp.Reach("running")
	} else {
		vp.Reach("fatal")
	}
	e.finish()
}

// ---- C18 ----

type getter struct{ g dependency.Getter }

// Get: every combination of declared, running, exposed, wanted, during and
// after the start.
func Get() {
	props("C18")
	e := &env{}
	e.engine(e.config())
	a := e.mf("a")
	exposed, outErr := vp.Bool("exposed"), vp.Bool("output fails")
	running := vp.Bool("running")
	declared := vp.Pick("declared", 2) == 1
	wantOut := vp.Bool("out")
	errOut := errors.New("output")
	outputs := 0
	var given worker.Worker
	var got interface{}
	ma := a.manifold()
	ma.Output = nil
	if exposed {
		ma.Output = func(in worker.Worker, out interface{}) error {
			outputs++
			given, got = in, out
			if outErr {
				return errOut
			}
			return nil
		}
	}
	if !running {
		ma.Start = never
	}
	err := e.e.Install("a", ma)
	vp.Assert(err == nil, "C19: Install of a fresh name on a running engine fails")
	vp.Quiesce()
	var in []string
	if declared {
		in = append(in, "a")
	}
	var kept dependency.Getter
	starts := 0
	var target int
	var out interface{}
	if wantOut {
		out = &target
	}
	err = e.e.Install("b", dependency.Manifold{Inputs: in, Start: func(_ context.Context, g dependency.Getter) (worker.Worker, error) {
		starts++
		kept = g
		err := g.Get("a", out)
		switch {
		case !declared || !running:
			vp.Assert(errors.Is(err, dependency.ErrMissing), "C18: Get of an input that is not declared or not running does not return ErrMissing")
		case !wantOut:
			vp.Assert(err == nil, "C18: Get without an output of a running input fails")
		case !exposed:
			vp.Assert(errors.Is(err, dependency.ErrMissing), "C18: Get of an input without Output does not return ErrMissing")
		case outErr:
			vp.Assert(err == errOut, "C18: Get does not return what Output returns")
		default:
			vp.Assert(err == nil, "C18: Get does not return what Output returns")
		}
		called := 0
		if declared && running && wantOut && exposed {
			called = 1
			vp.Assert(given == worker.Worker(a.last()) && got == out, "C18: Output is not given the input's worker and the target")
		}
		vp.Assert(outputs == called, "C18: Output is not called exactly once, or called in vain")
		if vp.Bool("twice") {
			again := g.Get("a", out)
			vp.Assert((again == nil) == (err == nil), "C18: Get changes its mind during one start")
			outputs = called
		}
		return nil, dependency.ErrUninstall
	}})
	vp.Assert(err == nil, "C19: Install of a fresh name on a running engine fails")
	vp.Quiesce()
	vp.Assert(starts == 1, "C19: an installed manifold is never started")
	n := outputs
	err = kept.Get("a", out)
	vp.Assert(err != nil && !errors.Is(err, dependency.ErrMissing), "C18: Get after the start does not fail, or fails with ErrMissing")
	vp.Assert(outputs == n, "C18: Get after the start reaches Output")
	vp.Reach("end")
	e.ms = nil
	e.finish()
}

// GetLate: Get from another goroutine around the end of the start.
func GetLate() {
	props("C18")
	e := &env{}
	e.engine(e.config())
	a := e.mf("a")
	e.install(a)
	vp.Quiesce()
	b := e.mf("b", a)
	returned := false
	var late error
	lateDone := false
	w := &inst{m: b}
	err := e.e.Install("b", dependency.Manifold{Inputs: b.inNames, Start: func(_ context.Context, g dependency.Getter) (worker.Worker, error) {
		go func() {
			vp.Await(&returned)
			var x *inst
			late = g.Get("a", &x)
			vp.Gate()
			lateDone = true
			vp.Assert(late != nil || x == a.last(), "C18: Get succeeds without the input's worker")
		}()
		b.insts = append(b.insts, w)
		return w, nil
	}})
	vp.Assert(err == nil, "C19: Install of a fresh name on a running engine fails")
	vp.Quiesce()
	vp.Assert(e.mfRecorded("b"), "C20: the start of a running worker is not recorded")
	returned = true
	vp.Quiesce()
	vp.Assert(lateDone && late != nil && !errors.Is(late, dependency.ErrMissing), "C18: Get after the start does not fail, or fails with ErrMissing")
	vp.Reach("end")
	e.finish()
}

func (e *env) mfRecorded(name string) bool {
	for _, m := range e.ms {
		if m.name == name {
			return m.recs == 1
		}
	}
	return false
}
