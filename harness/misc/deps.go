package misc

import (
	"context"
	"errors"

	"github.com/juju/worker/v4"
	"github.com/juju/worker/v4/dependency"
	"github.com/juju/worker/v4/zzverif/vp"
)

var errInstall = errors.New("install")

// installer records what it is asked to install, and may refuse each.
type installer struct {
	refuse [3]bool
	calls  [3]int
	after  bool // called again after it refused
	failed bool
}

var installNames = [3]string{"a", "b", "c"}

func (in *installer) Install(name string, m dependency.Manifold) error {
	if in.failed {
		in.after = true
	}
	for i, n := range installNames {
		if n != name {
			continue
		}
		in.calls[i]++
		vp.Assert(len(m.Inputs) == 1 && m.Inputs[0] == "in-"+name, "C33: Install passes on another manifold")
		if in.refuse[i] {
			in.failed = true
			return errInstall
		}
		return nil
	}
	vp.Assert(false, "C33: Install makes names up")
	return nil
}

// InstallAll: any set of up to three manifolds, any of which may be refused.
func InstallAll() {
	props("C33")
	in := &installer{}
	ms := dependency.Manifolds{}
	var given [3]bool
	any := false
	for i, n := range installNames {
		given[i] = vp.Bool("given")
		if !given[i] {
			continue
		}
		ms[n] = dependency.Manifold{Inputs: []string{"in-" + n}}
		in.refuse[i] = vp.Bool("refuse")
		if in.refuse[i] {
			any = true
		}
	}
	err := dependency.Install(in, ms)
	if any {
		vp.Assert(errors.Is(err, errInstall), "C33: Install does not return the error of a refused manifold")
		vp.Assert(!in.after, "C33: Install goes on after a manifold was refused")
		vp.Reach("refused")
	} else {
		vp.Assert(err == nil, "C33: Install fails although no manifold was refused")
		vp.Reach("installed")
	}
	for i := range given {
		vp.Assert(in.calls[i] <= 1, "C33: Install installs a manifold twice")
		vp.Assert(in.calls[i] == 0 || given[i], "C33: Install installs what it was not given")
		vp.Assert(any || in.calls[i] == 1 || !given[i], "C33: Install leaves a manifold out")
	}
}

type fakeEngine struct{ *dependency.Engine }

// SelfOutput: what the manifold of an engine gives, for every kind of target,
// and for workers other than that engine.
func SelfOutput() {
	props("C33")
	mk := func() *dependency.Engine {
		e, err := dependency.NewEngine(dependency.EngineConfig{
			IsFatal:    func(error) bool { return true },
			WorstError: func(a, b error) error { return a },
			Clock:      clk{}, Metrics: metrics{}, Logger: logger{},
		})
		vp.Assert(err == nil, "C21: NewEngine refuses a valid configuration")
		return e
	}
	e, other := mk(), mk()
	m := dependency.SelfManifold(e)
	w, err := m.Start(context.Background(), nil)
	vp.Assert(err == nil && w == worker.Worker(e), "C33: the self manifold does not run its engine")
	own := true
	var in worker.Worker = e
	switch vp.Pick("in", 4) {
	case 1:
		in, own = other, false
	case 2:
		in, own = nil, false
	case 3:
		in, own = fakeEngine{e}, false
	}
	var (
		inst  dependency.Installer
		rep   dependency.Reporter
		wk    worker.Worker
		eng   *dependency.Engine
		any   interface{}
		str                        = "same"
		value dependency.Installer = other
	)
	kind := vp.Pick("out", 8)
	outs := []interface{}{&inst, &rep, &wk, &eng, &any, &str, value, nil}
	err = m.Output(in, outs[kind])
	if own && kind < 2 {
		vp.Assert(err == nil, "C33: the self manifold refuses what it is for")
		vp.Reach("given")
	} else {
		vp.Assert(err != nil, "C33: the self manifold accepts what it is not for")
		vp.Reach("refused")
	}
	vp.Assert((inst == dependency.Installer(e)) == (own && kind == 0), "C33: the wrong Installer")
	vp.Assert((inst == nil) == !(own && kind == 0), "C33: the wrong Installer")
	vp.Assert((rep == dependency.Reporter(e)) == (own && kind == 1), "C33: the wrong Reporter")
	vp.Assert((rep == nil) == !(own && kind == 1), "C33: the wrong Reporter")
	vp.Assert(wk == nil && eng == nil && any == nil && str == "same", "C33: a refused target is written to")
	e.Kill()
	other.Kill()
	e.Wait()
	other.Wait()
}
