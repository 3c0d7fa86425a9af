// Package cat holds the harnesses for catacomb.Catacomb.
package cat

import (
	"context"
	"errors"
	"fmt"
	"strings"

	jujuerrors "github.com/juju/errors"
	"gopkg.in/tomb.v2"

	"github.com/juju/worker/v4"
	"github.com/juju/worker/v4/catacomb"
	"github.com/juju/worker/v4/zzverif/vp"
)

var (
	errA = errors.New("worker failed")
	errB = errors.New("work failed")
	errK = errors.New("killed")
	errL = errors.New("killed late")
)

func props(l ...string) {
	for _, p := range l {
		vp.DeadlockIs(p)
		vp.CrashIs(p)
	}
}

// cw is a worker given to a catacomb.
type cw struct {
	e       *env
	killed  bool
	exit    bool // may finish by itself
	hold    bool // ignores Kill until released
	owned   bool // the catacomb has accepted it
	offered bool
	dead    bool
	err     error
	errs    int // 0: nil only, 1: nil or errA, 2: errA only
}

func (w *cw) Kill() {
	vp.Gate()
	vp.Assert(w.e.cause || w.e.failing, "C23: a worker is killed although the catacomb is not dying")
	if !w.hold {
		w.killed = true
	}
}

func (w *cw) Wait() error {
	vp.Await(&w.killed, &w.exit)
	if !w.dead {
		w.dead = true
		switch w.errs {
		case 1:
			if vp.Bool("workererr") {
				w.err = errA
			}
		case 2:
			w.err = errA
		}
		if w.err != nil && (w.owned || w.offered) {
			w.e.cause = true
		}
	}
	return w.err
}

type env struct {
	c       *catacomb.Catacomb
	ws      []*cw
	cause   bool // something has been done that makes the catacomb die
	failing bool // an Invoke or Add that fails stops its workers
	works   int  // runs of the work func begun
	done    bool // the work func has returned
	waited  bool
	kind    int
	release bool
	fails   bool
	ctx     context.Context
}

func (e *env) newWorker(own bool, errs int) *cw {
	w := &cw{e: e, exit: own, errs: errs}
	e.ws = append(e.ws, w)
	return w
}

const (
	workNil = iota
	workErr
	workDying
	workWait
	workWaitErr
	nWork
	workForever = nWork // until Kill by someone else
	workPanic   = nWork + 1
	workHold    = nWork + 2 // until released
)

func (e *env) work() error {
	vp.Gate()
	vp.Assert(e.works == 0, "C25: the work func is run twice")
	vp.Assert(!e.waited, "C23: the work func runs although the catacomb is dead")
	e.works++
	var err error
	switch e.kind {
	case workNil:
	case workErr:
		err = errB
	case workDying:
		<-e.c.Dying()
		err = e.c.ErrDying()
		switch vp.Pick("wrapped", 3) {
		case 1:
			err = jujuerrors.Trace(err)
		case 2:
			err = fmt.Errorf("stopping: %w", err)
		}
	case workWait:
		<-e.c.Dying()
	case workWaitErr:
		<-e.c.Dying()
		err = errB
	case workHold:
		vp.Await(&e.release)
		if e.fails {
			err = errB
		}
	case workPanic:
		e.cause = true
		e.done = true
		panic("boom")
	}
	vp.Gate()
	vp.Assert(!e.waited, "C23: Wait returned while the work func is running")
	e.cause = true
	e.done = true
	return err
}

func (e *env) plan(ws ...worker.Worker) catacomb.Plan {
	return catacomb.Plan{Name: "c", Site: e.c, Work: e.work, Init: ws}
}

// invoke must succeed.
func (e *env) invoke(ws ...*cw) {
	var l []worker.Worker
	for _, w := range ws {
		w.owned = true
		l = append(l, w)
	}
	e.c = &catacomb.Catacomb{}
	err := catacomb.Invoke(e.plan(l...))
	vp.Assert(err == nil, "C25: Invoke of a valid plan fails")
	for i := range l {
		l[i] = nil // the catacomb does not depend on the caller's slice
	}
}

func (e *env) kill(err error) {
	vp.Gate()
	e.cause = true
	e.c.Kill(err)
}

// add calls Add from a client.
func (e *env) add(w *cw) error {
	vp.Gate()
	w.offered = true
	err := e.c.Add(w)
	vp.Gate()
	if err != nil {
		vp.Assert(e.cause, "C23: Add fails although the catacomb is alive")
		vp.Assert(w.dead, "C23: Add failed but the worker is left running")
		vp.Assert(w.killed, "C23: Add failed and did not stop the worker")
		if w.err != nil {
			vp.Assert(jujuerrors.Is(err, w.err), "C23: a failing Add does not return the worker's error")
			vp.Reach("add: worker error")
		} else {
			vp.Assert(err == e.c.ErrDying(), "C23: a failing Add does not return ErrDying")
			vp.Reach("add: dying")
		}
	} else {
		w.owned = true
		vp.Reach("added")
	}
	return err
}

// wait waits for the catacomb and checks the end state.
func (e *env) wait() error {
	err := e.c.Wait()
	e.waited = true
	vp.Assert(e.works == 1 && e.done, "C23: Wait returned before the work func has finished")
	for _, w := range e.ws {
		if w.owned {
			vp.Assert(w.dead, "C23: Wait returned before an accepted worker has finished")
		}
	}
	vp.Reach("end")
	return err
}

// Shutdown: an initial and an added worker, any work func, a Kill at any
// moment.
func Shutdown() { shutdown(nWork, true, true) }

// ShutdownInit: an initial worker which may finish by itself or fail.
func ShutdownInit() { shutdown(nWork, true, false) }

// ShutdownAdd: a worker is added while the catacomb dies.
func ShutdownAdd() { shutdown(nWork, false, true) }

func shutdown(kinds int, init, add bool) {
	props("C27")
	e := &env{kind: vp.Pick("work", kinds)}
	var a, b *cw
	if init {
		a = e.newWorker(vp.Bool("a exits"), 1)
		e.invoke(a)
	} else {
		e.invoke()
	}
	done := make(chan struct{})
	if add {
		b = e.newWorker(false, 1)
		go func() {
			e.add(b)
			close(done)
		}()
	}
	e.kill(nil)
	err := e.wait()
	if add {
		<-done
	}
	reasons := 0
	if e.kind == workErr || e.kind == workWaitErr {
		reasons++
	}
	werr := init && a.err != nil || add && b.owned && b.err != nil
	if werr {
		reasons++
	}
	vp.Assert((err != nil) == (reasons > 0), "C24: Wait's error does not reflect whether there was a reason")
	vp.Assert(err == nil || err == errA || err == errB, "C24: Wait returns an error nobody gave")
	vp.Assert(err != errA || werr, "C24: Wait returns an error nobody gave")
	vp.Quiesce()
	vp.Assert(vp.Goroutines() == 0, "C27: goroutines are left when the catacomb is dead")
}

// Reasons: a sequence of kills of every kind; the first non-nil one counts.
func Reasons() {
	props("C24")
	e := &env{kind: workHold}
	fails := vp.Bool("work fails")
	e.invoke()
	other := &env{kind: workWait}
	other.invoke()
	other.kill(nil)
	other.wait()
	var want error
	bad := false
	alive := true
	for i := 0; i < 3; i++ {
		k := vp.Pick("kill", 9)
		var err error
		switch k {
		case 0:
		case 1:
			err = errK
		case 2:
			err = e.c.ErrDying()
			if alive {
				vp.Assert(strings.Contains(err.Error(), "still alive"), "C24: ErrDying of a live catacomb does not report the misuse")
			}
		case 3:
			err = jujuerrors.Annotate(e.c.ErrDying(), "wrapped")
		case 4:
			err = tomb.ErrDying
		case 5:
			err = other.c.ErrDying()
		case 6:
			err = errL
		case 7:
			err = fmt.Errorf("wrapped: %w", e.c.ErrDying())
		case 8:
			err = fmt.Errorf("wrapped: %w", jujuerrors.Trace(other.c.ErrDying()))
		}
		e.kill(err)
		if want == nil && !bad {
			switch k {
			case 1, 6:
				want = err
			case 2, 3, 7:
				if alive {
					want = err
				}
			case 4, 5, 8:
				bad = true
			}
		}
		if k == 4 || k == 5 || k == 8 {
			got := e.c.Err()
			if bad && want == nil {
				vp.Assert(got != nil && got != tomb.ErrStillAlive && got != tomb.ErrDying && strings.Contains(got.Error(), "bad catacomb Kill"), "C24: misuse of ErrDying is not reported as such")
				want = got
			}
		}
		alive = false
	}
	e.fails = fails
	e.release = true
	err := e.wait()
	if want == nil && fails {
		want = errB
	}
	vp.Assert(err == want, "C24: Wait does not return the first reason given")
	if want == nil {
		vp.Reach("nil")
	}
}

// LateKill: once the catacomb is dead its reason does not change any more.
func LateKill() {
	props("C24")
	e := &env{kind: vp.Pick("work", 2)}
	e.invoke()
	err := e.wait()
	if vp.Bool("nil") {
		e.c.Kill(nil)
	} else {
		e.c.Kill(errL)
	}
	vp.Assert(e.c.Wait() == err && e.c.Err() == err, "C24: a Kill after the catacomb is dead changes its reason")
	if e.kind == workErr {
		vp.Assert(err == errB, "C24: Wait does not return the first reason given")
	} else {
		vp.Assert(err == nil, "C24: Wait returns an error nobody gave")
	}
}

// WorkerErr: a worker that fails kills the catacomb with its error, one that
// finishes without error leaves it running.
func WorkerErr() {
	props("C27")
	e := &env{kind: workWait}
	a := e.newWorker(false, 1)
	b := e.newWorker(true, 1)
	e.invoke(a)
	vp.Quiesce()
	n := vp.Goroutines()
	err := e.add(b)
	vp.Assert(err == nil, "C23: Add fails although the catacomb is alive")
	vp.Quiesce()
	vp.Assert(b.dead, "C27: the worker has finished")
	if b.err == nil {
		vp.Assert(!e.cause && !a.killed && !e.done && e.c.Err() == tomb.ErrStillAlive, "C24: a worker finishing without error disturbs the catacomb")
		vp.Assert(vp.Goroutines() == n, "C27: a worker that finished by itself leaves a goroutine behind")
		vp.Reach("running")
		e.kill(nil)
		err := e.wait()
		vp.Assert(err == a.err, "C24: Wait does not return the first reason given")
	} else {
		vp.Assert(a.dead && e.done, "C24: a worker's error does not kill the catacomb")
		err := e.wait()
		vp.Assert(err == errA, "C24: Wait does not return the failed worker's error")
		vp.Reach("died")
	}
	vp.Quiesce()
	vp.Assert(vp.Goroutines() == 0, "C27: goroutines are left when the catacomb is dead")
}

// Slow: the catacomb waits for workers that take their time to stop, and no
// longer than that.
func Slow() {
	props("C27")
	e := &env{kind: vp.Pick("work", nWork)}
	a := e.newWorker(false, 1)
	a.hold = true
	e.invoke(a)
	b := e.newWorker(false, 1)
	if e.add(b) == nil {
		b.hold = vp.Bool("b holds")
	}
	e.kill(nil)
	returned := false
	go func() {
		e.wait()
		returned = true
	}()
	vp.Quiesce()
	vp.Assert(!returned, "C23: Wait returned before an accepted worker has finished")
	vp.Assert(b.hold || b.dead, "C23: a worker is not killed although the catacomb is dying")
	vp.Gate()
	a.killed, b.killed = true, true
	vp.Quiesce()
	vp.Assert(returned, "C27: the catacomb does not die although its workers and work func have finished")
}

// Context: contexts are cancelled when the catacomb starts dying.
func Context() {
	props("C27")
	e := &env{kind: vp.Pick("work", nWork)}
	a := e.newWorker(false, 1)
	a.hold = true
	e.c = &catacomb.Catacomb{}
	parent, cancel := context.WithCancel(context.Background())
	a.owned = true
	err := catacomb.Invoke(e.plan(a))
	vp.Assert(err == nil, "C25: Invoke of a valid plan fails")
	ctx := e.c.Context(context.Background())
	ctx2 := e.c.Context(parent)
	vp.Gate()
	if !e.cause {
		vp.Assert(ctx.Err() == nil && ctx2.Err() == nil, "C27: a context is cancelled although the catacomb is alive")
		vp.Reach("alive")
	}
	if vp.Bool("cancel parent") {
		cancel()
		vp.Assert(ctx2.Err() != nil, "C27: a context is not cancelled with its parent")
	}
	e.kill(nil)
	vp.Assert(ctx.Err() != nil && ctx2.Err() != nil, "C27: a context is not cancelled although the catacomb is dying")
	select {
	case <-e.c.Dying():
	default:
		vp.Assert(false, "C27: Dying is not closed after Kill")
	}
	select {
	case <-e.c.Dead():
		vp.Assert(false, "C23: the catacomb is dead although a worker is running")
	default:
	}
	late := e.c.Context(context.Background())
	vp.Assert(late.Err() != nil, "C27: a context of a dying catacomb is not cancelled")
	a.killed = true
	e.wait()
	cancel()
}

// Panic: a work func that panics, with or without an earlier reason.
func Panic() {
	props("C26")
	e := &env{kind: workPanic}
	a := e.newWorker(false, 1)
	e.invoke(a)
	early := vp.Bool("early kill")
	if early {
		e.kill(errK)
	}
	err := e.wait()
	if !early || err != errK {
		if err == errA {
			// cannot be: the worker is stopped because of the panic
			vp.Assert(early, "C26: the panic is not the reason")
		} else {
			vp.Assert(err != nil && strings.Contains(err.Error(), "boom"), "C26: the error does not carry the panic value")
			p, ok := err.(interface {
				Panicked() bool
				StackTrace() []string
			})
			vp.Assert(ok && p.Panicked() && len(p.StackTrace()) > 0, "C26: the error does not identify itself as a panic")
			vp.Reach("panicked")
		}
	}
	vp.Assert(a.dead, "C26: a worker outlives the catacomb")
}

type panicVal struct{ s string }

func (p panicVal) Error() string { return "custom " + p.s }

// PanicValues: any kind of panic value.
func PanicValues() {
	props("C26")
	e := &env{kind: workWait}
	e.c = &catacomb.Catacomb{}
	k := vp.Pick("value", 8)
	other := &catacomb.Catacomb{}
	err := catacomb.Invoke(catacomb.Plan{Name: "c", Site: e.c, Work: func() error {
		switch k {
		case 0:
			panic("text")
		case 1:
			panic(panicVal{"err"})
		case 2:
			var m map[string]int
			m["x"] = 1
		case 3:
			defer func() {
				panic(errA)
			}()
			panic(errB)
		case 4:
			e.c.Kill(nil)
			panic(e.c.ErrDying())
		case 5:
			other.Kill(nil)
			panic(fmt.Errorf("wrapped: %w", other.ErrDying()))
		case 6:
			panic(tomb.ErrDying)
		case 7:
			panic(42)
		}
		return nil
	}})
	vp.Assert(err == nil, "C25: Invoke of a valid plan fails")
	err = e.c.Wait()
	want := ""
	switch k {
	case 0:
		want = "text"
	case 1:
		want = "custom err"
	case 2:
		want = "nil map"
	case 3:
		want = "worker failed"
	case 4:
		want = "is dying"
	case 5:
		want = "wrapped: "
	case 6:
		want = tomb.ErrDying.Error()
	case 7:
		want = "42"
	}
	vp.Assert(err != nil && strings.Contains(err.Error(), want), "C26: the error does not carry the panic value")
	p, ok := err.(interface {
		Panicked() bool
		StackTrace() []string
	})
	vp.Assert(ok && p.Panicked() && len(p.StackTrace()) > 0, "C26: the error does not identify itself as a panic")
	vp.Reach("end")
}

// NoPanic: the work func's error is passed on unchanged.
func NoPanic() {
	props("C26")
	e := &env{kind: vp.Pick("work", 2)}
	e.invoke()
	err := e.wait()
	if e.kind == workErr {
		vp.Assert(err == errB, "C26: the work func's error is altered")
	} else {
		vp.Assert(err == nil, "C26: the work func's error is altered")
	}
}

// InvokeTwice: two concurrent Invokes on one catacomb.
func InvokeTwice() {
	props("C25", "C27")
	e := &env{kind: workWait, failing: true}
	e.c = &catacomb.Catacomb{}
	var ws [2]*cw
	var errs [2]error
	n := 0
	for i := 0; i < 2; i++ {
		i := i
		ws[i] = e.newWorker(false, 1)
		go func() {
			err := catacomb.Invoke(e.plan(ws[i]))
			vp.Gate()
			errs[i] = err
			if err == nil {
				ws[i].owned = true
			} else {
				vp.Assert(ws[i].dead, "C25: a failing Invoke leaves its workers running")
				vp.Assert(ws[i].dead, "C23: a worker of a failed Invoke has not finished")
			}
			n++
		}()
	}
	vp.Quiesce()
	vp.Assert(n == 2, "C25: Invoke hangs")
	vp.Assert((errs[0] == nil) != (errs[1] == nil), "C25: not exactly one of two Invokes succeeds")
	for i := range ws {
		if errs[i] == nil {
			vp.Assert(!ws[i].killed && e.c.Err() == tomb.ErrStillAlive, "C25: a failing Invoke disturbs the running catacomb")
		}
	}
	e.kill(nil)
	e.wait()
}

// InvokeInvalid: every combination of missing parts.
func InvokeInvalid() {
	props("C25")
	e := &env{kind: workWait, failing: true}
	e.c = &catacomb.Catacomb{}
	a, b := e.newWorker(vp.Bool("a exits"), 1), e.newWorker(false, 1)
	p := e.plan(a, b)
	valid := true
	if vp.Bool("no name") {
		p.Name = ""
		valid = false
	}
	if vp.Bool("no site") {
		p.Site = nil
		valid = false
	}
	if vp.Bool("no work") {
		p.Work = nil
		valid = false
	}
	nilAt := vp.Pick("nil worker", 3)
	switch nilAt {
	case 1:
		p.Init[0] = nil
		valid = false
	case 2:
		p.Init = []worker.Worker{a, b, nil}
		valid = false
	}
	vp.Assert((p.Validate() == nil) == valid, "C25: Validate accepts an incomplete plan or rejects a complete one")
	if valid {
		a.owned, b.owned = true, true
	}
	err := catacomb.Invoke(p)
	vp.Assert((err == nil) == valid, "C25: Invoke accepts an incomplete plan or rejects a complete one")
	vp.Gate()
	if valid {
		vp.Reach("valid")
		e.kill(nil)
		e.wait()
		vp.Assert(e.works == 1, "C25: the work func is not run exactly once")
		return
	}
	vp.Assert(nilAt == 1 || a.dead, "C25: a failing Invoke leaves its workers running")
	vp.Assert(b.dead, "C25: a failing Invoke leaves its workers running")
	vp.Assert(nilAt == 1 || a.dead, "C23: a worker of a failed Invoke has not finished")
	vp.Assert(b.dead, "C23: a worker of a failed Invoke has not finished")
	vp.Quiesce()
	vp.Assert(e.works == 0, "C25: a failing Invoke runs the work func")
	vp.Reach("invalid")
}

// Reinvoke: a catacomb that was used cannot be used again, alive or dead.
func Reinvoke() {
	props("C25", "C27")
	e := &env{kind: workWait}
	a := e.newWorker(false, 0)
	e.invoke(a)
	dead := vp.Bool("dead")
	if dead {
		e.kill(nil)
		e.wait()
	}
	e.failing = true
	b := e.newWorker(false, 1)
	err := catacomb.Invoke(e.plan(b))
	vp.Assert(err != nil, "C25: Invoke succeeds twice")
	vp.Assert(b.dead, "C25: a failing Invoke leaves its workers running")
	vp.Assert(b.dead, "C23: a worker of a failed Invoke has not finished")
	vp.Quiesce()
	if !dead {
		vp.Assert(!a.killed && e.c.Err() == tomb.ErrStillAlive, "C25: a failing Invoke disturbs the running catacomb")
		e.kill(nil)
		e.wait()
	}
	vp.Assert(e.works == 1, "C25: the work func is not run exactly once")
	vp.Reach("done")
}

// KillFirst: Kill before or during Invoke.
func KillFirst() {
	props("C23", "C27")
	e := &env{kind: vp.Pick("work", nWork)}
	e.c = &catacomb.Catacomb{}
	a := e.newWorker(false, 1)
	a.owned = true
	if vp.Bool("before") {
		e.kill(nil)
	} else {
		go e.kill(nil)
	}
	err := catacomb.Invoke(e.plan(a))
	vp.Assert(err == nil, "C25: Invoke of a valid plan fails")
	e.wait()
}

// AddDead: Add to a dying or dead catacomb.
func AddDead() {
	props("C23", "C27")
	e := &env{kind: vp.Pick("work", nWork)}
	e.invoke()
	e.kill(nil)
	if vp.Bool("dead") {
		e.wait()
	}
	a := e.newWorker(false, 1)
	e.add(a)
	vp.Assert(a.owned || a.dead, "C23: Add failed but the worker is left running")
	e.c.Wait()
	vp.Assert(a.dead, "C23: a worker is left running by a dead catacomb")
}

// AddTwo: two clients add workers while the catacomb dies.
func AddTwo() { addTwo(workDying, 0) }

// AddTwoBig is AddTwo with failing workers and other work funcs.
func AddTwoBig() { addTwo(workNil+vp.Pick("work", 2)*workDying, 1) }

func addTwo(kind, errs int) {
	props("C23", "C27")
	e := &env{kind: kind}
	e.invoke()
	done := make(chan struct{}, 2)
	for i := 0; i < 2; i++ {
		w := e.newWorker(false, errs)
		go func() {
			e.add(w)
			done <- struct{}{}
		}()
	}
	e.kill(nil)
	e.wait()
	<-done
	<-done
	for _, w := range e.ws {
		vp.Assert(w.dead, "C23: a worker is left running by a dead catacomb")
	}
	vp.Quiesce()
	vp.Assert(vp.Goroutines() == 0, "C27: goroutines are left when the catacomb is dead")
}

// API: any call of the interface on a running catacomb with an initial worker
// that may fail, and Kill.
func API() {
	props("C23", "C27", "C24")
	e := &env{kind: workDying}
	e.invoke(e.newWorker(vp.Bool("exits"), 1))
	e.calls(choice(vp.Pick("call", 6))...)
}

// APITwo: any two calls of the interface at once, and Kill.
func APITwo() {
	props("C23", "C27", "C24")
	e := &env{kind: workDying}
	e.invoke()
	e.calls(pair(vp.Pick("calls", 21))...)
}

func (e *env) calls(l ...int) {
	done := make(chan struct{}, 2)
	for _, call := range l {
		call := call
		w := e.newWorker(false, 0)
		go func() {
			e.call(call, w)
			done <- struct{}{}
		}()
	}
	e.kill(nil)
	e.wait()
	for range l {
		<-done
	}
	vp.Quiesce()
	vp.Assert(vp.Goroutines() == 0, "C27: goroutines are left when the catacomb is dead")
}

func choice(n int) []int {
	for i := 0; i < 6; i++ {
		if i == n {
			return []int{i}
		}
	}
	panic("no such call")
}

// pair is the n-th pair of calls {x, y} with x <= y.
func pair(n int) []int {
	i := 0
	for y := 0; y < 6; y++ {
		for x := 0; x <= y; x++ {
			if i == n {
				return []int{x, y}
			}
			i++
		}
	}
	panic("no such pair")
}

func (e *env) call(call int, w *cw) {
	vp.Gate()
	switch call {
	case 0:
		w.offered = true
		if e.c.Add(w) == nil {
			w.owned = true
		}
	case 1:
		e.cause = true
		e.c.Kill(errK)
	case 2:
		e.c.Context(context.Background())
	case 3:
		e.c.Err()
	case 4:
		e.c.Wait()
		vp.Gate()
		vp.Assert(e.c.Err() != e.c.ErrDying(), "C24: a dead catacomb has no final error")
	case 5:
		e.c.ErrDying()
	}
}
