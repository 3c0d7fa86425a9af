#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Source of truth for the property texts."""
import json, os, sys
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
            mechanism=[dict(name=a, where=b) for a,b in mech],
            observe_at=list(observe), hook_needed=None)))
R="runner.go"; E="dependency/engine.go"; C="catacomb/catacomb.go"; U="dependency/util.go"; S="dependency/snapshot.go"

prop("C01","Runner: at most one live worker per id",
 "For any one id, a Runner never has two workers alive at once: a start function for the id is called only when no earlier start call for that id is still in progress and every worker obtained from an earlier call has finished (its Wait has returned). This holds across restarts, stops, re-starts under the same id and shutdown.",
 ["schedules","histories","fault_sequences"],"every interleaving of client calls, worker deaths and restarts",
 "Tests drive one hand-picked order of start/stop/die per id; overlap only shows in particular interleavings of removal, restart and a new StartWorker.",
 [R],[("known-worker table checked before start","Runner.startWorker"),("restart only after done notification","Runner.workerDone")],
 [("workers","ids known to the runner","Runner.workers")],["start function calls","Worker.Wait returns"])
prop("C02","Runner: nothing outlives Wait",
 "When Runner.Wait returns, every start call the runner made has returned, every worker the runner obtained has finished, and the runner calls no start function afterwards.",
 ["schedules","histories","fault_sequences"],"every interleaving of shutdown with starting, running, stopping and restart-delayed workers",
 "A test sees one shutdown order; leaks appear when shutdown crosses a start in progress, a restart delay or a late StartWorker.",
 [R],[("loop exits only when dying and no worker known","Runner.run"),("removal only after worker finished","Runner.workerDone/removeWorker")],
 [("isDying","shutdown in progress","Runner.isDying")],["Runner.Wait","Worker.Wait","start function calls"])
prop("C03","Runner: shutdown always completes",
 "Once Kill is called or a worker fails with a fatal error, every worker - including one whose start is still in progress - is killed, none is restarted after it finishes (unless its restart delay has elapsed at that very moment, in which case the new one is killed too), and Wait returns as soon as those workers have finished; a killed runner does not wait for restart delays. Neither the runner nor a concurrent StartWorker, StopWorker, Worker, StopAndRemoveWorker, WorkerNames or Report call can deadlock.",
 ["schedules","histories","fault_sequences"],"every interleaving of shutdown with API calls and worker life cycles, given workers that stop when killed",
 "Deadlocks and missed kills need a specific interleaving of the run loop with worker goroutines; tests cover a handful.",
 [R],[("killAll on dying","Runner.run/killAll"),("late starters killed on registration","Runner.setWorker"),("replies only from live loop","Runner.StartWorker")],
 [],["Runner.Wait","Worker.Kill"])
prop("C04","Runner: restart policy",
 "A worker that exits, or fails to start, with a non-fatal error for which ShouldRestart holds (always, when unset) is started again with the same start function after waiting exactly RestartDelay (3s when zero) on the configured clock, every time it fails; the first start is not delayed. A worker that exits without error, or for whose error ShouldRestart is false, is forgotten and not started again, and in all these cases the other workers are left alone.",
 ["schedules","histories","fault_sequences","configurations"],"every sequence of worker outcomes, any RestartDelay",
 "Tests check a single restart with one delay; policy must hold for every sequence of outcomes and every delay value.",
 [R],[("restart decision","Runner.workerDone"),("delay before start","Runner.runWorker"),("defaults","NewRunner")],
 [("restartDelay","delay before the next start","workerInfo.restartDelay")],["Clock.After argument","start function calls"])
prop("C05","Runner: a stopped worker stays stopped",
 "After StopWorker(id) returns nil, the worker known under id is killed whether it is running, still starting or waiting to be restarted, an instance whose start was already under way is killed as soon as it appears, and once it finishes it is never started again and its id becomes free for a new StartWorker. StopWorker of an unknown id does nothing, and no other worker is affected.",
 ["schedules","histories","fault_sequences"],"every phase of the worker at which the stop may arrive, every exit error",
 "The stop can arrive in any phase of start, run, exit or restart delay; tests stop a running worker only.",
 [R],[("stopping mark and kill","Runner.killWorkerLocked"),("kill on late registration","Runner.setWorker"),("no restart when stopped","Runner.workerDone")],
 [("stopping/start==nil","stop requested","workerInfo")],["Worker.Kill","start function calls","Runner.WorkerNames"])
prop("C06","Runner: Wait reports the right error",
 "Runner.Wait returns nil unless some worker's exit or start error was fatal; otherwise it returns one of the fatal errors, namely the one MoreImportant prefers over all the others when MoreImportant is a ranking, and the first fatal error when MoreImportant is unset. An unset IsFatal makes every non-nil error fatal, and non-fatal errors are never returned.",
 ["schedules","histories","fault_sequences"],"every order in which workers fail, every assignment of fatality and importance",
 "The reported error depends on the order of failures during shutdown and on the ranking; tests fix one order.",
 [R],[("final error selection","Runner.workerDone"),("defaults","NewRunner")],
 [("finalError","error to return","Runner.finalError")],["Runner.Wait"])
prop("C07","Runner: StartWorker contract",
 "On a running Runner, StartWorker returns nil exactly when the id was not known, and then the id is known as soon as it returns and the start function is called; for a known id it returns an AlreadyExists error and never calls the given function. Once the runner is dead it returns ErrDead and never calls the function; if the caller's context is cancelled it returns rather than blocks, and the context handed to the start function is cancelled when the runner starts dying or (on the first start) when the caller's context is.",
 ["schedules","histories"],"every interleaving of StartWorker with other calls, worker exits and shutdown",
 "Tests call StartWorker from one goroutine in fixed phases.",
 [R],[("synchronous request/reply","Runner.StartWorker"),("duplicate check","Runner.startWorker")],
 [],["Runner.StartWorker","Runner.WorkerNames","start function context"])
prop("C08","Runner: Worker lookup contract",
 "Worker(id) returns a worker that was started under id and is current (never nil without error, never one that has already been replaced or was reported finished), waiting if the id is known but no worker is available; NotFound is returned only for an id that is not known, ErrAborted only after abort fired, ErrDead only when the runner is stopping. The call never hangs once the worker becomes available, is removed, abort fires or the runner is killed, and once it has returned because of an abort nothing of it is left behind.",
 ["schedules","histories"],"every interleaving of lookups with starts, exits, removals, aborts and shutdown, several concurrent lookups",
 "Lost wake-ups and stale results need the lookup to race with a change of the worker; tests exercise a few fixed orders.",
 [R],[("condition-variable wait","Runner.workerInfo"),("broadcast after each change","Runner.run"),("worker cleared on kill","Runner.killWorkerLocked")],
 [("worker","current instance","workerInfo.worker")],["Runner.Worker"])
prop("C09","Runner: StopAndRemoveWorker contract",
 "When StopAndRemoveWorker(id) returns without ErrAborted, ErrDead or NotFound, the worker has been killed and has finished, its error is the value returned, and the id is no longer known until started anew. It returns ErrAborted if abort fires first, NotFound for an unknown id, ErrDead when the runner is stopping, and without abort it always returns once the worker stops - for every exit error of the worker and also when several callers remove the same worker.",
 ["schedules","histories","fault_sequences"],"every exit error, every interleaving with other removals, restarts and shutdown",
 "Tests use a single caller and a worker whose error is nil or fatal.",
 [R],[("stop then wait for removal","Runner.StopAndRemoveWorker"),("removal notification","Runner.removeWorker")],
 [("done","removal notification","workerInfo.done")],["Runner.StopAndRemoveWorker"])
prop("C10","Runner: Report and WorkerNames tell the truth",
 "At every moment WorkerNames lists exactly the ids the runner knows, and Report has exactly one entry per known id whose state is \"started\" only while a worker of that id is registered and has not been told to stop (by Kill or StopWorker), with that worker's own non-empty report and the time when this instance was started included. Both return promptly in every phase including after shutdown.",
 ["schedules","histories"],"every phase of every worker in which the call may be made",
 "Reports are only asserted for settled workers.",
 [R],[("report under lock","Runner.Report"),("names under lock","Runner.WorkerNames")],
 [],["Runner.Report","Runner.WorkerNames"])
prop("C11","Dependency graph: exactly the acyclic graphs are accepted",
 "Validate returns nil for a set of manifolds if and only if the graph of their declared inputs has no cycle (a manifold naming itself is a cycle; names of manifolds that are not present are allowed), whatever the order in which it walks the graph. An Engine refuses an Install if and only if it would close a cycle with the manifolds already installed, so the installed graph is always acyclic.",
 ["inputs","histories"],"every directed graph within the bound, every iteration order, every install order",
 "Tests use three or four hand-written graphs.",
 [U,E],[("topological check","Validate/validator.visit"),("check on install","Engine.checkAcyclic")],
 [],["Validate","Engine.Install"])
prop("C12","Engine: at most one live worker per manifold",
 "For each installed manifold an Engine never has two workers alive at once: its start function is called only when no earlier start call for that name is in progress and every worker from earlier calls has finished. This holds across bounces, error restarts, uninstall followed by re-install, and shutdown.",
 ["schedules","histories","fault_sequences"],"every interleaving of starts, exits, bounces and installs",
 "Overlap would need a bounce to race with an exit or an uninstall; tests wait for each event before the next.",
 [E],[("stopped precondition","Engine.requestStart"),("state kept until stopped ticket","Engine.gotStopped")],
 [("current","per-manifold worker state","Engine.current")],["start function calls","Worker.Wait returns"])
prop("C13","Engine: shutdown completes and leaves nothing running",
 "After Kill or a fatal error every worker of the engine - running, starting or still in its start delay - is killed or its pending start abandoned without waiting for the delay, and Wait returns once they have finished; when Wait returns no worker is alive, no start call is in progress none is made afterwards, and no goroutine of the engine is left behind. This also holds for an engine that runs itself as one of its manifolds.",
 ["schedules","histories","fault_sequences"],"every interleaving of shutdown with starting, running, stopping and delayed workers",
 "Tests shut down settled engines; the hard cases are starts and stops in flight.",
 [E],[("one-shot dying stop of all","Engine.loop"),("exit only when all others stopped","Engine.allOthersStopped"),("late start killed","Engine.gotStarted/runWorker")],
 [],["Engine.Wait","Worker.Kill","start function calls"])
prop("C14","Engine: dependents always converge on current inputs",
 "Whenever the engine has settled, every installed manifold's most recent start attempt was given exactly the workers currently running for its declared inputs: a running worker never keeps using an input worker that has stopped or been replaced, and a manifold that could not start is retried whenever one of its inputs starts or stops. When an input changes while a dependent is running or starting, the dependent is stopped (killed) and started again.",
 ["schedules","histories","fault_sequences"],"every interleaving of input changes with dependents' starts and stops, every small graph shape",
 "Whether a change reaches a dependent depends on which phase the dependent is in when it happens; tests cover running and missing only.",
 [E],[("bounce on start and stop","Engine.bounceDependents"),("snapshot at start request","Engine.snapshot"),("restart after requested stop","Engine.gotStopped")],
 [("dependents","reverse dependency map","Engine.dependents")],["Getter.Get results","Worker.Kill"])
prop("C15","Engine: worker exits are interpreted as documented",
 "After the manifold's Filter, and unless the engine is stopping or told that worker to stop, an exit or start failure with nil or ErrMissing is not followed by another start until an input changes, ErrBounce leads to a restart after the bounce delay, ErrUninstall removes the manifold for good, and any other non-fatal error leads to a restart after the error delay. A worker the engine itself stopped because an input changed is always started again, whatever (non-fatal) error it returned; wrapped forms of these errors count as the same error.",
 ["schedules","histories","fault_sequences"],"every exit error, wrapped or not, from start function or worker, in every phase",
 "Tests check each error once from a settled state.",
 [E],[("error interpretation","Engine.gotStopped"),("uninstall","Engine.uninstall")],
 [],["start function calls","Clock.After argument","Engine.Report"])
prop("C16","Engine: restart delays respect base, back-off and cap",
 "The delay before a restart is the configured error (or bounce) delay, multiplied by BackoffFactor once for each further consecutive recent failure, capped at MaxDelay when MaxDelay is positive, and then varied by at most 10% (and rounded to a millisecond); it is never negative and the first start of a manifold is not delayed. A failure counts as consecutive unless the worker had been running for at least BackoffResetTime.",
 ["inputs","configurations","histories"],"every valid configuration of delays, factor, cap, reset time, every clock reading and every random fuzz value within the bounds",
 "Tests use two configurations and cannot control the random factor; rounding, overflow and boundary cases are rare values.",
 [E],[("delay computation","Engine.requestStart"),("failure counting","Engine.gotStopped")],
 [("recentErrors","consecutive failure count","workerInfo.recentErrors")],["Clock.After argument"])
prop("C17","Engine: fatal errors stop it and the worst one is reported",
 "If and only if a worker's (filtered) exit or start error satisfies IsFatal, the engine shuts down by itself; Wait then returns the configured Filter applied to the result of combining the fatal errors seen with WorstError, so a ranking WorstError yields the highest-ranked one. Without a fatal error Wait returns Filter's view of nil (nil when no Filter is set) after Kill.",
 ["schedules","histories","fault_sequences"],"every order of fatal and non-fatal exits, also while shutting down",
 "Tests produce two fatal errors in one order.",
 [E],[("worst error tracking","Engine.gotStopped"),("filtered result","Engine.Wait")],
 [("worstError","worst fatal error","Engine.worstError")],["Engine.Wait"])
prop("C18","Engine: resource lookup contract",
 "During a start call Get(name, out) returns ErrMissing if name is not among the declared inputs or that input has no running worker; otherwise nil when out is nil, ErrMissing when the input has no Output func, and otherwise exactly the result of that Output func called once with the input's worker and out. After the start call has returned, Get always fails (with an error that is not ErrMissing) and reaches no Output func.",
 ["inputs","schedules","histories"],"every combination of declared, running, exposed, out given, and every time of the call",
 "Tests take each branch once with fixed names.",
 [S,E],[("raw access","snapshot.rawAccess"),("expiry","snapshot.Get/expire"),("capture of inputs","Engine.snapshot")],
 [],["Getter.Get"])
prop("C19","Engine: Install contract",
 "Install of a fresh name on a live engine returns nil and its start function gets called; a name that is installed is refused and leaves the existing manifold untouched, as does an install that would form a cycle; once the engine is dead Install returns an error without starting anything. A manifold removed through ErrUninstall can be installed again, and its old incarnation is never started again.",
 ["schedules","histories"],"every order of installs, uninstalls and shutdown",
 "Tests install in one order in a settled engine.",
 [E,U],[("install handling","Engine.gotInstall"),("uninstall","Engine.uninstall"),("install helper","Install")],
 [],["Engine.Install","start function calls"])
prop("C20","Engine: Report and metrics are accurate and always available",
 "Report returns promptly in every phase, including while stopping and after death, and shows exactly the installed manifolds: state \"started\" only while the manifold has a registered worker, the manifold's inputs, the number of successful starts, the time when a running worker was started, and the error of the last exit when not restarted since; the engine's own state is started, stopping or stopped accordingly. The metrics recorder is notified exactly once per registered start with that manifold's name.",
 ["schedules","histories","fault_sequences"],"every phase in which a report may be requested",
 "Tests report on settled engines only.",
 [E],[("live report","Engine.liveReport/manifoldsReport"),("report after death","Engine.Report"),("start recording","Engine.gotStarted")],
 [],["Engine.Report","Metrics.RecordStart"])
prop("C21","Configurations are validated exactly",
 "NewEngine succeeds if and only if IsFatal, WorstError, Clock, Metrics and Logger are given, all four durations are non-negative, and BackoffFactor is zero or at least one; NewRunner succeeds if and only if a name is given; a rejected configuration starts nothing.",
 ["inputs","configurations"],"every value of every field (64-bit integers, floating point incl. special values)",
 "Tests try one bad value per field.",
 [E,R],[("engine validation","EngineConfig.Validate"),("runner validation","RunnerParams.Validate")],
 [],["NewEngine","NewRunner"])
prop("C22","Engine: start contexts and pending starts are cancelled",
 "The context given to a start call is cancelled as soon as the engine decides to stop that worker because an input changed, or starts shutting down, and is not cancelled before either happens. A start that is still waiting for its delay is abandoned at that point without the delay elapsing and without calling the start function, and is rescheduled if the cause was an input change.",
 ["schedules","histories"],"every interleaving of cancellation with delay, start call and registration",
 "Two tests cancel at one fixed point each.",
 [E],[("scoped context","Engine.scopedContext"),("cancel on stop","Engine.requestStop"),("abort of delayed start","Engine.runWorker")],
 [],["context passed to start","Clock.After"])
prop("C23","Catacomb: owns every worker it is given",
 "Every worker handed to Invoke or Add - whether or not the call succeeds, before, during or after shutdown - is killed once the catacomb is dying (or the call fails), and the catacomb is not dead (Wait does not return) until every worker it accepted and its work func have finished; a worker whose Invoke or Add failed has finished by the time that call returns. Before the catacomb is dying it kills no worker it accepted.",
 ["schedules","histories","fault_sequences"],"every interleaving of Add with Kill, work exit and worker exits",
 "The race of Add against dying has many interleavings; stress tests sample a few.",
 [C],[("add goroutines","Catacomb.add"),("listen loop accounted in wait group","Invoke"),("stop on refusal","Catacomb.Add/stopWorkers")],
 [("wg","outstanding goroutines","Catacomb.wg")],["Worker.Kill","Worker.Wait","Catacomb.Wait"])
prop("C24","Catacomb: error reporting",
 "Wait returns the first non-nil error with which the catacomb was killed - by Kill, by the work func's result or by an accepted worker's error - and nil if there was none; nil kills, late errors, and this catacomb's own ErrDying (also wrapped) never replace the recorded reason. tomb.ErrDying and another catacomb's ErrDying are turned into an error complaining about misuse, never a panic; a worker finishing without error leaves the catacomb running; ErrDying itself reports misuse while the catacomb is alive.",
 ["schedules","histories","inputs"],"every order and combination of kill reasons",
 "Tests try each pair of kills in one order.",
 [C],[("error mapping","Catacomb.Kill"),("dying error","Catacomb.ErrDying"),("worker error propagation","Catacomb.add")],
 [],["Catacomb.Wait","Catacomb.Err","Catacomb.Kill"])
prop("C25","Catacomb: Invoke is all or nothing and single use",
 "Invoke succeeds at most once per catacomb, also under concurrent calls, and only for a plan with name, site, work and no nil initial worker; when it fails it runs no work func, leaves an already running catacomb undisturbed, and has stopped all non-nil initial workers of the failed plan. A successful Invoke runs the work func exactly once.",
 ["schedules","inputs"],"every combination of plan defects, concurrent Invokes",
 "Concurrent Invokes are not tested; plan defects are tested one at a time.",
 [C],[("compare-and-swap guard","Invoke"),("plan validation","Plan.Validate"),("cleanup on failure","Invoke/stopWorkers")],
 [("dirty","catacomb used","Catacomb.dirty")],["Invoke","Worker.Kill"])
prop("C26","Catacomb: a panic in the work func is contained",
 "If the work func panics, the panic does not escape: the catacomb dies with an error that carries the panic value's text, identifies itself as a panic and has a stack trace, all its workers are stopped, and Wait returns that error (unless an earlier reason was recorded). A work func that does not panic has its error passed on unchanged.",
 ["schedules","fault_sequences"],"a panic (any value) at any point of the work func, concurrent with any other kill or worker exit",
 "One test panics once without workers.",
 [C],[("recover wrapper","runSafely"),("error type","errWithStackTrace")],
 [],["Catacomb.Wait"])
prop("C27","Catacomb: shutdown completes without leaking goroutines",
 "Once dying, the catacomb becomes dead as soon as its work func has returned and its workers have finished; Dying is closed first and contexts derived from the catacomb are cancelled when it starts dying. When it is dead, no goroutine it started is left, and a worker that finishes by itself while the catacomb lives leaves no goroutine behind.",
 ["schedules","histories"],"every order of work return, worker exits, adds and kills",
 "Leaked goroutines and hangs depend on which of two watchers exits first.",
 [C],[("paired goroutines exit together","Catacomb.add"),("wait group before dead","Invoke")],
 [],["Catacomb.Dead","goroutines"])
prop("C28","Stop and Dead helpers",
 "Stop kills the worker, then waits, and returns exactly the error its Wait returns. Dead returns the worker's own Dead channel when it has a non-nil one; otherwise a channel that is closed once the worker's Wait has returned and not before, without killing the worker.",
 ["schedules","inputs"],"every worker behaviour and timing",
 "Tests use sleeps to argue that the channel is not closed too early.",
 ["worker.go"],[("helpers","Stop/Dead")],[],["Stop","Dead"])
prop("C29","Test-double workers behave as documented",
 "A worker from NewErrorWorker runs until killed and then finishes with exactly the given error; one from NewDeadWorker is always finished with its error; a ForeverWorker ignores Kill and finishes with its error only after ReallyKill; a fake watcher accepts as many unread changes as its capacity, delivers exactly those preloaded or pinged, and runs until killed.",
 ["schedules","inputs"],"every order of Kill, Wait and Ping calls, any error",
 "Tests use them as tools and check only a few outcomes.",
 ["workertest/workers.go","workertest/fake_watcher.go"],[("tomb-backed doubles","workertest")],[],["Wait"])
prop("C30","Goroutine safety: no data races in the public API",
 "No interleaving of the goroutine-safe methods of Runner, Engine and Catacomb, with each other and with the goroutines these types start, makes two goroutines touch the same memory of the library without synchronisation when at least one of them writes.",
 ["schedules"],"every pair of unsynchronised accesses reachable in the explored scenarios",
 "The race detector only sees races on schedules that tests happen to run.",
 [R,E,C,S],[("mutex around worker table","Runner.mu"),("single owner loop","Engine.loop"),("atomics and tomb","Catacomb")],[],["memory accesses of library code"])
prop("C31","StubGetter converts outputs as documented",
 "The testing Getter returns the configured error for a resource, succeeds when no output is wanted, and otherwise stores the first configured output convertible to the wanted type (a nil output fits no type), failing without storing anything if there is none or the name is unknown.",
 ["inputs"],"every set of resources and output types",
 "There are no tests for this package.",
 ["dependency/testing/stub.go"],[("reflection-based conversion","Getter.Get")],[],["Getter.Get"])
prop("C32","Gocheck helpers time out as documented",
 "CheckAlive, CheckKilled, CheckKill, CleanKill, DirtyKill and CheckNilOrKill fail the test exactly when the worker is dead too early, does not stop within the timeout, or fails unexpectedly. Once the worker has finished they leave nothing behind.",
 ["inputs","schedules"],"every worker behaviour",
 "Tests use real time-outs.",
 ["workertest/check.go"],[("helpers","workertest/check.go")],[],["gocheck C"])
prop("C33","Install and SelfManifold helpers",
 "The Install function installs every manifold it is given, under its name and once each, and returns nil; when the Installer refuses one it returns that error and installs no more. The manifold made by SelfManifold runs the engine itself; its Output stores that engine into an *Installer or a *Reporter, and fails without writing anything for any other target or any worker but that engine.",
 ["inputs","schedules"],"every set of manifolds, every refusal, every order of walking them; every kind of target",
 "Tests use one manifold set and a few targets; the order in which manifolds are installed is random.",
 ["dependency/util.go"],[("helpers","Install, SelfManifold")],[],["Installer.Install calls","Output"])
prop("C34","Runner, Engine and Catacomb honour the worker contract and nest",
 "Kill on a Runner, an Engine or a worker made with a Catacomb returns without waiting, may be repeated and comes to nothing once the worker is finished; Wait may be called any number of times from any goroutines and returns each time, with the same error. Once it is finished none of its goroutines is left. These types may own one another to any depth: an owner finishes only after all it owns, and with the error of the nested worker that stopped it, or nil.",
 ["schedules","histories"],"every order of Kill and Wait calls and of worker exits, every error",
 "Tests exercise each type by itself, with one waiter.",
 [R,E,C,"worker.go"],[("tombs","Runner.tomb, Engine.tomb, Catacomb.tomb")],[],["Kill","Wait","goroutines"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P),"properties", [ (p['id'],len(p['title'])) for p in P if len(p['title'])>80])
