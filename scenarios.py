"""Which scenarios (harness functions) decide which property, and how far."""


class S:
    def __init__(self, name, doc, cost=1, tier="quick", flags=(), quick_secs=420, thorough_secs=3000, thorough_flags=None):
        self.pkg, self.fn = name.split(".")
        self.key = name.replace(".", "-")
        self.doc, self.cost, self.tier = doc, cost, tier
        self._flags, self._tflags = list(flags), thorough_flags
        self._q, self._t = quick_secs, thorough_secs

    def secs(self, tier):
        return self._t if tier == "thorough" else self._q

    def flags(self, tier):
        if tier == "thorough" and self._tflags is not None:
            return list(self._tflags)
        return list(self._flags)


ALL = {}


def add(props, *a, **k):
    s = S(*a, **k)
    for p in props.split():
        ALL.setdefault(p, []).append(s)


# ---- Runner ----
add("C01 C02 C03 C04 C06", "runner.One", "one worker, starts fail or it exits with any kind of error, up to 3 starts, Kill at any moment")
add("C01 C02 C03 C04 C06", "runner.One3", "as One with up to 5 starts", cost=2)
add("C01 C02 C03 C06", "runner.Two", "two workers with symbolic exits, Kill at any moment", cost=5)
add("C01 C02 C03 C06", "runner.TwoBig", "two workers, up to 3 starts each, all kinds of exits", cost=100, tier="thorough")
add("C01 C02 C03 C05 C07", "runner.Reuse", "stop and re-start under the same id at any moment, with Kill", cost=20)
add("C04 C10 C07", "runner.Restart", "repeated failures with a symbolic RestartDelay, judged when quiet")
add("C04 C10", "runner.RestartTwo", "a bystander is not affected by ends of another worker")
add("C04", "runner.RestartDefault", "default ShouldRestart and RestartDelay")
add("C03 C04 C10", "runner.NoTimer", "a clock that fires only when told to; Kill during the delay")
add("C03", "runner.NoTimerKill", "a clock that never fires; Kill at any moment")
add("C03", "runner.FatalDelay", "fatal error during another worker's restart delay")
add("C03 C07", "runner.FatalStart", "fatal error while a start waits for its context")
add("C03 C07", "runner.KillStart", "start waits for its context; Kill or cancellation")
add("C07 C03", "runner.RestartCtx", "context of a restarted worker")
add("C05 C10", "runner.Stop", "StopWorker at any moment, re-use of the id")
add("C05 C03", "runner.StopDelay", "StopWorker during a restart delay")
add("C05", "runner.StopOther", "StopWorker does not touch other workers")
add("C06", "runner.ErrRank", "two workers, ranking MoreImportant, any exit errors in any order", cost=15)
add("C06", "runner.ErrStart", "fatal start failures and exits")
add("C06", "runner.ErrStop", "two workers, any exit errors, one of them stopped or removed", cost=10)
add("C06", "runner.ErrFirst", "MoreImportant unset: first fatal error")
add("C06", "runner.ErrAll", "IsFatal unset")
add("C04 C06 C10", "runner.Policy", "IsFatal and ShouldRestart are arbitrary predicates, judged when quiet")
add("C01 C02 C03 C04 C06", "runner.PolicyKill", "arbitrary predicates, Kill at any moment")
add("C04 C06", "runner.PolicyTwo", "two workers under arbitrary predicates", cost=5)
add("C08 C03", "runner.Lookup", "Worker at any moment of start, failure, restart, Kill", cost=8)
add("C08 C03", "runner.LookupAbort", "a waiting Worker call and what ends it")
add("C08 C03", "runner.LookupStarting", "two Worker calls during the first start")
add("C09 C03", "runner.Remove", "StopAndRemoveWorker for every exit error")
add("C09 C03", "runner.Remove2", "two concurrent StopAndRemoveWorker calls")
add("C09 C03", "runner.RemoveKill", "StopAndRemoveWorker against Kill")
add("C09 C03", "runner.RemoveAbort", "StopAndRemoveWorker of a worker that does not stop, aborted")
add("C07 C01", "runner.StartTwice", "two concurrent StartWorker calls for one id")
add("C07", "runner.StartKnown", "StartWorker for an id in every phase of its worker")
add("C07 C02 C03 C05 C08 C09 C10", "runner.StartDead", "StartWorker against Kill and fatal errors; all calls after death", cost=15)
add("C07", "runner.StartCancel", "caller's context cancelled while the runner is busy")
add("C07 C03", "runner.StartCancelAny", "caller's context cancelled at any moment of the call")
add("C08", "runner.LookupTwo", "Worker calls while another worker runs")
add("C10 C03", "runner.Observe", "Report and WorkerNames at any moment, with restarts and Kill")
add("C10", "runner.ObserveStop", "Report and WorkerNames around StopWorker")
add("C10", "runner.ObserveQuiet", "Report and WorkerNames when quiet")
add("C10", "runner.LastStart", "the start time in Report, with restarts")
add("C03", "runner.API", "any call of the interface against failures and Kill", cost=20)
add("C03", "runner.Goexit", "runtime.Goexit in a start function")

add("C03 C02 C01", "runner.APITwo", "any two calls of the interface at once, and Kill", cost=80, flags=["-strictints", "-nomergeerrs"])
add("C03 C02 C01", "runner.APITwoEnds", "any two calls of the interface at once, a worker that ends, and Kill", cost=200, tier="thorough", flags=["-strictints", "-nomergeerrs"])

# ---- Catacomb ----
add("C23 C24 C25 C26 C27", "cat.ShutdownInit", "a plan with an initial worker; work func, worker and Kill with any result in any order", cost=4)
add("C23 C24 C25 C27", "cat.ShutdownAdd", "a worker added by the work func; any results in any order", cost=4)
add("C23 C24 C27", "cat.Shutdown", "an initial and an added worker, any results in any order", cost=100, tier="thorough", flags=["-strictints", "-nomergeerrs"])
add("C24", "cat.Reasons", "several Kill calls with any kinds of reasons")
add("C24 C27", "cat.LateKill", "Kill after death")
add("C23 C24 C27", "cat.WorkerErr", "an accepted worker ends by itself, with or without error")
add("C23 C27", "cat.Slow", "work func and worker that take their time to stop")
add("C27 C25", "cat.Context", "contexts derived from the catacomb, before and after death")
add("C26 C23 C27", "cat.Panic", "the work func panics, with other reasons around")
add("C26", "cat.PanicValues", "panics with values of different types")
add("C26", "cat.NoPanic", "the work func does not panic")
add("C25 C27 C23", "cat.InvokeTwice", "two concurrent Invoke calls")
add("C25 C23", "cat.InvokeInvalid", "plans with any subset of their parts missing")
add("C25 C27 C23", "cat.Reinvoke", "Invoke again on a running or dead catacomb")
add("C23 C25 C27", "cat.KillFirst", "Kill before Invoke")
add("C23 C27", "cat.AddDead", "Add once dead")
add("C23 C27", "cat.AddTwo", "two concurrent Add calls against Kill", cost=10)
add("C23 C27", "cat.AddTwoBig", "two concurrent Add calls, any work func, against Kill", cost=60, tier="thorough", flags=["-strictints", "-nomergeerrs"])

add("C23 C24 C27", "cat.API", "any call of the interface, a worker that may fail, and Kill", cost=15, flags=["-strictints", "-nomergeerrs"])
add("C23 C24 C27", "cat.APITwo", "any two calls of the interface at once, and Kill", cost=8, flags=["-strictints", "-nomergeerrs"])

# ---- helpers and configurations ----
add("C28", "misc.Stop", "Stop for any worker")
add("C28", "misc.Dead", "Dead for workers without a usable Dead channel")
add("C28", "misc.DeadOwn", "Dead for a worker with a Dead channel")
add("C29", "misc.ErrorWorker", "NewErrorWorker: kills and waits in any order")
add("C29", "misc.DeadWorker", "NewDeadWorker")
add("C29", "misc.ForeverWorker", "NewForeverWorker")
add("C29", "misc.FakeWatcher", "NewFakeWatcher: any capacity up to 3, preload, pings")
add("C29", "misc.FakeWatcherPanic", "NewFakeWatcher: preload above capacity")
add("C32", "misc.CheckAlive", "CheckAlive: the worker may finish and the delay may elapse at any moment")
add("C32", "misc.CheckAliveDead", "CheckAlive: the worker finishes in time")
add("C32", "misc.CheckKilled", "CheckKilled: the worker may finish and the timeout may elapse at any moment")
add("C32", "misc.CheckKilledOff", "CheckKilled: the worker finishes in time")
add("C32", "misc.CheckKill", "CheckKill of a worker that may ignore Kill or finish by itself")
add("C32", "misc.CleanKill", "CleanKill, likewise")
add("C32", "misc.DirtyKill", "DirtyKill, likewise")
add("C32", "misc.CheckNilOrKill", "CheckNilOrKill for nil and other workers")
add("C32", "misc.CheckTwice", "two helpers at once with one C")
add("C32", "misc.CheckLeft", "helpers that give up on a worker that finishes later")
add("C31", "misc.StubOutputs", "up to two outputs of nine kinds of type, any integers, nine kinds of target", flags=["-witness", "20"])
add("C31", "misc.StubRaw", "resources given as values, errors or lists", flags=["-witness", "20"])
add("C31", "misc.StubMisuse", "unknown names, targets that are no pointers", flags=["-witness", "20"])
# ---- the contract that Runner, Engine and Catacomb share, and how they nest ----
add("C34", "comp.RunnerContract", "a runner with two workers that may fail; Kill and Wait from several goroutines", cost=10)
add("C34", "comp.EngineContract", "an engine with two manifolds that may fail, with or without a Filter, likewise", cost=25)
add("C34", "comp.CatacombContract", "a catacomb with a worker that may fail, likewise", cost=5)
add("C34", "comp.RunnerInCatacomb", "a catacomb owns a runner of a worker", cost=5)
add("C34", "comp.CatacombInEngine", "an engine runs a catacomb that owns a worker", cost=5)
add("C34", "comp.EngineInRunner", "a runner runs an engine that runs a worker", cost=5)
add("C33", "misc.InstallAll", "any set of up to three manifolds, any of them refused, walked in any order", flags=["-maporders"])
add("C33", "misc.SelfOutput", "an engine's own manifold: four kinds of worker, eight of target")
add("C21", "misc.EngineConfig", "any parts missing, any 64-bit durations, any float64 factor")
add("C21", "misc.RunnerConfig", "any parts missing, any delay")

# ---- dependency.Engine ----
# error values and integers are kept apart when states are merged: the
# schedules of the engine make its states differ in control, not in data
DEP = ["-strictints", "-nomergeerrs", "-depth", "400"]


def dep(props, fn, doc, flags=(), **k):
    add(props, "dep." + fn, doc, flags=DEP + list(flags), **k)


dep("C11", "Validate", "every graph of three manifolds, walked in any order", cost=3, flags=["-maporders"])
dep("C11", "ValidateOrder", "three manifolds with at most one input each, walked in any order", flags=["-maporders"])
dep("C11", "Validate4", "four manifolds: one with any inputs, three with at most one")
dep("C11", "ValidateAll4", "every graph of four manifolds of which at most one needs itself", cost=2)
dep("C11", "InstallGraph", "three installs with any inputs, one after the other", cost=2)
dep("C12 C13 C15 C17 C20", "One", "one manifold, all kinds of ends, Kill at any moment", cost=2)
dep("C15 C17 C19 C20", "OneQuiet", "one manifold, all kinds of ends (also wrapped), judged when quiet")
dep("C12 C13 C14 C20 C22", "ChainQuiet", "b needs a, both may end once, judged when quiet, then Kill", cost=20)
dep("C12 C13 C14", "Chain", "b needs a, both may end once, Kill at any moment", cost=170, tier="thorough")
dep("C14 C12", "StepsChain", "c needs b needs a, d on its own; any one ends with any error", cost=15)
dep("C14 C15 C12", "StepsPair", "b needs a; any two ends in a row", cost=8)
dep("C14 C15 C17", "StepsTwice", "b names its input a twice; any two ends in a row", cost=10)
dep("C14", "StepsDiamond", "c needs a and b, b needs a; any one ends", cost=40)
dep("C15 C14 C12", "Killed", "a dependent that is told to stop ends with any error", cost=10)
dep("C22 C15 C13", "KilledStart", "a start that is told to stop returns any error, or a worker", cost=3)
dep("C22 C13", "CtxKill", "Kill or a fatal error during a start that waits for its context", cost=2)
dep("C22 C14 C16", "PendingBounce", "an input changes during the dependent's restart delay", cost=2)
dep("C13 C15 C16 C22", "KillDelay", "Kill during a restart delay that never elapses")
dep("C13 C22 C17", "FatalDelay", "fatal error during another manifold's restart delay and a third one's start", cost=2)
dep("C16", "Backoff", "three failures in a row, any run times and fuzz")
dep("C16", "BackoffCap", "three failures in a row with MaxDelay")
dep("C16", "BackoffOdd", "unusual delays, factors and caps")
dep("C16", "BackoffHuge", "back-off beyond the range of a Duration", cost=10)
dep("C16", "BackoffMax", "the largest delays and caps", cost=20)
dep("C16", "BackoffNone", "the largest delay, without back-off", cost=10)
dep("C16", "DelayBounce", "the delay of a restart because an input changed", cost=2)
dep("C16", "DelayKind", "the base delay after errors and after ErrBounce", cost=2)
dep("C20", "ReportStart", "the start time in Report, with restarts")
dep("C16", "DelayNil", "failures after a successful end", cost=5)
dep("C16", "BackoffMany", "five failures in a row", cost=60, tier="thorough")
dep("C16", "DelayBase", "symbolic base delays", cost=100, tier="thorough")
dep("C13", "Self", "the engine is one of its own manifolds")
dep("C13 C19 C18", "SelfUse", "a manifold installs another one through the self manifold")
dep("C13", "Hold", "a worker that ignores Kill")
dep("C17 C13", "Fatal", "two manifolds with fatal and other ends, with and without Filter, with and without Kill", cost=5)
dep("C17 C15", "FatalFiltered", "the manifold's Filter decides", cost=2)
dep("C18", "Get", "declared, running, exposed, wanted or not, during and after the start")
dep("C18 C20", "GetLate", "Get from another goroutine, around the end of the start")
dep("C19 C12 C13", "InstallTwice", "two concurrent installs of one name, with and without Kill, with a bystander", cost=10)
dep("C19 C20 C11", "InstallKnown", "Install of an installed name in any phase, and of a cycle", cost=4)
dep("C19 C20 C13", "InstallRefused", "a refused cycle, then its inputs change", cost=2)
dep("C19 C13", "InstallDead", "Install against Kill and fatal errors, and after death", cost=2)
dep("C19 C12 C14 C20", "Reinstall", "a manifold removes itself and is installed again, with inputs and a dependent", cost=60)
dep("C19 C12 C13", "ReinstallRace", "a manifold removes itself while it is installed again and its input ends", cost=3)
dep("C19", "InstallMany", "the Install helper", flags=["-maporders"])
dep("C20", "ReportQuiet", "Report when quiet, after any end, during starts, delays, shutdown and after death")
dep("C20 C14", "ReportBounce", "Report around a restart because an input changed")
dep("C20 C13", "ReportAny", "Report at any moment", cost=18)
dep("C13 C19", "APITwo", "any two calls of the interface at once, and Kill", cost=60)
dep("C13 C19", "APITwoEnds", "any two calls of the interface at once, a manifold that ends, and Kill", cost=210, tier="thorough")

# ---- data races: the same scenarios, with every access compared ----
# (the most expensive ones only in the thorough tier)
RACE_QUICK = """
runner: One Two Reuse Restart Stop ErrRank Lookup LookupTwo Remove Remove2 RemoveKill RemoveAbort StartTwice
 StartKnown StartDead StartCancelAny Observe ObserveStop API APITwo Policy PolicyTwo
cat: ShutdownInit ShutdownAdd Reasons LateKill WorkerErr Context Panic InvokeTwice Reinvoke KillFirst AddDead AddTwo API APITwo
dep: One OneQuiet ChainQuiet StepsPair StepsChain Killed KilledStart CtxKill PendingBounce FatalDelay SelfUse Fatal Get
 GetLate InstallTwice InstallKnown InstallDead InstallMany ReinstallRace ReportQuiet ReportBounce ReportAny APITwo
misc: Stop Dead ErrorWorker DeadWorker ForeverWorker FakeWatcher
"""
RACE_THOROUGH = """
runner: TwoBig APITwoEnds
cat: Slow InvokeInvalid
dep: StepsDiamond Reinstall APITwoEnds
"""


def races():
    for tier, l in (("quick", RACE_QUICK), ("thorough", RACE_THOROUGH)):
        pkg = None
        for w in l.split():
            if w.endswith(":"):
                pkg = w[:-1]
                continue
            base = next(s for ss in ALL.values() for s in ss if s.pkg == pkg and s.fn == w)
            add("C30", pkg + "." + w, base.doc, cost=3 * base.cost, tier=tier, flags=base.flags("quick") + ["-race", "-nopor"])


races()

TECH = {
    "C30": "bounded symbolic execution of the Go SSA over all schedules; conflicting accesses of co-enabled steps, decided by Z3, confirmed by the Go race detector on a replay of the schedule",
}

BOUNDS = {
    "schedules": "all interleavings of the scheduling points of the scenario, to quiescence (no context bound); scheduling points: channel operations, Lock, Cond.Wait (both halves), Broadcast, WaitGroup.Wait, Once, atomics, close, context cancellation and the harness's own gates",
    "threads": "the goroutines the scenario creates (2 to 4 clients) and all the code under test starts",
    "starts": "bounded number of worker instances per id that end by themselves, see scenarios",
    "outside": "more ids, more restarts and more concurrent clients than the scenarios have; code between two scheduling points is executed atomically (sound when C30 holds)",
}


def for_property(prop, tier):
    return [s for s in ALL.get(prop, []) if tier == "thorough" or s.tier == "quick"]
