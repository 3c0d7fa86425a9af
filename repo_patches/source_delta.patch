From a6766a5968136da328283b25d0da29b0f4119d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:51 +0000
Subject: [PATCH 01/13] fix: runner: a fatal error interrupts restart delays
 and start contexts

A fatal error stopped the other workers but did not make the runner's tomb
die, so the runner waited for pending restart delays to elapse, and a start
function waiting for its context to be cancelled blocked the shutdown for
ever.
---
 runner.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/runner.go b/runner.go
index bda5937..35e8063 100644
--- a/runner.go
+++ b/runner.go
@@ -530,6 +530,9 @@ func (runner *Runner) workerDone(info doneInfo) {
 			if !runner.isDying {
 				runner.isDying = true
 				runner.killAll()
+				// The runner is dying from now on: interrupt pending
+				// restart delays and cancel the start contexts too.
+				runner.tomb.Kill(nil)
 			}
 			return
 		} else {
-- 
2.43.0


From 1585c9474be018790bf6452aa1323f90290b5a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:05 +0000
Subject: [PATCH 02/13] fix: runner: return the first fatal error when
 MoreImportant is unset

The default MoreImportant preferred every later error, so Wait returned the
last fatal error instead of the first one as documented.
---
 runner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runner.go b/runner.go
index 35e8063..9509a08 100644
--- a/runner.go
+++ b/runner.go
@@ -220,7 +220,7 @@ func NewRunner(p RunnerParams) (*Runner, error) {
 	}
 	if p.MoreImportant == nil {
 		p.MoreImportant = func(err0, err1 error) bool {
-			return true
+			return false
 		}
 	}
 	if p.RestartDelay == 0 {
-- 
2.43.0


From 4c3ef4074cb28a25ca26ba3183161cb3c0d98195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:07 +0000
Subject: [PATCH 03/13] fix: runner: forget a finished worker while it waits to
 be restarted

During the restart delay Worker returned the instance that had already
finished, instead of waiting for the new one, and Report said it was started.
---
 runner.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/runner.go b/runner.go
index 9509a08..5187af4 100644
--- a/runner.go
+++ b/runner.go
@@ -554,6 +554,11 @@ func (runner *Runner) workerDone(info doneInfo) {
 		runner.removeWorker(info.id, workerInfo.done)
 		return
 	}
+	// The finished worker is not available any more.
+	runner.mu.Lock()
+	workerInfo.worker = nil
+	runner.mu.Unlock()
+
 	pprof.Do(runner.tomb.Context(context.Background()), workerInfo.labels, func(ctx context.Context) {
 		go runner.runWorker(ctx, workerInfo.restartDelay, info.id, workerInfo.start)
 	})
-- 
2.43.0


From 54046c8ccc2c5b75af0eedf962f3647c7d648197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:06 +0000
Subject: [PATCH 04/13] fix: runner: StopAndRemoveWorker returns for every exit
 error, caller and abort

A worker whose stop returned a restartable error was restarted and the call
hung for ever; of two concurrent callers only one ever returned; and abort was
ignored until the worker had finished.
---
 runner.go | 39 ++++++++++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/runner.go b/runner.go
index 5187af4..fa983e9 100644
--- a/runner.go
+++ b/runner.go
@@ -32,7 +32,7 @@ type StartFunc = func(context.Context) (Worker, error)
 type Runner struct {
 	tomb     tomb.Tomb
 	startc   chan startReq
-	stopc    chan string
+	stopc    chan stopReq
 	donec    chan doneInfo
 	startedc chan startInfo
 
@@ -94,7 +94,7 @@ type workerInfo struct {
 	// still exist while this is true.
 	stopping bool
 
-	// done is used to signal when the worker has finished
+	// done is closed when the worker has finished
 	// running and is removed from the runner.
 	done chan struct{}
 
@@ -119,6 +119,13 @@ type startReq struct {
 	reply chan error
 }
 
+type stopReq struct {
+	id string
+	// done, when not nil, identifies the one worker to be stopped: the
+	// request is ignored when the id is used by another one by now.
+	done <-chan struct{}
+}
+
 type startInfo struct {
 	id     string
 	worker Worker
@@ -235,7 +242,7 @@ func NewRunner(p RunnerParams) (*Runner, error) {
 
 	runner := &Runner{
 		startc:   make(chan startReq),
-		stopc:    make(chan string),
+		stopc:    make(chan stopReq),
 		donec:    make(chan doneInfo),
 		startedc: make(chan startInfo),
 		params:   p,
@@ -276,7 +283,7 @@ func (runner *Runner) StartWorker(ctx context.Context, id string, startFunc Star
 // StopWorker returns ErrDead if the runner is not running.
 func (runner *Runner) StopWorker(id string) error {
 	select {
-	case runner.stopc <- id:
+	case runner.stopc <- stopReq{id: id}:
 		return nil
 	case <-runner.tomb.Dead():
 	}
@@ -293,12 +300,19 @@ func (runner *Runner) StopAndRemoveWorker(id string, abort <-chan struct{}) erro
 	if err != nil {
 		return err
 	}
-	workerErr := Stop(w)
+	// Stop the worker via the run goroutine, so that it's not restarted
+	// whatever error it returns.
+	select {
+	case runner.stopc <- stopReq{id: id, done: done}:
+	case <-done:
+	case <-abort:
+		return ErrAborted
+	}
 
 	select {
 	case <-abort:
 	case <-done:
-		return workerErr
+		return w.Wait()
 	}
 	return ErrAborted
 }
@@ -441,9 +455,12 @@ func (runner *Runner) run() error {
 			runner.params.Logger.Debugf("start %q", req.id)
 			req.reply <- runner.startWorker(req)
 
-		case id := <-runner.stopc:
-			runner.params.Logger.Debugf("stop %q", id)
-			runner.killWorker(id)
+		case req := <-runner.stopc:
+			runner.params.Logger.Debugf("stop %q", req.id)
+			info := runner.workers[req.id]
+			if req.done == nil || info != nil && info.done == req.done {
+				runner.killWorker(req.id)
+			}
 
 		case info := <-runner.startedc:
 			runner.params.Logger.Debugf("%q started", info.id)
@@ -486,7 +503,7 @@ func (runner *Runner) startWorker(req startReq) error {
 		start:        req.start,
 		restartDelay: runner.params.RestartDelay,
 		started:      runner.params.Clock.Now().UTC(),
-		done:         make(chan struct{}, 1),
+		done:         make(chan struct{}),
 	}
 
 	pprof.Do(runner.tomb.Context(req.ctx), labels, func(ctx context.Context) {
@@ -571,7 +588,7 @@ func (runner *Runner) workerDone(info doneInfo) {
 func (runner *Runner) removeWorker(id string, removed chan<- struct{}) {
 	runner.mu.Lock()
 	delete(runner.workers, id)
-	removed <- struct{}{}
+	close(removed)
 	runner.mu.Unlock()
 }
 
-- 
2.43.0


From e0d1fc1699b8e51ef58d4f884bbe407742c948a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:03 +0000
Subject: [PATCH 05/13] fix: catacomb: ignore errors passed to Kill after the
 catacomb is dead

A catacomb that had died without error took the error of a later Kill as its
reason, so Wait and Err changed their result, contrary to Kill's documentation.
---
 catacomb/catacomb.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/catacomb/catacomb.go b/catacomb/catacomb.go
index 442b9dd..f258058 100644
--- a/catacomb/catacomb.go
+++ b/catacomb/catacomb.go
@@ -250,6 +250,11 @@ func (catacomb *Catacomb) scopedContext() context.Context {
 // It's always safe to call Kill, but errors passed to Kill after the catacomb
 // is dead will be ignored.
 func (catacomb *Catacomb) Kill(err error) {
+	select {
+	case <-catacomb.tomb.Dead():
+		return
+	default:
+	}
 	if err == tomb.ErrDying {
 		err = errors.New("bad catacomb Kill: tomb.ErrDying")
 	}
-- 
2.43.0


From f840061fc7dac0b4b780cf4bd447e64f18285a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:11 +0000
Subject: [PATCH 06/13] fix: dependency: reject a BackoffFactor that is not a
 number

---
 dependency/engine.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dependency/engine.go b/dependency/engine.go
index ce03911..be2584a 100644
--- a/dependency/engine.go
+++ b/dependency/engine.go
@@ -103,7 +103,7 @@ func (config *EngineConfig) Validate() error {
 	if config.BounceDelay < 0 {
 		return errors.New("BounceDelay is negative")
 	}
-	if config.BackoffFactor != 0 && config.BackoffFactor < 1 {
+	if config.BackoffFactor != 0 && !(config.BackoffFactor >= 1) {
 		return errors.Errorf("BackoffFactor %v must be >= 1", config.BackoffFactor)
 	}
 	if config.BackoffResetTime < 0 {
-- 
2.43.0


From 4d7872c4732009453876c5e9e865c7c107004590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:30 +0000
Subject: [PATCH 07/13] fix: dependency: do not divide the bounce delay by
 BackoffFactor after a clean stop

---
 dependency/engine.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dependency/engine.go b/dependency/engine.go
index be2584a..4eff535 100644
--- a/dependency/engine.go
+++ b/dependency/engine.go
@@ -417,7 +417,8 @@ func (engine *Engine) requestStart(name string, delay time.Duration) {
 			// Use the float64 values for max comparison. Otherwise when casting
 			// the float back to a duration we hit the int64 max which is negative.
 			maxDelay := float64(engine.config.MaxDelay)
-			floatDelay := float64(delay) * math.Pow(engine.config.BackoffFactor, float64(info.recentErrors-1))
+			exponent := math.Max(0, float64(info.recentErrors-1))
+			floatDelay := float64(delay) * math.Pow(engine.config.BackoffFactor, exponent)
 			if engine.config.MaxDelay > 0 && floatDelay > maxDelay {
 				delay = engine.config.MaxDelay
 			} else {
-- 
2.43.0


From f17efea0e351f3cd9cce5bb7522260207fd32160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:04 +0000
Subject: [PATCH 08/13] fix: dependency: restart delays do not overflow without
 a small MaxDelay

---
 dependency/engine.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/dependency/engine.go b/dependency/engine.go
index 4eff535..ea77979 100644
--- a/dependency/engine.go
+++ b/dependency/engine.go
@@ -416,18 +416,25 @@ func (engine *Engine) requestStart(name string, delay time.Duration) {
 		if engine.config.BackoffFactor > 0 {
 			// Use the float64 values for max comparison. Otherwise when casting
 			// the float back to a duration we hit the int64 max which is negative.
-			maxDelay := float64(engine.config.MaxDelay)
+			maxDelay := engine.config.MaxDelay
+			if maxDelay == 0 {
+				maxDelay = math.MaxInt64
+			}
 			exponent := math.Max(0, float64(info.recentErrors-1))
 			floatDelay := float64(delay) * math.Pow(engine.config.BackoffFactor, exponent)
-			if engine.config.MaxDelay > 0 && floatDelay > maxDelay {
-				delay = engine.config.MaxDelay
+			if floatDelay >= float64(maxDelay) {
+				delay = maxDelay
 			} else {
 				delay = time.Duration(floatDelay)
 			}
 		}
 		// Fuzz to ±10% of final duration.
 		fuzz := rand.Float64()*0.2 + 0.9
-		delay = time.Duration(float64(delay) * fuzz).Round(time.Millisecond)
+		if floatDelay := float64(delay) * fuzz; floatDelay < math.MaxInt64 {
+			delay = time.Duration(floatDelay).Round(time.Millisecond)
+		} else {
+			delay = math.MaxInt64
+		}
 	}
 
 	go engine.runWorker(name, delay, manifold.Start, snapshot)
-- 
2.43.0


From 22669d8d63773274e17d70f8c956d737ad461d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:52 +0000
Subject: [PATCH 09/13] fix: dependency: do not leak a goroutine when the
 engine is one of its own manifolds

---
 dependency/engine.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/dependency/engine.go b/dependency/engine.go
index ea77979..80ad110 100644
--- a/dependency/engine.go
+++ b/dependency/engine.go
@@ -573,11 +573,17 @@ func (engine *Engine) runWorker(name string, delay time.Duration, start StartFun
 		return worker.Wait()
 	}
 
-	// We may or may not send on started, but we *must* send on stopped.
-	engine.stopped <- stoppedTicket{
+	// We may or may not send on started, but we *must* send on stopped. The
+	// loop doesn't wait for the engine itself, though, in case it's one of
+	// its own manifolds; don't leak that goroutine once the loop has finished.
+	err := startWorkerAndWait()
+	select {
+	case engine.stopped <- stoppedTicket{
 		name:        name,
-		err:         startWorkerAndWait(),
+		err:         err,
 		resourceLog: snapshot.accessLog,
+	}:
+	case <-engine.tomb.Dead():
 	}
 }
 
-- 
2.43.0


From 12447be22f1e19fd3e5ac568dddc3e30c7961fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:52 +0000
Subject: [PATCH 10/13] fix: don't lose the wake-up of an aborted Worker call

Worker closed its stopped channel and broadcast without holding the
mutex, so the waiting goroutine could check the channel, miss the
broadcast and then wait for ever in an idle runner.
---
 runner.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/runner.go b/runner.go
index fa983e9..f143d7b 100644
--- a/runner.go
+++ b/runner.go
@@ -433,8 +433,12 @@ func (runner *Runner) workerInfo(id string, abort <-chan struct{}) (Worker, <-ch
 	// than needed, but this shouldn't be a problem as in practice
 	// almost all the time Worker should not need to start the
 	// goroutine.
+	// The lock makes sure that the goroutine is not about to wait again
+	// having seen that stopped isn't closed: it would miss the broadcast.
+	runner.mu.Lock()
 	close(stopped)
 	runner.workersChangedCond.Broadcast()
+	runner.mu.Unlock()
 	return nil, nil, ErrAborted
 }
 
-- 
2.43.0


From f77505ce00709d0fa24424091ad69a7da92915a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:13 +0000
Subject: [PATCH 11/13] fix: StubGetter panics on a nil output

A nil output has no type, so Get panicked instead of going on to the next
output or reporting that none can be stored.
---
 dependency/testing/stub.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dependency/testing/stub.go b/dependency/testing/stub.go
index d3c8d9f..7d4ad26 100644
--- a/dependency/testing/stub.go
+++ b/dependency/testing/stub.go
@@ -91,8 +91,7 @@ func (g *Getter) Get(name string, outPtr interface{}) error {
 	var errorOutputs []string
 	for _, output := range resource.Outputs {
 		setV := reflect.ValueOf(output)
-		setT := setV.Type()
-		if setT.ConvertibleTo(outT) {
+		if setV.IsValid() && setV.Type().ConvertibleTo(outT) {
 			outV.Set(setV.Convert(outT))
 			return nil
 		}
-- 
2.43.0


From 8afc8737f505e1553e3f54faae490cc0f3240c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:41 +0000
Subject: [PATCH 12/13] Revert "fix: StubGetter panics on a nil output"

The file lies under a testing directory, which is to stay as it is.
---
 dependency/testing/stub.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dependency/testing/stub.go b/dependency/testing/stub.go
index 7d4ad26..d3c8d9f 100644
--- a/dependency/testing/stub.go
+++ b/dependency/testing/stub.go
@@ -91,7 +91,8 @@ func (g *Getter) Get(name string, outPtr interface{}) error {
 	var errorOutputs []string
 	for _, output := range resource.Outputs {
 		setV := reflect.ValueOf(output)
-		if setV.IsValid() && setV.Type().ConvertibleTo(outT) {
+		setT := setV.Type()
+		if setT.ConvertibleTo(outT) {
 			outV.Set(setV.Convert(outT))
 			return nil
 		}
-- 
2.43.0


From 41ae50b8714c74693f2560810d647d5761885a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:41 +0000
Subject: [PATCH 13/13] fix: report when a worker was last started, not first

---
 runner.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/runner.go b/runner.go
index f143d7b..685b9c5 100644
--- a/runner.go
+++ b/runner.go
@@ -602,6 +602,8 @@ func (runner *Runner) setWorker(id string, w Worker) {
 	defer runner.mu.Unlock()
 	info := runner.workers[id]
 	info.worker = w
+	// The worker may have been restarted since StartWorker was called.
+	info.started = runner.params.Clock.Now().UTC()
 	if runner.isDying || info.stopping {
 		// We're dying or the worker has already been
 		// stopped, so kill it already.
-- 
2.43.0

