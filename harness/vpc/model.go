package vpc

import (
	"context"
	"runtime"
	"time"

	gc "gopkg.in/check.v1"
)

func modelNewC() *gc.C { return &gc.C{} }

func modelAfter(d time.Duration) <-chan time.Time {
	c := make(chan time.Time, 1)
	delays = append(delays, d)
	if !timersOff {
		go func() {
			point()
			fired++
			c <- time.Time{}
		}()
	}
	return c
}

// A timer may still fire after it has been stopped: nobody listens.
func modelNewTimer(d time.Duration) *time.Timer { return &time.Timer{C: modelAfter(d)} }
func modelStop(t *time.Timer) bool              { return len(t.C) == 0 }

func modelWithTimeout(ctx context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	unsupported("context with a timeout")
	return nil, nil
}

func modelWithDeadline(ctx context.Context, d time.Time) (context.Context, context.CancelFunc) {
	unsupported("context with a deadline")
	return nil, nil
}

func modelFailed(c *gc.C) bool                        { return failed[c] }
func modelFail(c *gc.C)                               { failed[c] = true }
func modelLog(c *gc.C, args ...interface{})           {}
func modelLogf(c *gc.C, f string, a ...interface{})   {}
func modelError(c *gc.C, args ...interface{})         { failed[c] = true }
func modelErrorf(c *gc.C, f string, a ...interface{}) { failed[c] = true }
func modelSucceed(c *gc.C)                            { failed[c] = false }

func modelFailNow(c *gc.C) {
	failed[c] = true
	runtime.Goexit()
}

func modelFatal(c *gc.C, args ...interface{})         { modelFailNow(c) }
func modelFatalf(c *gc.C, f string, a ...interface{}) { modelFailNow(c) }

func modelAssert(c *gc.C, x interface{}, k gc.Checker, args ...interface{}) {
	if !modelCheck(c, x, k, args...) {
		runtime.Goexit()
	}
}

func modelCheck(c *gc.C, x interface{}, k gc.Checker, args ...interface{}) bool {
	ok := holds(x, k.Info().Name, args)
	if !ok {
		failed[c] = true
	}
	return ok
}

func holds(x interface{}, name string, args []interface{}) bool {
	switch name {
	case "IsNil":
		return isNil(x)
	case "NotNil":
		return !isNil(x)
	case "ErrorIsNil":
		return x == nil
	case "Equals":
		return x == args[0]
	case "IsTrue":
		return x == true
	case "IsFalse":
		return x == false
	}
	unsupported("gocheck checker " + name)
	return false
}

func point()                   {}
func isNil(x interface{}) bool { return false }
func unsupported(string)       {}
