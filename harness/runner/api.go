package runner

import (
	"context"

	"github.com/juju/worker/v4/zzverif/vp"
)

// APITwo: any two calls of the interface at once, on a runner with one worker
// that may end, with Kill.
func APITwo() { apiTwo(true, 0) }

// APITwoEnds is APITwo with a worker that ends, too.
func APITwoEnds() { apiTwo(true, 1) }

func apiTwo(kill bool, own int) {
	props("C03", "C02", "C01")
	e := &env{maxStarts: own, exitMask: eNil | eN | eF1}
	e.newRunner()
	s := e.begin("a")
	done := make(chan struct{}, 2)
	for i, call := range pair(vp.Pick("calls", 21)) {
		call, id := call, []string{"b", "c"}[i]
		go func() {
			vp.Gate()
			e.call(call, id, s)
			done <- struct{}{}
		}()
	}
	e.finish()
	<-done
	<-done
}

// pair is the n-th pair of calls {x, y} with x <= y.
func pair(n int) []int {
	i := 0
	for y := 0; y < 6; y++ {
		for x := 0; x <= y; x++ {
			if i == n {
				return []int{x, y}
			}
			i++
		}
	}
	panic("no such pair")
}

func (e *env) call(call int, id string, s *slot) {
	switch call {
	case 0:
		n := e.newSlot(id)
		e.r.StartWorker(context.Background(), id, n.start)
	case 1:
		e.stop(s)
	case 2:
		e.r.Worker("a", nil)
	case 3:
		e.r.StopAndRemoveWorker("a", nil)
	case 4:
		e.r.WorkerNames()
	case 5:
		e.r.Report()
	}
}
