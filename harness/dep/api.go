package dep

import "github.com/juju/worker/v4/zzverif/vp"

// APITwo: any two calls of the interface at once, on an engine with one
// manifold, with Kill.
func APITwo() { apiTwo(0) }

// APITwoEnds is APITwo with a manifold that ends, too.
func APITwoEnds() { apiTwo(1) }

func apiTwo(own int) {
	props("C13", "C19")
	e := &env{}
	e.engine(e.config())
	a := e.mf("a")
	b := e.mf("b")
	c := e.mf("c")
	a.own, a.mask, a.failMask = own, eN|eF1|eUninstall, eMissing
	done := make(chan struct{}, 2)
	calls := vp.Pick("calls", 6)
	l := [][2]int{{0, 0}, {0, 1}, {0, 2}, {1, 1}, {1, 2}, {2, 2}}[calls]
	e.install(a)
	for i := 0; i < 2; i++ {
		call, m := l[i], []*mf{b, c}[i]
		go func() {
			vp.Gate()
			switch call {
			case 0:
				m.wanted = true
				e.install(m)
			case 1:
				e.e.Report()
			case 2:
				e.e.Wait()
			}
			done <- struct{}{}
		}()
	}
	e.finish()
	<-done
	<-done
}
