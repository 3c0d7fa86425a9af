package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// chanAlt is one channel alternative of a pending operation.
type chanAlt struct {
	send bool
	ch   ObjID
	val  Value
	idx  int // select case index, -1 for a plain operation
}

// pendChan returns the channel alternatives of g's pending channel operation.
func (ex *Exec) pendChan(g *Gor) (alts []chanAlt, hasDefault, isSel bool) {
	f := g.top()
	switch in := f.fi.fn.Blocks[f.block].Instrs[f.pc].(type) {
	case *ssa.Send:
		return []chanAlt{{true, ex.get(f, in.Chan).(ChanRef).O, ex.get(f, in.X), -1}}, false, false
	case *ssa.UnOp:
		return []chanAlt{{false, ex.get(f, in.X).(ChanRef).O, nil, -1}}, false, false
	case *ssa.Select:
		for i, s := range in.States {
			a := chanAlt{send: s.Dir == types.SendOnly, ch: ex.get(f, s.Chan).(ChanRef).O, idx: i}
			if a.send {
				a.val = ex.get(f, s.Send)
			}
			alts = append(alts, a)
		}
		return alts, !in.Blocking, true
	}
	panic(fmt.Sprintf("pendChan at %T", f.fi.fn.Blocks[f.block].Instrs[f.pc]))
}

func (ex *Exec) chanOp(st *State, g *Gor, f *Frame, in ssa.Instruction) ctl {
	if ex.isInline(g, f) || ex.initing {
		alts, def, _ := ex.pendChan(g)
		for _, a := range alts {
			if a.ch == 0 {
				continue
			}
			c := st.heap[a.ch].(*ChanV)
			if a.send && (c.closed || len(c.buf) < c.cap) || !a.send && (len(c.buf) > 0 || c.closed) {
				ex.finishChan(st, g, a)
				return cCont
			}
		}
		if def {
			ex.setSelect(st, g, -1, nil, false)
			return cCont
		}
		panic(Unsupported{"blocking channel operation inside a library function"})
	}
	return cPend
}

// isInline: visible operations issued by this frame are not scheduling points.
func (ex *Exec) isInline(g *Gor, f *Frame) bool {
	if f.fi == nil || !f.fi.inline {
		return false
	}
	return true
}

// nativePoint reports whether the native frame on top must wait for a grant.
func (ex *Exec) nativePoint(st *State, g *Gor, f *Frame) bool {
	if st.grantFor(g) {
		return false
	}
	if ex.initing {
		return false
	}
	if f.nat.enabled == nil {
		return false
	}
	if f.nat == natClose && len(g.frames) >= 2 {
		// a cancellation closes the channels of the context tree in one step
		if c := g.frames[len(g.frames)-2]; c.nat == nil && c.fi.vpm {
			return false
		}
	}
	if f.nat.inlinable && len(g.frames) >= 2 {
		i := len(g.frames) - 2
		for i >= 0 && (g.frames[i].nat != nil || g.frames[i].fi.vpm) {
			i--
		}
		if i >= 0 {
			c := g.frames[i]
			inl := c.fi.inline
			if c.fi.name == "(*gopkg.in/tomb.v2.Tomb).Wait" {
				inl = true
			}
			if c.fi.name == "(*gopkg.in/tomb.v2.Tomb).run" && f.nat == natClose {
				inl = true
			}
			if inl {
				en := f.nat.enabled(ex, st, g, f)
				if en != True {
					panic(Unsupported{"blocking " + f.nat.name + " inside library function " + c.fi.name})
				}
				return false
			}
		}
	}
	return true
}

func (st *State) grantFor(g *Gor) bool {
	if st.grant != "" && st.grant == g.name {
		return true
	}
	return false
}

func (ex *Exec) setSelect(st *State, g *Gor, idx int, v Value, ok bool) {
	f := g.top()
	in := f.fi.fn.Blocks[f.block].Instrs[f.pc]
	switch in := in.(type) {
	case *ssa.Send:
		f.pc++
	case *ssa.UnOp:
		if in.CommaOk {
			ex.set(f, in, &Struct{f: []Value{v, mkBool(ok)}})
		} else {
			ex.set(f, in, v)
		}
		f.pc++
	case *ssa.Select:
		s := &Struct{f: []Value{mkBV(uint64(int64(idx)), 64), mkBool(ok)}}
		for i, c := range in.States {
			if c.Dir == types.RecvOnly {
				if i == idx {
					s.f = append(s.f, v)
				} else {
					s.f = append(s.f, zero(c.Chan.Type().Underlying().(*types.Chan).Elem()))
				}
			}
		}
		ex.set(f, in, s)
		f.pc++
	}
}

func (ex *Exec) elemZero(g *Gor, a chanAlt) Value {
	f := g.top()
	switch in := f.fi.fn.Blocks[f.block].Instrs[f.pc].(type) {
	case *ssa.UnOp:
		return zero(in.X.Type().Underlying().(*types.Chan).Elem())
	case *ssa.Select:
		return zero(in.States[a.idx].Chan.Type().Underlying().(*types.Chan).Elem())
	}
	panic("elemZero")
}

// finishChan performs a non-rendezvous channel operation.
func (ex *Exec) finishChan(st *State, g *Gor, a chanAlt) {
	c := st.heap[a.ch].(*ChanV)
	if a.send {
		if c.closed {
			panic(goPanic{"send on closed channel"})
		}
		n := *c
		n.buf = append(append([]Value(nil), c.buf...), a.val)
		st.heap[a.ch] = &n
		ex.setSelect(st, g, a.idx, nil, false)
		return
	}
	if len(c.buf) > 0 {
		n := *c
		v := c.buf[0]
		n.buf = append([]Value(nil), c.buf[1:]...)
		st.heap[a.ch] = &n
		ex.setSelect(st, g, a.idx, v, true)
		return
	}
	ex.setSelect(st, g, a.idx, ex.elemZero(g, a), false)
}

// Trans is one schedulable transition.
type Trans struct {
	g     string
	alt   *chanAlt // nil: native op or default
	def   bool
	g2    string
	alt2  *chanAlt
	cond  *Term
	nat   bool
	quie  bool
	start bool
	objs  []ObjID
	key   Ptr
}

func (t *Trans) String() string {
	s := t.g
	if t.start {
		s += ":start"
	}
	if t.def {
		s += ":default"
	}
	if t.alt != nil && t.alt.idx >= 0 {
		s += fmt.Sprintf(":case%d", t.alt.idx)
	}
	if t.g2 != "" {
		s += "<->" + t.g2
		if t.alt2.idx >= 0 {
			s += fmt.Sprintf(":case%d", t.alt2.idx)
		}
	}
	return s
}

// enabled enumerates the transitions of a state, in a deterministic order.
func (ex *Exec) enabled(st *State) []*Trans {
	var out []*Trans
	var quiesce *Trans
	type rc struct {
		g string
		a chanAlt
	}
	recvs := map[ObjID][]rc{}
	type pc struct {
		g    *Gor
		alts []chanAlt
		def  bool
	}
	var pcs []pc
	for _, g := range st.gs {
		if g.fresh {
			out = append(out, &Trans{g: g.name, start: true, cond: True})
			continue
		}
		f := g.top()
		if f.nat != nil {
			c := f.nat.enabled(ex, st, g, f)
			if f.nat == natQuiesce {
				quiesce = &Trans{g: g.name, nat: true, quie: true, cond: True}
				continue
			}
			if c != False {
				t := &Trans{g: g.name, nat: true, cond: c}
				if len(f.args) > 0 {
					if p, ok := f.args[0].(Ptr); ok {
						t.key = p
					}
				}
				out = append(out, t)
			}
			continue
		}
		alts, def, _ := ex.pendChan(g)
		pcs = append(pcs, pc{g, alts, def})
		for _, a := range alts {
			if !a.send && a.ch != 0 {
				recvs[a.ch] = append(recvs[a.ch], rc{g.name, a})
			}
		}
	}
	for _, p := range pcs {
		ready := false
		for i := range p.alts {
			a := &p.alts[i]
			if a.ch == 0 {
				continue
			}
			c := st.heap[a.ch].(*ChanV)
			if a.send {
				if c.closed || len(c.buf) < c.cap {
					out = append(out, &Trans{g: p.g.name, alt: a, cond: True})
					ready = true
				} else if c.cap == 0 {
					for _, r := range recvs[a.ch] {
						if r.g != p.g.name {
							ra := r.a
							out = append(out, &Trans{g: p.g.name, alt: a, g2: r.g, alt2: &ra, cond: True})
						}
					}
				}
			} else if len(c.buf) > 0 || c.closed {
				out = append(out, &Trans{g: p.g.name, alt: a, cond: True})
				ready = true
			}
		}
		if p.def && !ready {
			out = append(out, &Trans{g: p.g.name, def: true, cond: True})
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].g < out[j].g })
	if quiesce != nil {
		c := True
		for _, t := range out {
			c = And(c, Not(t.cond))
		}
		if c != False {
			quiesce.cond = c
			out = append(out, quiesce)
		}
	}
	return out
}

// apply performs transition t on st (already owned by the caller) and queues
// the affected goroutines.
func (ex *Exec) apply(st *State, t *Trans) (ok bool) {
	own := func(name string) *Gor {
		for i, g := range st.gs {
			if g.name == name {
				n := g.clone()
				st.gs[i] = n
				return n
			}
		}
		panic("no goroutine " + name)
	}
	if ex.tr != nil {
		ex.tr.step(ex, st, t)
	}
	g := own(t.g)
	st.runq = []string{t.g}
	if t.start {
		g.fresh = false
		return true
	}
	if t.nat {
		st.grant = t.g
		return true
	}
	if t.def {
		ex.setSelect(st, g, -1, nil, false)
		return true
	}
	if t.g2 != "" {
		h := own(t.g2)
		st.runq = append(st.runq, t.g2)
		v := t.alt.val
		ex.setSelect(st, g, t.alt.idx, nil, false)
		ex.setSelect(st, h, t.alt2.idx, v, true)
		return true
	}
	alive := true
	func() {
		defer func() {
			if r := recover(); r != nil {
				p, isP := r.(goPanic)
				if !isP {
					panic(r)
				}
				switch ex.raise(st, g, ex.runtimeError(p.msg), false) {
				case cDead:
					alive = false
				case cExit:
					ex.gorExit(st, g)
					st.runq = nil
				}
			}
		}()
		ex.finishChan(st, g, *t.alt)
	}()
	return alive
}

// drain runs all paths of the current transition to completion.
func (ex *Exec) drain(first *State) []*State {
	ex.work = append(ex.work[:0], first)
	var res []*State
	for len(ex.work) > 0 {
		st := ex.work[len(ex.work)-1]
		ex.work = ex.work[:len(ex.work)-1]
		if ex.runPath(st) {
			res = append(res, st)
		}
	}
	return res
}

type layerStats struct{ n int }

// Explore runs the bounded exploration from the harness entry.
func (ex *Exec) Explore(entry *ssa.Function) {
	start := time.Now()
	st := &State{guard: True, wit: &Model{m: map[*Term]uint64{}}, known: map[*Term]bool{}}
	st.heap = append(st.heap, ex.initHeap...)
	main := &Gor{name: "main"}
	ex.callFn(st, main, entry, nil, nil, false)
	st.gs = []*Gor{main}
	st.runq = []string{"main"}
	idx := &layerIdx{m: map[string]*group{}}
	for _, r := range ex.drain(st) {
		ex.merge(idx, r)
	}
	layer := ex.closeLayer(idx)
	ex.nStates = len(layer)
	verbose := os.Getenv("VP_V") != ""
	for depth := 1; len(layer) > 0; depth++ {
		if depth > ex.opt.MaxDepth {
			ex.inconclusive(fmt.Sprintf("depth bound %d reached with %d live states", ex.opt.MaxDepth, len(layer)))
			break
		}
		if ex.timeUp(start) {
			ex.inconclusive(fmt.Sprintf("time bound reached at depth %d with %d live states", depth, len(layer)))
			break
		}
		idx := &layerIdx{m: map[string]*group{}}
		for _, s := range layer {
			for _, r := range ex.successors(s, depth) {
				ex.merge(idx, r)
			}
			if len(ex.viol) > 0 && ex.stopAt() {
				break
			}
			if ex.timeUp(start) {
				ex.inconclusive(fmt.Sprintf("time bound reached within depth %d", depth))
				return
			}
		}
		if len(ex.viol) > 0 && ex.stopAt() {
			return
		}
		layer = ex.closeLayer(idx)
		ex.deepest = depth
		ex.nStates += len(layer)
		if len(layer) > ex.maxLayer {
			ex.maxLayer = len(layer)
		}
		if verbose {
			fmt.Fprintf(os.Stderr, "depth %d: %d states, %d trans, %d forks, %d queries (%.1fs solver), %d terms, %.1fs\n", depth, len(layer), ex.nTrans, ex.nForks, ex.sol.Queries, ex.sol.Time.Seconds(), TP.terms, time.Since(start).Seconds())
			if os.Getenv("VP_V") == "2" && len(layer) > 0 {
				fmt.Fprintln(os.Stderr, layer[len(layer)/2].dump())
			}
			if os.Getenv("VP_V") == "3" {
				for i, s := range layer {
					fmt.Fprintf(os.Stderr, "--- state %d\n%s", i, s.dump())
				}
			}
		}
		if len(layer) > ex.opt.MaxStates {
			ex.inconclusive(fmt.Sprintf("state bound %d exceeded at depth %d", ex.opt.MaxStates, depth))
			break
		}
	}
}

func (ex *Exec) stopAt() bool { return len(ex.viol) >= 3 }

func (ex *Exec) successors(s *State, depth int) []*State {
	ts := ex.enabled(s)
	if len(ts) == 0 {
		ex.deadlock(s, s.guard)
		return nil
	}
	if !ex.opt.NoPOR {
		ts = ex.reduce(s, ts)
	}
	var out []*State
	block := True
	anyTrue := false
	for _, t := range ts {
		if t.cond == True {
			anyTrue = true
		}
		block = And(block, Not(t.cond))
	}
	if !anyTrue && block != False {
		g := And(s.guard, block)
		if s.eval(block) {
			ex.deadlock(s, g)
		} else if r, _ := ex.sol.Check(g, true); r == Sat {
			ex.deadlock(s, g)
		}
	}
	var rs []raceSucc
	for _, t := range ts {
		n := ex.take(s, t, depth)
		if n == nil {
			continue
		}
		n.rec = &Rec{parent: s.rec, tr: t.String(), depth: depth}
		ex.nTrans++
		ex.curTrans = t
		if !ex.apply(n, t) {
			continue
		}
		res := ex.drain(n)
		out = append(out, res...)
		if ex.opt.Race {
			for _, r := range res {
				rs = append(rs, raceSucc{t, r, r.races})
			}
		}
	}
	if ex.opt.Race {
		ex.raceCheck(s, rs, depth)
	}
	return out
}

// take prepares a successor of s by transition t; nil if t is not possible.
func (ex *Exec) take(s *State, t *Trans, depth int) *State {
	n := s.clone()
	n.depth = depth
	n.seq = 0
	n.steps = 0
	n.ev = nil
	if ex.opt.Race {
		n.races = &raceLog{}
		n.raceHeap = len(s.heap)
	}
	n.guard = And(s.guard, t.cond)
	if t.cond != True && !n.eval(t.cond) {
		r, m := ex.sol.Check(n.guard, true)
		if r == Unknown {
			ex.inconclusive("solver returned unknown on an enabling condition")
		}
		if r != Sat {
			return nil
		}
		n.wit = m
		n.ev = nil
	}
	return n
}

func (ex *Exec) deadlock(s *State, g *Term) {
	if s.gor("main") == nil {
		return
	}
	if ex.deadProp == "" {
		ex.inconclusive("a path ends with the harness blocked (not this property's concern)")
		return
	}
	ex.violate(s, ex.deadProp+": the harness's main goroutine is blocked for ever", g, "deadlock", s.dump())
}

// violate records a violation: cond is satisfiable or not, decided by z3.
func (ex *Exec) violate(st *State, msg string, cond *Term, kind, extra string) {
	if ex.violSet[msg] {
		return
	}
	r, m := ex.sol.Check(cond, true)
	switch r {
	case Unsat:
		return
	case Unknown:
		ex.inconclusive("solver returned unknown on: " + msg)
		return
	}
	ex.violSet[msg] = true
	ex.viol = append(ex.viol, &Violation{Msg: msg, Depth: st.depth, Model: m, Rec: st.rec, Kind: kind, Extra: extra})
}

// ---- partial-order reduction ----

// reduce returns a persistent subset of the enabled transitions: if some
// transition only concerns objects no other goroutine can reach, it commutes
// with everything and is explored alone.
func (ex *Exec) reduce(s *State, ts []*Trans) []*Trans {
	if len(ts) <= 1 {
		return ts
	}
	// candidates: plain operations on private channels / mutexes
	perG := map[string]int{}
	for _, t := range ts {
		perG[t.g]++
		if t.g2 != "" {
			perG[t.g2]++
		}
	}
	var reach map[ObjID][]string
	for _, t := range ts {
		if t.cond != True || perG[t.g] != 1 || t.quie {
			continue
		}
		var o ObjID
		n := 1
		switch {
		case t.g2 != "":
			if perG[t.g2] != 1 || t.alt.idx >= 0 || t.alt2.idx >= 0 {
				continue
			}
			o = t.alt.ch
			n = 2
		case t.def:
			// a poll: all its channels must be private
			continue
		case t.alt != nil:
			g := s.gor(t.g)
			if f := g.top(); f.fi.sut && !t.alt.send {
				if c := s.heap[t.alt.ch].(*ChanV); c.closed && len(c.buf) == 0 {
					// a receive from a closed channel that has no
					// alternative: nothing can change its outcome
					if alts, _, _ := ex.pendChan(g); len(alts) == 1 {
						return []*Trans{t}
					}
				}
			}
			if t.alt.idx >= 0 {
				continue
			}
			o = t.alt.ch
		case t.nat:
			f := s.gor(t.g).top()
			if f.nat != natClose {
				continue
			}
			o = f.args[0].(ChanRef).O
		}
		if o == 0 || int(o) < ex.perm {
			continue
		}
		if reach == nil {
			reach = ex.reachability(s)
		}
		ok := true
		for _, g := range reach[o] {
			if g != t.g && g != t.g2 {
				ok = false
				break
			}
		}
		_ = n
		if ok {
			return []*Trans{t}
		}
	}
	return ts
}

// reachability maps each object to the goroutines that can reach it ("" for
// permanent objects).
func (ex *Exec) reachability(s *State) map[ObjID][]string {
	res := map[ObjID][]string{}
	mark := func(name string, roots func(k *keyer)) {
		k := &keyer{st: s, ex: ex, num: map[ObjID]int{}}
		roots(k)
		for i := 0; i < len(k.order); i++ {
			k.val(s.heap[k.order[i]], false)
		}
		for _, o := range k.order {
			res[o] = append(res[o], name)
		}
	}
	mark("", func(k *keyer) {
		for o := 1; o < ex.perm; o++ {
			if s.heap[o] != ex.initHeap[o] {
				k.val(s.heap[o], false)
			}
		}
	})
	for _, g := range s.gs {
		mark(g.name, func(k *keyer) { k.gor(g) })
	}
	return res
}

// stopNow is set on SIGUSR1: check.py asks for an end once another scenario has
// shown a violation.
var stopNow atomic.Bool

func (ex *Exec) timeUp(start time.Time) bool {
	if len(ex.viol) > 0 && ex.violAt.IsZero() {
		ex.violAt = time.Now()
	}
	// a scenario that has shown a violation goes on for a while, for others
	return stopNow.Load() || time.Since(start).Seconds() > ex.opt.MaxSeconds ||
		!ex.violAt.IsZero() && time.Since(ex.violAt).Seconds() > max(ex.opt.AfterViol, 2*ex.violAt.Sub(start).Seconds())
}
