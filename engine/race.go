package main

// Data races: two transitions of different goroutines that are both enabled,
// can be taken one after the other, and touch the same memory outside any
// common lock, at least one of them writing.

import (
	"fmt"
	"sort"
	"strings"
)

// Held is a lock a goroutine holds.
type Held struct {
	O ObjID
	P *Path
	R bool // for reading
}

// Acc is an access of the current transition; at is its place among the
// accesses, acquisitions and releases of the transition.
type Acc struct {
	o     ObjID
	p     *Path
	write bool
	g     string
	held  []Held
	fn    string
	pos   string
	at    int
}

// LockEv is the acquisition or release of a lock within the transition.
type LockEv struct {
	Held
	g   string
	acq bool
	at  int
}

type raceLog struct {
	n   int
	acc []Acc
	ev  []LockEv
}

func (l *raceLog) clone() *raceLog {
	return &raceLog{n: l.n, acc: append([]Acc(nil), l.acc...), ev: append([]LockEv(nil), l.ev...)}
}

func (ex *Exec) noteLock(st *State, g *Gor, p Ptr, read, acq bool) {
	if !ex.opt.Race {
		return
	}
	h := Held{p.O, p.P, read}
	if acq {
		g.held = append(append([]Held(nil), g.held...), h)
	} else {
		for i := len(g.held) - 1; i >= 0; i-- {
			if x := g.held[i]; x.O == h.O && x.P == h.P && x.R == h.R {
				g.held = append(append([]Held(nil), g.held[:i]...), g.held[i+1:]...)
				break
			}
		}
	}
	if st.races != nil {
		st.races.n++
		st.races.ev = append(st.races.ev, LockEv{h, g.name, acq, st.races.n})
	}
}

// raceQuiet: code whose accesses are not the library's.
func raceQuiet(fi *FnInfo) bool {
	if fi.sut {
		return false
	}
	switch fi.pkg {
	case "sync", "sync/atomic", "context", "time", "gopkg.in/tomb.v2", "runtime", "reflect", "fmt", "errors":
		return true
	}
	return fi.vpm || strings.HasPrefix(fi.pkg, sutPkg) || strings.HasPrefix(fi.pkg, "internal/")
}

func (ex *Exec) access(st *State, g *Gor, f *Frame, p Ptr, write bool) {
	if st.races == nil || p.O == 0 || int(p.O) >= len(st.heap) || f.fi == nil || raceQuiet(f.fi) || int(p.O) >= st.raceHeap {
		return
	}
	// the place in the library on whose behalf this is done
	var at *Frame
	for i := len(g.frames) - 1; i >= 0; i-- {
		x := g.frames[i]
		if x.nat != nil {
			continue
		}
		if x.fi.sut {
			at = x
			break
		}
		if x.fi.pkg == sutPkg || strings.HasPrefix(x.fi.pkg, sutPkg+"/zzverif") {
			return
		}
	}
	if at == nil {
		return
	}
	st.races.n++
	st.races.acc = append(st.races.acc, Acc{o: p.O, p: p.P, write: write, g: g.name, held: g.held, fn: at.fi.name,
		pos: ex.prog.Fset.Position(at.fi.fn.Blocks[at.block].Instrs[at.pc].Pos()).String(), at: st.races.n})
}

func overlap(a, b *Path) bool {
	up := func(p, q *Path) bool {
		for q != nil && q != rootPath {
			if q == p {
				return true
			}
			q = q.parent
		}
		return p == nil || p == rootPath
	}
	return up(a, b) || up(b, a)
}

func conflict(a, b *Acc) bool {
	if a.o != b.o || a.g == b.g || !a.write && !b.write || !overlap(a.p, b.p) {
		return false
	}
	for _, x := range a.held {
		for _, y := range b.held {
			if x.O == y.O && x.P == y.P && !(x.R && y.R) {
				return false
			}
		}
	}
	return true
}

// ordered: a's goroutine releases a lock after a that b's goroutine acquires
// before b (a's transition being taken first).
func ordered(la *raceLog, a *Acc, lb *raceLog, b *Acc) bool {
	for _, r := range la.ev {
		if r.acq || r.g != a.g || r.at < a.at {
			continue
		}
		for _, q := range lb.ev {
			if q.acq && q.g == b.g && q.at < b.at && q.O == r.O && q.P == r.P && !(q.R && r.R) {
				return true
			}
		}
	}
	return false
}

type raceSucc struct {
	t   *Trans
	st  *State
	log *raceLog
}

func raceMsg(prop string, a, b *Acc) string {
	l := []string{short(a), short(b)}
	sort.Strings(l)
	return fmt.Sprintf("%s: unsynchronised accesses to the same memory: %s / %s", prop, l[0], l[1])
}

func short(a *Acc) string {
	k := "read"
	if a.write {
		k = "write"
	}
	return strings.ReplaceAll(a.fn, sutPkg, "worker") + " (" + k + ")"
}

// raceCheck looks for races among the transitions taken from s.
func (ex *Exec) raceCheck(s *State, out []raceSucc, depth int) {
	for i := range out {
		x := &out[i]
		ex.nRacePairs += len(x.log.acc)
		if x.t.g2 != "" {
			for j := range x.log.acc {
				for k := j + 1; k < len(x.log.acc); k++ {
					a, b := &x.log.acc[j], &x.log.acc[k]
					if conflict(a, b) && !ordered(x.log, a, x.log, b) {
						ex.violate(x.st, raceMsg(ex.opt.Prop, a, b), x.st.guard, "race", a.pos+" "+b.pos)
					}
				}
			}
		}
		for j := i + 1; j < len(out); j++ {
			y := &out[j]
			if x.t.g == y.t.g || x.t.g == y.t.g2 || x.t.g2 != "" && (x.t.g2 == y.t.g || x.t.g2 == y.t.g2) {
				continue
			}
			for k := range x.log.acc {
				for l := range y.log.acc {
					a, b := &x.log.acc[k], &y.log.acc[l]
					if !conflict(a, b) {
						continue
					}
					key := a.pos + " " + b.pos
					if a.pos > b.pos {
						key = b.pos + " " + a.pos
					}
					if ex.races[key] {
						continue
					}
					if ex.raceConfirm(x, y, a, b, depth) || ex.raceConfirm(y, x, b, a, depth) {
						ex.races[key] = true
					}
				}
			}
		}
	}
}

// raceConfirm takes y's transition after x's and asks the solver whether both
// accesses happen, without an order between them.
func (ex *Exec) raceConfirm(x, y *raceSucc, a, b *Acc, depth int) bool {
	live := map[*Term]bool{}
	for _, v := range varsOf(x.st.guard) {
		live[v] = true
	}
	rec := *x.st.rec
	rec.full, rec.live = x.st.guard, live
	for _, t := range ex.enabled(x.st) {
		if t.String() != y.t.String() || t.nat != y.t.nat {
			continue
		}
		n := ex.take(x.st, t, depth+1)
		if n == nil {
			continue
		}
		n.rec = &Rec{parent: &rec, tr: t.String(), depth: depth + 1}
		if !ex.apply(n, t) {
			continue
		}
		for _, r := range ex.drain(n) {
			for i := range r.races.acc {
				c := &r.races.acc[i]
				if c.g == b.g && c.pos == b.pos && conflict(a, c) && !ordered(x.log, a, r.races, c) {
					n0 := len(ex.viol)
					ex.violate(r, raceMsg(ex.opt.Prop, a, c), r.guard, "race", a.pos+" "+c.pos)
					if len(ex.viol) > n0 || ex.violSet[raceMsg(ex.opt.Prop, a, c)] {
						return true
					}
				}
			}
		}
	}
	return false
}
