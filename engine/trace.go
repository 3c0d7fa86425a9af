package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type typesType = types.Type

// intrinsicsInit makes the init functions of packages outside the encoded set
// no-ops.
func intrinsicsInit(ex *Exec) {
	for _, p := range ex.prog.AllPackages() {
		path := p.Pkg.Path()
		if initOK(path) && !skipInit(path) {
			continue
		}
		f := p.Func("init")
		if f == nil {
			continue
		}
		fi := ex.info0(f)
		fi.intr = func(ex *Exec, st *State, g *Gor, fi *FnInfo, args []Value) Value { return unit() }
	}
}

// info0 registers a function without building its package.
func (ex *Exec) info0(fn *ssa.Function) *FnInfo {
	fi, ok := ex.fns[fn]
	if !ok {
		fi = &FnInfo{fn: fn, id: len(ex.fns) + 1, name: fn.String(), pkg: fn.Pkg.Pkg.Path()}
		ex.fns[fn] = fi
	}
	return fi
}

// Trace is a concrete run of the model: inputs, schedule and events.
type Trace struct {
	Events []Event `json:"events"`
	nuid   int
	end    string
}

type Event struct {
	K     string   `json:"k"` // step spawn nondet maporder exit assert crash reach
	G     int      `json:"g"`
	Name  string   `json:"name,omitempty"`
	Op    string   `json:"op,omitempty"`
	Pos   string   `json:"pos,omitempty"`
	Case  int      `json:"case,omitempty"`
	G2    int      `json:"g2,omitempty"`
	Pos2  string   `json:"pos2,omitempty"`
	Case2 int      `json:"case2,omitempty"`
	Child int      `json:"child,omitempty"`
	Val   uint64   `json:"val,omitempty"`
	Keys  []string `json:"keys,omitempty"`
	Depth int      `json:"depth,omitempty"`
	Alts  int      `json:"alts,omitempty"`
}

func (t *Trace) add(e Event) { t.Events = append(t.Events, e) }
func (t *Trace) spawn(g, n *Gor) {
	t.nuid++
	n.uid = t.nuid
	t.add(Event{K: "spawn", G: g.uid, Child: n.uid, Name: n.name})
}
func (t *Trace) exit(g *Gor) { t.add(Event{K: "exit", G: g.uid, Name: g.name}) }
func (t *Trace) nondet(g *Gor, what string, v uint64) {
	t.add(Event{K: "nondet", G: g.uid, Name: what, Val: v})
}
func (t *Trace) note(k string, g *Gor, msg string) {
	t.add(Event{K: k, G: g.uid, Name: msg})
	if k == "assert" || k == "crash" {
		t.end = msg
	}
}
func (t *Trace) maporder(g *Gor, f *Frame, in ssa.Instruction, keys []Value) {
	var l []string
	for _, k := range keys {
		l = append(l, fmt.Sprint(k))
	}
	t.add(Event{K: "maporder", G: g.uid, Keys: l, Pos: theProg.Fset.Position(in.Pos()).String()})
}

func (ex *Exec) opPos(g *Gor) (op, pos string) {
	f := g.top()
	if f.nat != nil {
		op = f.nat.name
		if f.phase > 0 {
			op += "/1"
		}
		for i := len(g.frames) - 2; i >= 0; i-- {
			if g.frames[i].nat == nil && !g.frames[i].fi.vpm {
				f = g.frames[i]
				break
			}
		}
		if f.nat != nil {
			return op, ""
		}
		return op, ex.prog.Fset.Position(f.fi.fn.Blocks[f.block].Instrs[f.pc].Pos()).String()
	}
	in := f.fi.fn.Blocks[f.block].Instrs[f.pc]
	switch in.(type) {
	case *ssa.Send:
		op = "send"
	case *ssa.UnOp:
		op = "recv"
	case *ssa.Select:
		op = "select"
	}
	return op, ex.prog.Fset.Position(in.Pos()).String()
}

func (t *Trace) step(ex *Exec, st *State, tr *Trans) {
	g := st.gor(tr.g)
	e := Event{K: "step", G: g.uid, Name: g.name, Depth: st.depth}
	if tr.start {
		e.Op = "start"
	} else {
		e.Op, e.Pos = ex.opPos(g)
	}
	e.Case = -1
	if tr.alt != nil {
		e.Case = tr.alt.idx
	}
	if tr.g2 != "" {
		h := st.gor(tr.g2)
		e.G2 = h.uid
		_, e.Pos2 = ex.opPos(h)
		e.Case2 = tr.alt2.idx
	} else {
		e.G2 = -1
	}
	t.add(e)
}

func (t *Trace) text() string {
	var sb strings.Builder
	for i, e := range t.Events {
		switch e.K {
		case "step":
			fmt.Fprintf(&sb, "%3d step %-3d %s(%d) %s case=%d at %s", i, e.Depth, e.Name, e.G, e.Op, e.Case, e.Pos)
			if e.G2 >= 0 {
				fmt.Fprintf(&sb, " <-> g%d case=%d at %s", e.G2, e.Case2, e.Pos2)
			}
			sb.WriteByte('\n')
		default:
			b, _ := json.Marshal(e)
			fmt.Fprintf(&sb, "%3d      %s\n", i, b)
		}
	}
	return sb.String()
}

// extract re-runs the model concretely under m and records the trace.
func (ex *Exec) extract(entry *ssa.Function, v *Violation) (tr *Trace) {
	sched, m := ex.backtrace(v.Rec, v.Model)
	maxDepth := v.Depth
	kind := v.Kind
	ex.conc = m
	ex.tr = &Trace{}
	tr = ex.tr
	defer func() {
		ex.conc = nil
		ex.tr = nil
		if r := recover(); r != nil {
			if u, ok := r.(Unsupported); ok {
				tr.add(Event{K: "error", Name: u.Msg})
				return
			}
			panic(r)
		}
	}()
	st := &State{guard: True, wit: m, known: map[*Term]bool{}}
	st.heap = append(st.heap, ex.initHeap...)
	main := &Gor{name: "main"}
	ex.callFn(st, main, entry, nil, nil, false)
	st.gs = []*Gor{main}
	st.runq = []string{"main"}
	res := ex.drain(st)
	for depth := 1; depth <= maxDepth; depth++ {
		if len(res) != 1 || res[0].done {
			break
		}
		s := res[0]
		k, kr := ex.key(s)
		_ = k
		ex.normalise(s, kr)
		s.known = map[*Term]bool{}
		ts := ex.enabled(s)
		var en []*Trans
		for _, t := range ts {
			if s.eval(t.cond) {
				en = append(en, t)
			}
		}
		if len(en) == 0 {
			tr.add(Event{K: "deadlock"})
			break
		}
		var t *Trans
		for _, x := range en {
			if x.String() == sched[depth] {
				t = x
			}
		}
		if t == nil {
			tr.add(Event{K: "error", Name: fmt.Sprintf("transition %q of depth %d is not enabled", sched[depth], depth)})
			break
		}
		n := s.clone()
		n.depth, n.seq, n.steps = depth, 0, 0
		if !ex.apply(n, t) {
			break
		}
		res = ex.drain(n)
		if depth == maxDepth && kind == "deadlock" {
			maxDepth++ // look at the blocked state
			kind = ""
		}
	}
	return tr
}
